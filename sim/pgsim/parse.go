package pgsim

import (
	"fmt"
	"strconv"
	"strings"
)

type parser struct {
	src    string
	toks   []token
	p      int
	plvars map[string]bool
}

type parseError struct{ msg string }

func (e parseError) Error() string { return e.msg }

func (p *parser) fail(f string, a ...any) {
	t := p.toks[p.p]
	lo, hi := t.pos-60, t.pos+40
	if lo < 0 {
		lo = 0
	}
	if hi > len(p.src) {
		hi = len(p.src)
	}
	panic(parseError{fmt.Sprintf("pgsim: parse: %s near %q", fmt.Sprintf(f, a...), p.src[lo:hi])})
}
func (p *parser) peek() token { return p.toks[p.p] }
func (p *parser) at(n int) token {
	if p.p+n < len(p.toks) {
		return p.toks[p.p+n]
	}
	return p.toks[len(p.toks)-1]
}
func (p *parser) next() token { t := p.toks[p.p]; p.p++; return t }
func (p *parser) isOp(s string) bool {
	t := p.peek()
	return t.k == tOp && t.s == s
}
func (p *parser) op(s string) bool {
	if p.isOp(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) wantOp(s string) {
	if !p.op(s) {
		p.fail("expected %q", s)
	}
}
func (p *parser) isKw(words ...string) bool {
	for i, w := range words {
		t := p.at(i)
		if t.k != tIdent || t.s != w {
			return false
		}
	}
	return true
}
func (p *parser) kw(words ...string) bool {
	if p.isKw(words...) {
		p.p += len(words)
		return true
	}
	return false
}
func (p *parser) want(words ...string) {
	if !p.kw(words...) {
		p.fail("expected %v", words)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != tIdent && t.k != tQuoted {
		p.p--
		p.fail("expected identifier")
	}
	return t.s
}

// qualified name; the default schema is blnk (the migrations and the code agree on it)
func (p *parser) qname() string {
	a := p.ident()
	if p.op(".") {
		b := p.ident()
		return a + "." + b
	}
	return a
}

func tblName(q string) string {
	if i := strings.IndexByte(q, '.'); i >= 0 {
		return strings.ToLower(q[i+1:])
	}
	return strings.ToLower(q)
}

var reserved = map[string]bool{"select": true, "from": true, "where": true, "group": true, "having": true, "order": true, "limit": true, "offset": true, "union": true, "except": true, "intersect": true, "on": true, "join": true, "left": true, "right": true, "inner": true, "full": true, "cross": true, "natural": true, "using": true, "set": true, "returning": true, "values": true, "for": true, "and": true, "or": true, "not": true, "as": true, "when": true, "then": true, "else": true, "end": true, "case": true, "into": true, "with": true, "lateral": true, "window": true, "fetch": true, "is": true, "in": true, "like": true, "ilike": true, "between": true, "asc": true, "desc": true, "nulls": true, "exists": true, "conflict": true, "do": true, "loop": true, "null": true, "distinct": true, "all": true, "any": true, "over": true, "filter": true, "collate": true}

func parseStatement(src string) (st any, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(parseError); ok {
				err = pe
				return
			}
			panic(r)
		}
	}()
	toks, e := lex(src)
	if e != nil {
		return nil, e
	}
	p := &parser{src: src, toks: toks}
	for p.op(";") {
	}
	st = p.statement()
	for p.op(";") {
	}
	if p.peek().k != tEOF {
		p.fail("trailing input")
	}
	return st, nil
}

func (p *parser) statement() any {
	switch {
	case p.isKw("with") || p.isKw("select") || p.isKw("values") || p.isOp("("):
		return p.withStmt()
	case p.isKw("insert"):
		return p.insert(nil)
	case p.isKw("update"):
		return p.update(nil)
	case p.isKw("delete"):
		return p.delete(nil)
	case p.isKw("create"):
		return p.create()
	case p.isKw("alter", "table"):
		return p.alterTable()
	case p.isKw("drop"):
		return p.drop()
	case p.isKw("set") || p.isKw("show") || p.isKw("listen") || p.isKw("lock") || p.isKw("analyze") || p.isKw("reindex") || p.isKw("vacuum") || p.isKw("comment") || p.isKw("grant"):
		w := p.peek().s
		for p.peek().k != tEOF && !p.isOp(";") {
			p.p++
		}
		return &NoopStmt{w}
	}
	p.fail("unsupported statement")
	return nil
}

func (p *parser) withStmt() any {
	var ctes []CTE
	rec := false
	if p.kw("with") {
		rec = p.kw("recursive")
		for {
			c := CTE{name: p.ident()}
			if p.op("(") {
				for {
					c.cols = append(c.cols, p.ident())
					if !p.op(",") {
						break
					}
				}
				p.wantOp(")")
			}
			p.want("as")
			if p.kw("not") {
			}
			p.kw("materialized")
			p.wantOp("(")
			c.stmt = p.statement()
			p.wantOp(")")
			ctes = append(ctes, c)
			if !p.op(",") {
				break
			}
		}
	}
	switch {
	case p.isKw("insert"):
		return p.insert(ctes)
	case p.isKw("update"):
		return p.update(ctes)
	case p.isKw("delete"):
		return p.delete(ctes)
	}
	s := p.selectStmt()
	if len(ctes) > 0 {
		s.ctes = append(ctes, s.ctes...)
	}
	s.recursive = rec
	return s
}

func (p *parser) selectStmt() *Select {
	s := p.selectSet(0)
	p.selectTail(s)
	return s
}

func (p *parser) selectTail(s *Select) {
	if p.kw("order", "by") {
		s.order = p.orderList()
	}
	for {
		if p.kw("limit") {
			if p.kw("all") {
				continue
			}
			s.limit = p.expr()
			continue
		}
		if p.kw("offset") {
			s.offset = p.expr()
			p.kw("rows")
			continue
		}
		if p.kw("for") {
			l := &LockClause{}
			switch {
			case p.kw("update"):
				l.mode = lkUpdate
			case p.kw("no", "key", "update"):
				l.mode = lkNoKeyUpdate
			case p.kw("share"):
				l.mode = lkShare
			case p.kw("key", "share"):
				l.mode = lkKeyShare
			default:
				p.fail("lock clause")
			}
			if p.kw("of") {
				for {
					l.of = append(l.of, p.ident())
					if !p.op(",") {
						break
					}
				}
			}
			if p.kw("skip", "locked") {
				l.skip = true
			} else if p.kw("nowait") {
				l.nowait = true
			}
			s.lock = l
			continue
		}
		return
	}
}

func (p *parser) selectSet(minPrec int) *Select {
	l := p.selectPrimary()
	for {
		var op string
		prec := 1
		switch {
		case p.isKw("union"):
			op = "union"
		case p.isKw("except"):
			op = "except"
		case p.isKw("intersect"):
			op = "intersect"
			prec = 2
		default:
			return l
		}
		if prec <= minPrec {
			return l
		}
		p.p++
		all := p.kw("all")
		p.kw("distinct")
		r := p.selectSet(prec)
		l = &Select{setop: op, all: all, left: l, right: r}
	}
}

func (p *parser) selectPrimary() *Select {
	if p.op("(") {
		st := p.withStmt()
		s, ok := st.(*Select)
		if !ok {
			p.fail("select expected")
		}
		p.wantOp(")")
		return s
	}
	if p.kw("values") {
		s := &Select{}
		for {
			p.wantOp("(")
			var row []Expr
			for {
				row = append(row, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
			s.values = append(s.values, row)
			if !p.op(",") {
				break
			}
		}
		return s
	}
	p.want("select")
	s := &Select{}
	if p.kw("distinct") {
		if p.kw("on") {
			p.wantOp("(")
			for {
				s.distinctOn = append(s.distinctOn, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
		} else {
			s.distinct = true
		}
	} else {
		p.kw("all")
	}
	if !p.isKw("from") && p.peek().k != tEOF && !p.isOp(")") {
		s.items = p.selItems()
	}
	if p.kw("into") {
		s.into = p.intoList()
	}
	if p.kw("from") {
		for {
			s.from = append(s.from, p.fromItem())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("where") {
		s.where = p.expr()
	}
	if p.kw("group", "by") {
		for {
			s.group = append(s.group, p.expr())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("having") {
		s.having = p.expr()
	}
	return s
}

func (p *parser) intoList() []string {
	var out []string
	p.kw("strict")
	for {
		out = append(out, p.ident())
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) selItems() []SelItem {
	var out []SelItem
	for {
		var it SelItem
		if p.op("*") {
			it.e = &Star{}
		} else if (p.peek().k == tIdent || p.peek().k == tQuoted) && p.at(1).k == tOp && p.at(1).s == "." && p.at(2).k == tOp && p.at(2).s == "*" {
			it.e = &Star{tbl: p.ident()}
			p.p += 2
		} else {
			it.e = p.expr()
			if p.kw("as") {
				it.alias = p.ident()
			} else if t := p.peek(); t.k == tQuoted || t.k == tIdent && !reserved[t.s] {
				it.alias = p.ident()
			}
		}
		out = append(out, it)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) orderList() []OrderItem {
	var out []OrderItem
	for {
		o := OrderItem{e: p.expr()}
		if p.kw("desc") {
			o.desc = true
		} else {
			p.kw("asc")
		}
		if p.kw("nulls") {
			f := p.kw("first")
			if !f {
				p.want("last")
			}
			o.nullsFirst = &f
		}
		out = append(out, o)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) fromItem() *FromItem {
	l := p.fromPrimary()
	for {
		kind := ""
		switch {
		case p.kw("cross", "join"):
			kind = "cross"
		case p.kw("inner", "join"), p.kw("join"):
			kind = "inner"
		case p.kw("left", "outer", "join"), p.kw("left", "join"):
			kind = "left"
		case p.kw("right", "outer", "join"), p.kw("right", "join"):
			kind = "right"
		case p.kw("full", "outer", "join"), p.kw("full", "join"):
			kind = "full"
		default:
			return l
		}
		r := p.fromPrimary()
		j := &Join{kind: kind, l: l, r: r}
		if kind != "cross" {
			if p.kw("on") {
				j.on = p.expr()
			} else {
				p.want("using")
				p.wantOp("(")
				for {
					j.using = append(j.using, p.ident())
					if !p.op(",") {
						break
					}
				}
				p.wantOp(")")
			}
		}
		l = &FromItem{join: j}
	}
}

func (p *parser) fromPrimary() *FromItem {
	f := &FromItem{}
	f.lateral = p.kw("lateral")
	if p.isOp("(") {
		// subquery or parenthesised join
		save := p.p
		p.p++
		if p.isKw("select") || p.isKw("with") || p.isKw("values") || p.isOp("(") {
			st := p.withStmt()
			s, ok := st.(*Select)
			if !ok {
				p.fail("subquery")
			}
			p.wantOp(")")
			f.sub = s
		} else {
			p.p = save + 1
			f = p.fromItem()
			p.wantOp(")")
			return f
		}
	} else {
		p.kw("only")
		a := p.ident()
		if p.op(".") {
			f.schema = a
			a = p.ident()
		}
		if p.isOp("(") {
			f.fn = p.funcCall(a).(*Func)
		} else {
			f.table = a
		}
	}
	if p.kw("as") {
		f.alias = p.ident()
	} else if t := p.peek(); t.k == tQuoted || t.k == tIdent && !reserved[t.s] {
		f.alias = p.ident()
	}
	if f.alias != "" && p.isOp("(") {
		p.p++
		for {
			f.colAliases = append(f.colAliases, p.ident())
			if p.peek().k == tIdent && !p.isOp(",") && !p.isOp(")") {
				p.typ()
			}
			if !p.op(",") {
				break
			}
		}
		p.wantOp(")")
	}
	return f
}

func (p *parser) returning() ([]SelItem, bool) {
	if p.kw("returning") {
		return p.selItems(), true
	}
	return nil, false
}

func (p *parser) insert(ctes []CTE) *Insert {
	p.want("insert", "into")
	s := &Insert{ctes: ctes, table: tblName(p.qname())}
	if p.kw("as") {
		s.alias = p.ident()
	}
	if p.isOp("(") && !(p.at(1).k == tIdent && (p.at(1).s == "select" || p.at(1).s == "with")) {
		p.p++
		for {
			s.cols = append(s.cols, p.ident())
			if !p.op(",") {
				break
			}
		}
		p.wantOp(")")
	}
	if p.kw("default", "values") {
		s.defaults = true
	} else {
		st := p.withStmt()
		sel, ok := st.(*Select)
		if !ok {
			p.fail("insert source")
		}
		s.src = sel
	}
	if p.kw("on", "conflict") {
		c := &Conflict{}
		if p.op("(") {
			for {
				c.cols = append(c.cols, p.ident())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
			if p.kw("where") {
				c.where = p.expr()
			}
		} else if p.kw("on", "constraint") {
			c.constraint = p.ident()
		}
		p.want("do")
		if p.kw("nothing") {
		} else {
			p.want("update", "set")
			c.doUpdate = true
			c.update = p.setList()
			if p.kw("where") {
				c.updWhere = p.expr()
			}
		}
		s.conflict = c
	}
	s.ret, s.hasRet = p.returning()
	if p.kw("into") {
		s.into = p.intoList()
	}
	return s
}

func (p *parser) setList() []SetItem {
	var out []SetItem
	for {
		var si SetItem
		if p.op("(") {
			for {
				si.cols = append(si.cols, p.ident())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
			si.row = true
		} else {
			c := p.ident()
			if p.op(".") {
				c = p.ident()
			}
			si.cols = []string{c}
		}
		p.wantOp("=")
		if p.kw("default") {
			p.fail("set default unsupported")
		}
		si.e = p.expr()
		out = append(out, si)
		if !p.op(",") {
			return out
		}
	}
}

func (p *parser) update(ctes []CTE) *Update {
	p.want("update")
	p.kw("only")
	u := &Update{ctes: ctes, table: tblName(p.qname())}
	if p.kw("as") {
		u.alias = p.ident()
	} else if t := p.peek(); t.k == tIdent && !reserved[t.s] {
		u.alias = p.ident()
	}
	p.want("set")
	u.sets = p.setList()
	if p.kw("from") {
		for {
			u.from = append(u.from, p.fromItem())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("where") {
		u.where = p.expr()
	}
	u.ret, u.hasRet = p.returning()
	if p.kw("into") {
		u.into = p.intoList()
	}
	return u
}

func (p *parser) delete(ctes []CTE) *Delete {
	p.want("delete", "from")
	p.kw("only")
	d := &Delete{ctes: ctes, table: tblName(p.qname())}
	if p.kw("as") {
		d.alias = p.ident()
	} else if t := p.peek(); t.k == tIdent && !reserved[t.s] {
		d.alias = p.ident()
	}
	if p.kw("using") {
		for {
			d.using = append(d.using, p.fromItem())
			if !p.op(",") {
				break
			}
		}
	}
	if p.kw("where") {
		d.where = p.expr()
	}
	d.ret, d.hasRet = p.returning()
	return d
}

// ---------------------------------------------------------------- expressions

func (p *parser) expr() Expr { return p.orExpr() }
func (p *parser) orExpr() Expr {
	l := p.andExpr()
	for p.kw("or") {
		l = &Bin{op: "or", l: l, r: p.andExpr()}
	}
	return l
}
func (p *parser) andExpr() Expr {
	l := p.notExpr()
	for p.kw("and") {
		l = &Bin{op: "and", l: l, r: p.notExpr()}
	}
	return l
}
func (p *parser) notExpr() Expr {
	if p.isKw("not") && !p.isKw("not", "exists") {
		p.p++
		return &Un{op: "not", e: p.notExpr()}
	}
	if p.kw("not") {
		return &Un{op: "not", e: p.notExpr()}
	}
	return p.isExpr()
}
func (p *parser) isExpr() Expr {
	l := p.cmpExpr()
	for {
		if p.kw("isnull") {
			l = &IsTest{e: l, what: "null"}
			continue
		}
		if p.kw("notnull") {
			l = &IsTest{e: l, what: "null", not: true}
			continue
		}
		if !p.kw("is") {
			return l
		}
		not := p.kw("not")
		switch {
		case p.kw("null"):
			l = &IsTest{e: l, what: "null", not: not}
		case p.kw("true"):
			l = &IsTest{e: l, what: "true", not: not}
		case p.kw("false"):
			l = &IsTest{e: l, what: "false", not: not}
		case p.kw("unknown"):
			l = &IsTest{e: l, what: "null", not: not}
		case p.kw("distinct", "from"):
			l = &IsDistinct{l: l, r: p.cmpExpr(), not: not}
		default:
			p.fail("is what?")
		}
	}
}
func (p *parser) cmpExpr() Expr {
	l := p.inExpr()
	for {
		t := p.peek()
		if t.k != tOp {
			return l
		}
		switch t.s {
		case "=", "<", ">", "<=", ">=", "<>", "!=":
		default:
			return l
		}
		p.p++
		op := t.s
		if op == "!=" {
			op = "<>"
		}
		if p.isKw("any") || p.isKw("some") || p.isKw("all") {
			a := &AnyOp{op: op, e: l, all: p.isKw("all")}
			p.p++
			p.wantOp("(")
			if p.isKw("select") || p.isKw("with") || p.isKw("values") {
				a.sub = p.withStmt().(*Select)
			} else {
				a.arr = p.expr()
			}
			p.wantOp(")")
			l = a
			continue
		}
		l = &Bin{op: op, l: l, r: p.inExpr()}
	}
}
func (p *parser) inExpr() Expr {
	l := p.otherExpr()
	for {
		save := p.p
		not := p.kw("not")
		switch {
		case p.kw("in"):
			p.wantOp("(")
			n := &InList{e: l, not: not}
			if p.isKw("select") || p.isKw("with") || p.isKw("values") {
				n.sub = p.withStmt().(*Select)
			} else {
				for {
					n.list = append(n.list, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.wantOp(")")
			l = n
		case p.kw("between"):
			p.kw("symmetric")
			b := &Between{e: l, not: not}
			b.lo = p.otherExpr()
			p.want("and")
			b.hi = p.otherExpr()
			l = b
		case p.isKw("like") || p.isKw("ilike"):
			i := p.next().s == "ilike"
			l = &Like{e: l, pat: p.otherExpr(), not: not, i: i}
			if p.kw("escape") {
				p.next()
			}
		default:
			p.p = save
			return l
		}
	}
}
func (p *parser) otherExpr() Expr {
	l := p.addExpr()
	for {
		t := p.peek()
		if t.k != tOp {
			return l
		}
		switch t.s {
		case "||", "->", "->>", "#>", "#>>", "@>", "<@", "?", "?|", "?&", "&&", "~", "~*", "!~", "!~*":
			p.p++
			l = &Bin{op: t.s, l: l, r: p.addExpr()}
		default:
			return l
		}
	}
}
func (p *parser) addExpr() Expr {
	l := p.mulExpr()
	for p.isOp("+") || p.isOp("-") {
		op := p.next().s
		l = &Bin{op: op, l: l, r: p.mulExpr()}
	}
	return l
}
func (p *parser) mulExpr() Expr {
	l := p.powExpr()
	for p.isOp("*") || p.isOp("/") || p.isOp("%") {
		op := p.next().s
		l = &Bin{op: op, l: l, r: p.powExpr()}
	}
	return l
}
func (p *parser) powExpr() Expr {
	l := p.unary()
	for p.isOp("^") {
		p.p++
		l = &Bin{op: "^", l: l, r: p.unary()}
	}
	return l
}
func (p *parser) unary() Expr {
	if p.op("-") {
		return &Un{op: "-", e: p.unary()}
	}
	if p.op("+") {
		return p.unary()
	}
	return p.postfix()
}
func (p *parser) postfix() Expr {
	e := p.primary()
	for {
		switch {
		case p.op("::"):
			e = &Cast{e: e, typ: p.typ()}
		case p.op("["):
			i := p.expr()
			p.wantOp("]")
			e = &Index{e: e, i: i}
		case p.isKw("at", "time", "zone"):
			p.p += 3
			z := p.primary()
			e = &Func{name: "timezone", args: []Expr{z, e}}
		case p.isKw("collate"):
			p.p++
			p.ident()
		default:
			return e
		}
	}
}

var typeNames = map[string]string{"text": "text", "varchar": "varchar", "char": "bpchar", "bpchar": "bpchar", "int": "int4", "integer": "int4", "int4": "int4", "int8": "int8", "bigint": "int8", "smallint": "int4", "int2": "int4", "numeric": "numeric", "decimal": "numeric", "float": "float8", "float8": "float8", "real": "float8", "float4": "float8", "boolean": "bool", "bool": "bool", "timestamp": "timestamp", "timestamptz": "timestamptz", "date": "date", "time": "time", "jsonb": "jsonb", "json": "jsonb", "inet": "inet", "interval": "interval", "bytea": "bytea", "uuid": "uuid", "trigger": "trigger", "void": "void", "record": "record", "double": "float8", "character": "bpchar", "serial": "int4", "bigserial": "int8", "name": "text", "oid": "int8", "regclass": "text"}

func (p *parser) typ() Type {
	n := p.ident()
	if n == "pg_catalog" && p.op(".") {
		n = p.ident()
	}
	c, ok := typeNames[n]
	if !ok {
		p.fail("unknown type %q", n)
	}
	t := Type{name: c}
	if n == "double" {
		p.kw("precision")
	}
	if n == "character" && p.kw("varying") {
		t.name = "varchar"
	}
	if n == "char" || n == "character" {
		t.n = 1
	}
	if p.op("(") {
		a, _ := strconv.Atoi(p.next().s)
		t.n = a
		if p.op(",") {
			b, _ := strconv.Atoi(p.next().s)
			t.p = b
		}
		p.wantOp(")")
	}
	if c == "timestamp" || c == "time" {
		if p.kw("with", "time", "zone") {
			t.name = "timestamptz"
		} else {
			p.kw("without", "time", "zone")
		}
	}
	for p.isOp("[") {
		p.p++
		p.wantOp("]")
		t.arr = true
	}
	return t
}

func numLit(s string) Expr {
	if !strings.ContainsAny(s, ".eE") {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			return &Lit{v}
		}
	}
	d, err := parseNum(s)
	if err != nil {
		panic(parseError{"bad number " + s})
	}
	return &Lit{d}
}

func (p *parser) primary() Expr {
	t := p.peek()
	switch t.k {
	case tNum:
		p.p++
		return numLit(t.s)
	case tStr:
		p.p++
		return &Lit{Unk(t.s)}
	case tParam:
		p.p++
		n, _ := strconv.Atoi(t.s)
		return &Param{n}
	case tOp:
		if t.s == "(" {
			p.p++
			if p.isKw("select") || p.isKw("with") || p.isKw("values") {
				s := p.withStmt().(*Select)
				p.wantOp(")")
				return &SubQ{s}
			}
			e := p.expr()
			if p.op(",") {
				r := &RowExpr{items: []Expr{e}}
				for {
					r.items = append(r.items, p.expr())
					if !p.op(",") {
						break
					}
				}
				p.wantOp(")")
				return r
			}
			p.wantOp(")")
			return e
		}
		p.fail("unexpected %q", t.s)
	case tQuoted:
		return p.colRef()
	case tEOF:
		p.fail("unexpected end")
	}
	switch t.s {
	case "null":
		p.p++
		return &Lit{nil}
	case "true":
		p.p++
		return &Lit{true}
	case "false":
		p.p++
		return &Lit{false}
	case "case":
		p.p++
		c := &Case{}
		if !p.isKw("when") {
			c.operand = p.expr()
		}
		for p.kw("when") {
			w := When{c: p.expr()}
			p.want("then")
			w.r = p.expr()
			c.whens = append(c.whens, w)
		}
		if p.kw("else") {
			c.els = p.expr()
		}
		p.want("end")
		return c
	case "exists":
		p.p++
		p.wantOp("(")
		s := p.withStmt().(*Select)
		p.wantOp(")")
		return &Exists{s}
	case "cast":
		p.p++
		p.wantOp("(")
		e := p.expr()
		p.want("as")
		ty := p.typ()
		p.wantOp(")")
		return &Cast{e: e, typ: ty}
	case "extract":
		if p.at(1).s == "(" {
			p.p += 2
			f := p.next().s
			p.want("from")
			e := p.expr()
			p.wantOp(")")
			return &Func{name: "extract", args: []Expr{&Lit{f}, e}}
		}
	case "position":
		if p.at(1).s == "(" {
			p.p += 2
			a := p.addExpr()
			p.want("in")
			b := p.expr()
			p.wantOp(")")
			return &Func{name: "strpos", args: []Expr{b, a}}
		}
	case "substring":
		if p.at(1).s == "(" {
			p.p += 2
			f := &Func{name: "substring", args: []Expr{p.expr()}}
			for p.op(",") || p.kw("from") || p.kw("for") {
				f.args = append(f.args, p.expr())
			}
			p.wantOp(")")
			return f
		}
	case "array":
		if p.at(1).s == "[" {
			p.p += 2
			a := &ArrayLit{}
			if !p.isOp("]") {
				for {
					a.items = append(a.items, p.expr())
					if !p.op(",") {
						break
					}
				}
			}
			p.wantOp("]")
			return a
		}
		if p.at(1).s == "(" {
			p.p += 2
			s := p.withStmt().(*Select)
			p.wantOp(")")
			return &Func{name: "array_sub", args: []Expr{&SubQ{s}}}
		}
	case "interval":
		if p.at(1).k == tStr {
			p.p++
			s := p.next().s
			return &Cast{e: &Lit{Unk(s)}, typ: Type{name: "interval"}}
		}
	case "timestamp", "date", "timestamptz":
		if p.at(1).k == tStr {
			ty := p.typ()
			s := p.next().s
			return &Cast{e: &Lit{Unk(s)}, typ: ty}
		}
	case "current_timestamp", "current_date", "localtimestamp":
		p.p++
		if p.op("(") {
			p.next()
			p.wantOp(")")
		}
		return &Func{name: t.s}
	case "row":
		if p.at(1).s == "(" {
			p.p += 2
			r := &RowExpr{}
			for !p.isOp(")") {
				r.items = append(r.items, p.expr())
				if !p.op(",") {
					break
				}
			}
			p.wantOp(")")
			return r
		}
	}
	if p.at(1).k == tOp && p.at(1).s == "(" && !reserved[t.s] {
		name := p.ident()
		return p.funcCall(name)
	}
	if p.at(1).k == tOp && p.at(1).s == "." && p.at(3).k == tOp && p.at(3).s == "(" {
		p.p += 2
		name := p.ident()
		return p.funcCall(name)
	}
	if t.s == "left" || t.s == "right" {
		if p.at(1).k == tOp && p.at(1).s == "(" {
			return p.funcCall(p.ident())
		}
	}
	if reserved[t.s] {
		p.fail("unexpected keyword %q", t.s)
	}
	return p.colRef()
}

func (p *parser) colRef() Expr {
	a := p.ident()
	if p.op(".") {
		b := p.ident()
		if p.op(".") {
			return &Col{tbl: b, name: p.ident()}
		}
		return &Col{tbl: a, name: b}
	}
	return &Col{name: a}
}

func (p *parser) funcCall(name string) Expr {
	p.wantOp("(")
	f := &Func{name: name}
	if p.op("*") {
		f.star = true
	} else if !p.isOp(")") {
		f.distinct = p.kw("distinct")
		for {
			f.args = append(f.args, p.expr())
			if !p.op(",") {
				break
			}
		}
		if p.kw("order", "by") {
			f.order = p.orderList()
		}
	}
	p.wantOp(")")
	if p.kw("filter") {
		p.wantOp("(")
		p.want("where")
		f.filter = p.expr()
		p.wantOp(")")
	}
	if p.kw("over") {
		w := &Window{}
		p.wantOp("(")
		if p.kw("partition", "by") {
			for {
				w.partition = append(w.partition, p.expr())
				if !p.op(",") {
					break
				}
			}
		}
		if p.kw("order", "by") {
			w.order = p.orderList()
		}
		p.wantOp(")")
		f.over = w
	}
	return f
}

// ---------------------------------------------------------------- DDL

func (p *parser) create() any {
	p.want("create")
	orReplace := p.kw("or", "replace")
	_ = orReplace
	unique := p.kw("unique")
	switch {
	case p.kw("schema"):
		p.kw("if", "not", "exists")
		p.ident()
		return &NoopStmt{"create schema"}
	case p.kw("extension"):
		for p.peek().k != tEOF && !p.isOp(";") {
			p.p++
		}
		return &NoopStmt{"create extension"}
	case p.kw("table"):
		return p.createTable()
	case p.kw("index"):
		return p.createIndex(unique)
	case p.kw("function"):
		return p.createFunction()
	case p.kw("trigger"):
		return p.createTrigger()
	}
	p.fail("unsupported create")
	return nil
}

func (p *parser) createTable() *CreateTable {
	c := &CreateTable{}
	c.ifNotExists = p.kw("if", "not", "exists")
	c.name = tblName(p.qname())
	p.wantOp("(")
	for {
		if con, ok := p.tblConstraint(); ok {
			c.cons = append(c.cons, con)
		} else {
			c.cols = append(c.cols, p.colDef())
		}
		if !p.op(",") {
			break
		}
	}
	p.wantOp(")")
	return c
}

func (p *parser) identList() []string {
	var out []string
	p.wantOp("(")
	for {
		out = append(out, p.ident())
		if !p.op(",") {
			break
		}
	}
	p.wantOp(")")
	return out
}

func (p *parser) tblConstraint() (TblConstraint, bool) {
	var c TblConstraint
	named := false
	if p.kw("constraint") {
		c.name = p.ident()
		named = true
	}
	switch {
	case p.kw("primary", "key"):
		c.kind = "pk"
		c.cols = p.identList()
	case p.isKw("unique") && p.at(1).s == "(":
		p.p++
		c.kind = "unique"
		c.cols = p.identList()
	case p.isKw("check") && p.at(1).s == "(":
		p.p++
		c.kind = "check"
		p.wantOp("(")
		c.check = p.expr()
		p.wantOp(")")
	case p.kw("foreign", "key"):
		c.kind = "fk"
		cols := p.identList()
		c.fk = p.references()
		c.fk.cols = cols
		c.fk.name = c.name
	default:
		if named {
			p.fail("constraint")
		}
		return c, false
	}
	return c, true
}

func (p *parser) references() *FKDef {
	p.want("references")
	f := &FKDef{refTbl: tblName(p.qname())}
	if p.isOp("(") {
		f.refCols = p.identList()
	}
	for p.kw("on") {
		del := p.kw("delete")
		if !del {
			p.want("update")
		}
		switch {
		case p.kw("cascade"):
			if del {
				f.cascade = true
			}
		case p.kw("set", "null"), p.kw("restrict"), p.kw("no", "action"), p.kw("set", "default"):
		}
	}
	return f
}

func (p *parser) colDef() ColDef {
	c := ColDef{name: p.ident()}
	if p.isKw("serial") || p.isKw("bigserial") {
		c.serial = true
		c.notNull = true
	}
	c.typ = p.typ()
	for {
		if p.kw("constraint") {
			p.ident()
			continue
		}
		switch {
		case p.kw("not", "null"):
			c.notNull = true
		case p.kw("null"):
		case p.kw("primary", "key"):
			c.pk = true
			c.notNull = true
		case p.kw("unique"):
			c.unique = true
		case p.kw("default"):
			c.def = p.otherExpr()
		case p.isKw("references"):
			c.ref = p.references()
			c.ref.cols = []string{c.name}
		case p.kw("check"):
			p.wantOp("(")
			c.check = p.expr()
			p.wantOp(")")
		default:
			return c
		}
	}
}

func (p *parser) createIndex(unique bool) *CreateIndex {
	c := &CreateIndex{unique: unique}
	p.kw("concurrently")
	c.ifNotExists = p.kw("if", "not", "exists")
	if !p.isKw("on") {
		c.name = tblName(p.qname())
	}
	p.want("on")
	c.table = tblName(p.qname())
	if p.kw("using") {
		p.ident()
	}
	p.wantOp("(")
	for {
		c.exprs = append(c.exprs, p.otherExpr())
		for p.peek().k == tIdent {
			p.p++ // asc, desc, opclass
		}
		if !p.op(",") {
			break
		}
	}
	p.wantOp(")")
	if p.kw("include") {
		p.identList()
	}
	if p.kw("where") {
		c.where = p.expr()
	}
	return c
}

func (p *parser) createFunction() *CreateFunc {
	c := &CreateFunc{}
	c.name = tblName(p.qname())
	p.wantOp("(")
	for !p.isOp(")") {
		d := ColDef{name: p.ident()}
		d.typ = p.typ()
		if p.kw("default") || p.op("=") {
			d.def = p.expr()
		}
		c.params = append(c.params, d)
		if !p.op(",") {
			break
		}
	}
	p.wantOp(")")
	for p.peek().k != tEOF && !p.isOp(";") {
		switch {
		case p.kw("returns"):
			if p.kw("table") {
				c.rettype = "table"
				depth := 0
				for {
					t := p.next()
					if t.k == tOp && t.s == "(" {
						depth++
					}
					if t.k == tOp && t.s == ")" {
						depth--
						if depth == 0 {
							break
						}
					}
				}
			} else {
				p.kw("setof")
				c.rettype = p.typ().name
			}
		case p.kw("language"):
			c.lang = strings.ToLower(p.next().s)
		case p.kw("as"):
			c.body = p.next().s
		case p.kw("immutable"), p.kw("strict"), p.kw("stable"), p.kw("volatile"), p.kw("security"), p.kw("definer"), p.kw("invoker"), p.kw("parallel"), p.kw("safe"):
		default:
			p.fail("function option")
		}
	}
	return c
}

func (p *parser) createTrigger() *CreateTrigger {
	c := &CreateTrigger{name: p.ident()}
	if p.kw("before") {
		c.before = true
	} else {
		p.want("after")
	}
	for {
		ev := p.ident()
		c.events = append(c.events, ev)
		if ev == "update" && p.kw("of") {
			p.fail("update of")
		}
		if !p.kw("or") {
			break
		}
	}
	p.want("on")
	c.table = tblName(p.qname())
	p.want("for")
	p.kw("each")
	p.want("row")
	if p.kw("when") {
		p.wantOp("(")
		c.when = p.expr()
		p.wantOp(")")
	}
	p.want("execute")
	if !p.kw("function") {
		p.want("procedure")
	}
	c.fn = tblName(p.qname())
	p.wantOp("(")
	p.wantOp(")")
	return c
}

func (p *parser) alterTable() *AlterTable {
	p.want("alter", "table")
	p.kw("if", "exists")
	p.kw("only")
	a := &AlterTable{name: tblName(p.qname())}
	for {
		var x AlterAction
		switch {
		case p.kw("add"):
			if con, ok := p.tblConstraint(); ok {
				x.kind = "add_con"
				x.con = con
				break
			}
			p.kw("column")
			x.ifx = p.kw("if", "not", "exists")
			x.kind = "add_col"
			x.col = p.colDef()
		case p.kw("drop"):
			if p.kw("constraint") {
				x.kind = "drop_con"
				x.ifx = p.kw("if", "exists")
				x.name = p.ident()
			} else {
				p.kw("column")
				x.kind = "drop_col"
				x.ifx = p.kw("if", "exists")
				x.name = p.ident()
			}
			p.kw("cascade")
		case p.kw("alter"):
			p.kw("column")
			x.name = p.ident()
			switch {
			case p.kw("type"), p.kw("set", "data", "type"):
				x.kind = "alter_type"
				x.col.typ = p.typ()
				if p.kw("using") {
					x.e = p.expr()
				}
			case p.kw("set", "default"):
				x.kind = "set_default"
				x.e = p.expr()
			case p.kw("drop", "default"):
				x.kind = "drop_default"
			case p.kw("set", "not", "null"):
				x.kind = "set_nn"
			case p.kw("drop", "not", "null"):
				x.kind = "drop_nn"
			default:
				p.fail("alter column")
			}
		default:
			p.fail("alter action")
		}
		a.actions = append(a.actions, x)
		if !p.op(",") {
			break
		}
	}
	return a
}

func (p *parser) drop() *Drop {
	p.want("drop")
	d := &Drop{kind: p.ident()}
	p.kw("concurrently")
	d.ifExists = p.kw("if", "exists")
	d.name = tblName(p.qname())
	if d.kind == "trigger" {
		p.want("on")
		d.table = tblName(p.qname())
	}
	if d.kind == "function" && p.op("(") {
		for !p.op(")") {
			p.p++
		}
	}
	p.kw("cascade")
	return d
}
