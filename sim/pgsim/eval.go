package pgsim

import (
	"encoding/json"
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/shopspring/decimal"
)

type binding struct {
	alias string
	cols  []string
	row   []any
	ref   *Row
	tbl   *Table
	star  bool
}
type env struct {
	up   *env
	x    *exec
	b    []*binding
	aggs map[*Func]any
}

type exec struct {
	eng    *Engine
	tx     *Tx
	params []any
	snap   int64
	ctes   []*cteRes
	vars   *plVars
	depth  int
}
type cteRes struct {
	name string
	res  *Result
}

func (en *env) resolve(c *Col) error {
	if c.cached {
		return nil
	}
	up := 0
	for e := en; e != nil; e = e.up {
		for bi, b := range e.b {
			if c.tbl != "" && b.alias != c.tbl {
				continue
			}
			for ci, n := range b.cols {
				if n == c.name {
					c.cached, c.up, c.bi, c.ci = true, up, bi, ci
					return nil
				}
			}
		}
		up++
	}
	if en.x.vars != nil && c.tbl == "" && en.x.vars.has(c.name) {
		c.cached, c.isVar = true, true
		return nil
	}
	if c.tbl != "" {
		return pgErr("42703", "column %s.%s does not exist", c.tbl, c.name)
	}
	// whole-row reference: row_to_json(NEW)
	for e := en; e != nil; e = e.up {
		for _, b := range e.b {
			if b.alias == c.name {
				return errWholeRow
			}
		}
	}
	return pgErr("42703", "column %q does not exist", c.name)
}

var errWholeRow = fmt.Errorf("whole row reference")

func (en *env) col(c *Col) (any, error) {
	if err := en.resolve(c); err != nil {
		return nil, err
	}
	if c.isVar {
		return en.x.vars.get(c.name), nil
	}
	e := en
	for i := 0; i < c.up; i++ {
		e = e.up
	}
	b := e.b[c.bi]
	if b.row == nil {
		return nil, nil
	}
	return b.row[c.ci], nil
}

func truth(v any) (b, null bool, err error) {
	switch x := v.(type) {
	case nil:
		return false, true, nil
	case bool:
		return x, false, nil
	case Unk:
		r, err := coerce(v, Type{name: "bool"})
		if err != nil {
			return false, false, err
		}
		return r.(bool), false, nil
	}
	return false, false, pgErr("42804", "argument must be type boolean, not %T", v)
}

func (en *env) evalAll(es []Expr) ([]any, error) {
	out := make([]any, len(es))
	for i, e := range es {
		v, err := en.eval(e)
		if err != nil {
			return nil, err
		}
		out[i] = v
	}
	return out, nil
}

func (en *env) eval(e Expr) (any, error) {
	switch x := e.(type) {
	case *Lit:
		return x.v, nil
	case *Param:
		if x.n < 1 || x.n > len(en.x.params) {
			return nil, pgErr("42P02", "there is no parameter $%d", x.n)
		}
		return en.x.params[x.n-1], nil
	case *Col:
		return en.col(x)
	case *Bin:
		return en.bin(x)
	case *Un:
		v, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		if x.op == "not" {
			b, null, err := truth(v)
			if err != nil || null {
				return nil, err
			}
			return !b, nil
		}
		switch n := v.(type) {
		case nil:
			return nil, nil
		case int64:
			return -n, nil
		case float64:
			return -n, nil
		case Num:
			return Num{n.d.Neg()}, nil
		case Unk:
			d, err := parseNum(string(n))
			if err != nil {
				return nil, err
			}
			return Num{d.d.Neg()}, nil
		case Ival:
			return Ival{-n.months, -n.days, -n.d}, nil
		}
		return nil, pgErr("42883", "operator does not exist: - %T", v)
	case *Func:
		return en.fn(x)
	case *Case:
		var op any
		if x.operand != nil {
			v, err := en.eval(x.operand)
			if err != nil {
				return nil, err
			}
			op = v
		}
		for _, w := range x.whens {
			c, err := en.eval(w.c)
			if err != nil {
				return nil, err
			}
			ok := false
			if x.operand != nil {
				if op != nil && c != nil {
					r, err := compare(op, c)
					if err != nil {
						return nil, err
					}
					ok = r == 0
				}
			} else {
				b, null, err := truth(c)
				if err != nil {
					return nil, err
				}
				ok = b && !null
			}
			if ok {
				return en.eval(w.r)
			}
		}
		if x.els != nil {
			return en.eval(x.els)
		}
		return nil, nil
	case *Cast:
		v, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		return coerce(v, x.typ)
	case *InList:
		v, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		var items []any
		if x.sub != nil {
			r, err := en.sub(x.sub)
			if err != nil {
				return nil, err
			}
			for _, row := range r.Rows {
				items = append(items, row[0])
			}
		} else if re, ok := x.e.(*RowExpr); ok {
			_ = re
			return nil, unsup("row IN")
		} else {
			items, err = en.evalAll(x.list)
			if err != nil {
				return nil, err
			}
		}
		r, err := inItems(v, "=", items, false)
		if err != nil || r == nil {
			return nil, err
		}
		return r.(bool) != x.not, nil
	case *AnyOp:
		v, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		var items []any
		if x.sub != nil {
			r, err := en.sub(x.sub)
			if err != nil {
				return nil, err
			}
			for _, row := range r.Rows {
				items = append(items, row[0])
			}
		} else {
			a, err := en.eval(x.arr)
			if err != nil || a == nil {
				return nil, err
			}
			et := Type{name: "text", arr: true}
			if t, ok := typeOfVal(v); ok {
				et = Type{name: t.name, arr: true}
			}
			if _, isArr := a.(Arr); !isArr {
				a, err = coerce(a, et)
				if err != nil {
					return nil, err
				}
			}
			items = a.(Arr)
		}
		return inItems(v, x.op, items, x.all)
	case *Between:
		vs, err := en.evalAll([]Expr{x.e, x.lo, x.hi})
		if err != nil {
			return nil, err
		}
		if vs[0] == nil || vs[1] == nil || vs[2] == nil {
			return nil, nil
		}
		a, err := compare(vs[0], vs[1])
		if err != nil {
			return nil, err
		}
		b, err := compare(vs[0], vs[2])
		if err != nil {
			return nil, err
		}
		return (a >= 0 && b <= 0) != x.not, nil
	case *IsTest:
		v, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		var r bool
		switch x.what {
		case "null":
			r = v == nil
		case "true":
			r = v == true
		case "false":
			r = v == false
		}
		return r != x.not, nil
	case *IsDistinct:
		a, err := en.eval(x.l)
		if err != nil {
			return nil, err
		}
		b, err := en.eval(x.r)
		if err != nil {
			return nil, err
		}
		var d bool
		if a == nil || b == nil {
			d = (a == nil) != (b == nil)
		} else {
			c, err := compare(a, b)
			if err != nil {
				return nil, err
			}
			d = c != 0
		}
		return d != x.not, nil
	case *Like:
		a, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		b, err := en.eval(x.pat)
		if err != nil {
			return nil, err
		}
		if a == nil || b == nil {
			return nil, nil
		}
		return likeMatch(textOf(a), textOf(b), x.i) != x.not, nil
	case *Exists:
		r, err := en.sub(x.sub)
		if err != nil {
			return nil, err
		}
		return len(r.Rows) > 0, nil
	case *SubQ:
		r, err := en.sub(x.sub)
		if err != nil {
			return nil, err
		}
		if len(r.Rows) > 1 {
			return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
		}
		if len(r.Rows) == 0 {
			return nil, nil
		}
		return r.Rows[0][0], nil
	case *ArrayLit:
		vs, err := en.evalAll(x.items)
		if err != nil {
			return nil, err
		}
		for i := range vs {
			if u, ok := vs[i].(Unk); ok {
				vs[i] = string(u)
			}
		}
		return Arr(vs), nil
	case *RowExpr:
		vs, err := en.evalAll(x.items)
		return Arr(vs), err
	case *Index:
		a, err := en.eval(x.e)
		if err != nil {
			return nil, err
		}
		i, err := en.eval(x.i)
		if err != nil {
			return nil, err
		}
		arr, ok := a.(Arr)
		n, ok2 := i.(int64)
		if !ok || !ok2 || n < 1 || int(n) > len(arr) {
			return nil, nil
		}
		return arr[n-1], nil
	case *Star:
		return nil, unsup("* in expression")
	}
	return nil, unsup("expression %T", e)
}

func cmpOp(op string, c int) bool {
	switch op {
	case "=":
		return c == 0
	case "<>":
		return c != 0
	case "<":
		return c < 0
	case ">":
		return c > 0
	case "<=":
		return c <= 0
	}
	return c >= 0
}

func inItems(v any, op string, items []any, all bool) (any, error) {
	if len(items) == 0 {
		return all, nil
	}
	if v == nil {
		return nil, nil
	}
	null := false
	for _, it := range items {
		if it == nil {
			null = true
			continue
		}
		c, err := compare(v, it)
		if err != nil {
			return nil, err
		}
		if ok := cmpOp(op, c); ok && !all {
			return true, nil
		} else if !ok && all {
			return false, nil
		}
	}
	if null {
		return nil, nil
	}
	return all, nil
}

var likeCache = map[string]*regexp.Regexp{}

func likeMatch(s, pat string, ci bool) bool {
	k := pat
	if ci {
		k = "\x00i" + pat
	}
	re := likeCache[k]
	if re == nil {
		var b strings.Builder
		b.WriteString("(?s)")
		if ci {
			b.WriteString("(?i)")
		}
		b.WriteByte('^')
		for i := 0; i < len(pat); i++ {
			switch pat[i] {
			case '%':
				b.WriteString(".*")
			case '_':
				b.WriteByte('.')
			case '\\':
				if i+1 < len(pat) {
					i++
					b.WriteString(regexp.QuoteMeta(string(pat[i])))
				}
			default:
				j := i
				for j < len(pat) && pat[j] != '%' && pat[j] != '_' && pat[j] != '\\' {
					j++
				}
				b.WriteString(regexp.QuoteMeta(pat[i:j]))
				i = j - 1
			}
		}
		b.WriteByte('$')
		re = regexp.MustCompile(b.String())
		likeCache[k] = re
	}
	return re.MatchString(s)
}

func (en *env) bin(x *Bin) (any, error) {
	l, err := en.eval(x.l)
	if err != nil {
		return nil, err
	}
	if x.op == "and" || x.op == "or" {
		lb, ln, err := truth(l)
		if err != nil {
			return nil, err
		}
		if x.op == "and" && !ln && !lb {
			return false, nil
		}
		if x.op == "or" && !ln && lb {
			return true, nil
		}
		r, err := en.eval(x.r)
		if err != nil {
			return nil, err
		}
		rb, rn, err := truth(r)
		if err != nil {
			return nil, err
		}
		if x.op == "and" {
			if !rn && !rb {
				return false, nil
			}
			if ln || rn {
				return nil, nil
			}
			return true, nil
		}
		if !rn && rb {
			return true, nil
		}
		if ln || rn {
			return nil, nil
		}
		return false, nil
	}
	r, err := en.eval(x.r)
	if err != nil {
		return nil, err
	}
	if l == nil || r == nil {
		return nil, nil
	}
	switch x.op {
	case "=", "<>", "<", ">", "<=", ">=":
		c, err := compare(l, r)
		if err != nil {
			return nil, err
		}
		return cmpOp(x.op, c), nil
	case "||":
		_, lj := l.(Json)
		_, rj := r.(Json)
		if lj || rj {
			a, err := coerce(l, Type{name: "jsonb"})
			if err != nil {
				return nil, err
			}
			b, err := coerce(r, Type{name: "jsonb"})
			if err != nil {
				return nil, err
			}
			return jsonConcat(a.(Json), b.(Json))
		}
		if la, ok := l.(Arr); ok {
			if ra, ok := r.(Arr); ok {
				return append(append(Arr{}, la...), ra...), nil
			}
			return append(append(Arr{}, la...), r), nil
		}
		return textOf(l) + textOf(r), nil
	case "->", "->>":
		j, err := coerce(l, Type{name: "jsonb"})
		if err != nil {
			return nil, err
		}
		var v any
		found := false
		switch k := r.(type) {
		case Unk, string:
			if m, ok := j.(Json).v.(map[string]any); ok {
				v, found = m[textOf(k)]
			}
		case int64:
			if a, ok := j.(Json).v.([]any); ok {
				if k < 0 {
					k += int64(len(a))
				}
				if k >= 0 && int(k) < len(a) {
					v, found = a[k], true
				}
			}
		}
		if !found {
			return nil, nil
		}
		if x.op == "->" {
			return Json{v}, nil
		}
		return jsonText(v), nil
	case "#>", "#>>":
		j, err := coerce(l, Type{name: "jsonb"})
		if err != nil {
			return nil, err
		}
		p, err := coerce(r, Type{name: "text", arr: true})
		if err != nil {
			return nil, err
		}
		cur := j.(Json).v
		for _, k := range p.(Arr) {
			switch c := cur.(type) {
			case map[string]any:
				v, ok := c[textOf(k)]
				if !ok {
					return nil, nil
				}
				cur = v
			case []any:
				i, err := strconv.Atoi(textOf(k))
				if err != nil || i < 0 || i >= len(c) {
					return nil, nil
				}
				cur = c[i]
			default:
				return nil, nil
			}
		}
		if x.op == "#>" {
			return Json{cur}, nil
		}
		return jsonText(cur), nil
	case "?":
		j, err := coerce(l, Type{name: "jsonb"})
		if err != nil {
			return nil, err
		}
		switch c := j.(Json).v.(type) {
		case map[string]any:
			_, ok := c[textOf(r)]
			return ok, nil
		case []any:
			for _, e := range c {
				if e == textOf(r) {
					return true, nil
				}
			}
		}
		return false, nil
	case "@>", "<@":
		a, b := l, r
		if x.op == "<@" {
			a, b = r, l
		}
		if aa, ok := a.(Arr); ok {
			bb, err := coerce(b, Type{name: "text", arr: true})
			if err != nil {
				return nil, err
			}
			for _, e := range bb.(Arr) {
				f := false
				for _, g := range aa {
					if textOf(g) == textOf(e) {
						f = true
					}
				}
				if !f {
					return false, nil
				}
			}
			return true, nil
		}
		ja, err := coerce(a, Type{name: "jsonb"})
		if err != nil {
			return nil, err
		}
		jb, err := coerce(b, Type{name: "jsonb"})
		if err != nil {
			return nil, err
		}
		return jsonContains(ja.(Json).v, jb.(Json).v), nil
	case "~", "~*", "!~", "!~*":
		p := textOf(r)
		if strings.HasSuffix(x.op, "*") {
			p = "(?i)" + p
		}
		re, err := regexp.Compile(p)
		if err != nil {
			return nil, pgErr("2201B", "invalid regular expression")
		}
		return re.MatchString(textOf(l)) != strings.HasPrefix(x.op, "!"), nil
	case "+", "-", "*", "/", "%", "^":
		return arith(x.op, l, r)
	}
	return nil, unsup("operator %s", x.op)
}

func jsonText(v any) any {
	switch s := v.(type) {
	case nil:
		return nil
	case string:
		return s
	}
	return Json{v}.String()
}

func jsonConcat(a, b Json) (any, error) {
	am, ok1 := a.v.(map[string]any)
	bm, ok2 := b.v.(map[string]any)
	if ok1 && ok2 {
		out := make(map[string]any, len(am)+len(bm))
		for k, v := range am {
			out[k] = v
		}
		for k, v := range bm {
			out[k] = v
		}
		return Json{out}, nil
	}
	toArr := func(v any) []any {
		if x, ok := v.([]any); ok {
			return x
		}
		return []any{v}
	}
	return Json{append(append([]any{}, toArr(a.v)...), toArr(b.v)...)}, nil
}

func jsonContains(a, b any) bool {
	switch y := b.(type) {
	case map[string]any:
		x, ok := a.(map[string]any)
		if !ok {
			return false
		}
		for k, v := range y {
			w, ok := x[k]
			if !ok || !jsonContains(w, v) {
				return false
			}
		}
		return true
	case []any:
		x, ok := a.([]any)
		if !ok {
			return false
		}
		for _, v := range y {
			f := false
			for _, w := range x {
				if jsonContains(w, v) {
					f = true
				}
			}
			if !f {
				return false
			}
		}
		return true
	case json.Number:
		n, ok := a.(json.Number)
		if !ok {
			return false
		}
		p, e1 := parseNum(n.String())
		q, e2 := parseNum(y.String())
		return e1 == nil && e2 == nil && p.d.Equal(q.d)
	}
	if x, ok := a.([]any); ok {
		for _, v := range x {
			if v == b {
				return true
			}
		}
		return false
	}
	return a == b
}

func addIval(t Ts, iv Ival, sign int) Ts {
	k := t.kind
	if k == 'd' {
		k = 's'
	}
	tt := t.t
	if iv.months != 0 || iv.days != 0 {
		tt = tt.AddDate(0, sign*iv.months, sign*iv.days)
	}
	return Ts{tt.Add(time.Duration(sign) * iv.d), k}
}

func arith(op string, l, r any) (any, error) {
	if u, ok := l.(Unk); ok {
		if t, ok := typeOfVal(r); ok {
			if t.name == "interval" && op == "+" {
				t.name = "timestamptz"
			}
			v, err := coerce(u, t)
			if err != nil {
				return nil, err
			}
			l = v
		} else {
			v, err := parseNum(string(u))
			if err != nil {
				return nil, err
			}
			l = v
		}
	}
	if _, ok := l.(Json); ok && op == "-" {
		if u, ok := r.(Unk); ok {
			r = string(u)
		}
	}
	if u, ok := r.(Unk); ok {
		t, ok := typeOfVal(l)
		if !ok {
			return nil, unsup("arith unknown")
		}
		if strings.HasPrefix(t.name, "timestamp") && op == "+" {
			t.name = "interval"
		} else if strings.HasPrefix(t.name, "timestamp") && op == "-" {
			if _, err := parseIval(string(u)); err == nil {
				t.name = "interval"
			}
		}
		v, err := coerce(u, t)
		if err != nil {
			return nil, err
		}
		r = v
	}
	switch a := l.(type) {
	case Ts:
		switch b := r.(type) {
		case Ival:
			if op == "+" {
				return addIval(a, b, 1), nil
			}
			return addIval(a, b, -1), nil
		case Ts:
			if op == "-" {
				d := a.t.Sub(b.t)
				if a.kind == 'd' && b.kind == 'd' {
					return int64(d / (24 * time.Hour)), nil
				}
				return Ival{0, int(d / (24 * time.Hour)), d % (24 * time.Hour)}, nil
			}
		case int64:
			if a.kind == 'd' {
				if op == "-" {
					b = -b
				}
				return Ts{a.t.AddDate(0, 0, int(b)), 'd'}, nil
			}
		}
	case Ival:
		switch b := r.(type) {
		case Ts:
			return addIval(b, a, 1), nil
		case Ival:
			if op == "+" {
				return Ival{a.months + b.months, a.days + b.days, a.d + b.d}, nil
			}
			return Ival{a.months - b.months, a.days - b.days, a.d - b.d}, nil
		case int64, float64, Num:
			f, _ := coerce(b, Type{name: "float8"})
			return Ival{a.months * int(f.(float64)), int(float64(a.days) * f.(float64)), time.Duration(float64(a.d) * f.(float64))}, nil
		}
	case Json:
		if op == "-" {
			switch k := r.(type) {
			case string:
				if m, ok := a.v.(map[string]any); ok {
					out := map[string]any{}
					for kk, v := range m {
						if kk != k {
							out[kk] = v
						}
					}
					return Json{out}, nil
				}
				return a, nil
			case Json: // unknown literal coerced to jsonb
				if s, ok := k.v.(string); ok {
					return arith(op, l, s)
				}
			}
		}
	}
	if b, ok := r.(Ival); ok && op == "*" {
		return arith(op, b, l)
	}
	a, b, err := unify(l, r)
	if err != nil {
		return nil, err
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			break
		}
		switch op {
		case "+":
			s := x + y
			if (s > x) != (y > 0) && y != 0 {
				return nil, pgErr("22003", "bigint out of range")
			}
			return s, nil
		case "-":
			s := x - y
			if (s < x) != (y > 0) && y != 0 {
				return nil, pgErr("22003", "bigint out of range")
			}
			return s, nil
		case "*":
			if x != 0 && (x*y)/x != y {
				return nil, pgErr("22003", "bigint out of range")
			}
			return x * y, nil
		case "/":
			if y == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			return x / y, nil
		case "%":
			if y == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			return x % y, nil
		case "^":
			return math.Pow(float64(x), float64(y)), nil
		}
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case "+":
			return x + y, nil
		case "-":
			return x - y, nil
		case "*":
			return x * y, nil
		case "/":
			if y == 0 {
				return nil, pgErr("22012", "division by zero")
			}
			return x / y, nil
		case "^":
			return math.Pow(x, y), nil
		}
	case Num:
		y, ok := b.(Num)
		if !ok {
			break
		}
		switch op {
		case "+":
			return Num{x.d.Add(y.d)}, nil
		case "-":
			return Num{x.d.Sub(y.d)}, nil
		case "*":
			return Num{x.d.Mul(y.d)}, nil
		case "/":
			if y.d.IsZero() {
				return nil, pgErr("22012", "division by zero")
			}
			return Num{x.d.DivRound(y.d, 16)}, nil
		case "%":
			if y.d.IsZero() {
				return nil, pgErr("22012", "division by zero")
			}
			return Num{x.d.Mod(y.d)}, nil
		case "^":
			return Num{x.d.Pow(y.d)}, nil
		}
	case string:
		if _, ok := b.(string); ok { // both unknown: numbers
			p, e1 := parseNum(x)
			q, e2 := parseNum(b.(string))
			if e1 == nil && e2 == nil {
				return arith(op, p, q)
			}
		}
	}
	return nil, pgErr("42883", "operator does not exist: %T %s %T", l, op, r)
}

func (en *env) sub(s *Select) (*Result, error) {
	return en.x.selectRun(s, en)
}

// whole row → json object
func (en *env) rowJSON(e Expr) (any, bool) {
	c, ok := e.(*Col)
	if !ok || c.tbl != "" {
		return nil, false
	}
	for v := en; v != nil; v = v.up {
		for _, b := range v.b {
			if b.alias == c.name {
				if b.row == nil {
					return nil, true
				}
				m := map[string]any{}
				for i, n := range b.cols {
					if n[0] != 0 {
						m[n] = toJSONVal(b.row[i])
					}
				}
				return Json{m}, true
			}
		}
	}
	return nil, false
}

var aggNames = map[string]bool{"count": true, "sum": true, "max": true, "min": true, "avg": true, "array_agg": true, "string_agg": true, "jsonb_agg": true, "json_agg": true, "bool_or": true, "bool_and": true}
var winNames = map[string]bool{"row_number": true, "rank": true, "dense_rank": true}

func (en *env) now() Ts { return Ts{en.x.tx.start, 'z'} }

func (en *env) fn(f *Func) (any, error) {
	if aggNames[f.name] || f.over != nil {
		for e := en; e != nil; e = e.up {
			if e.aggs != nil {
				if v, ok := e.aggs[f]; ok {
					return v, nil
				}
			}
		}
		return nil, unsup("aggregate %s out of place", f.name)
	}
	switch f.name {
	case "coalesce":
		var typ Type
		have := false
		var res any
		for _, a := range f.args {
			v, err := en.eval(a)
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			if res == nil {
				res = v
			}
			if t, ok := typeOfVal(v); ok && !have {
				typ, have = t, true
			}
			if _, isU := res.(Unk); !isU {
				return res, nil
			}
		}
		if _, isU := res.(Unk); isU && have {
			return coerce(res, typ)
		}
		return res, nil
	case "row_to_json", "to_jsonb", "to_json":
		if v, ok := en.rowJSON(f.args[0]); ok {
			return v, nil
		}
	case "pg_notify", "pg_advisory_xact_lock", "pg_sleep":
		for _, a := range f.args {
			if _, err := en.eval(a); err != nil {
				return nil, err
			}
		}
		return "", nil
	}
	a, err := en.evalAll(f.args)
	if err != nil {
		return nil, err
	}
	arg := func(i int, t string) (any, error) { return coerce(a[i], Type{name: t}) }
	anyNull := func() bool {
		for _, v := range a {
			if v == nil {
				return true
			}
		}
		return false
	}
	switch f.name {
	case "now", "current_timestamp", "transaction_timestamp":
		return en.now(), nil
	case "clock_timestamp", "statement_timestamp":
		return Ts{en.x.eng.Now().UTC().Truncate(time.Microsecond), 'z'}, nil
	case "localtimestamp":
		return Ts{en.x.tx.start, 's'}, nil
	case "current_date":
		return coerce(en.now(), Type{name: "date"})
	case "nullif":
		if a[0] == nil || a[1] == nil {
			return a[0], nil
		}
		c, err := compare(a[0], a[1])
		if err != nil || c == 0 {
			return nil, err
		}
		return a[0], nil
	case "greatest", "least":
		var best any
		for _, v := range a {
			if v == nil {
				continue
			}
			if best == nil {
				best = v
				continue
			}
			c, err := compare(v, best)
			if err != nil {
				return nil, err
			}
			if (f.name == "greatest") == (c > 0) && c != 0 {
				best = v
			}
		}
		return best, nil
	case "concat":
		var b strings.Builder
		for _, v := range a {
			if v != nil {
				b.WriteString(textOf(v))
			}
		}
		return b.String(), nil
	case "jsonb_build_object", "json_build_object":
		m := map[string]any{}
		for i := 0; i+1 < len(a); i += 2 {
			m[textOf(a[i])] = toJSONVal(a[i+1])
		}
		return Json{m}, nil
	case "jsonb_build_array", "json_build_array":
		out := []any{}
		for _, v := range a {
			out = append(out, toJSONVal(v))
		}
		return Json{out}, nil
	case "to_jsonb", "to_json":
		return Json{toJSONVal(a[0])}, nil
	case "inet_client_addr":
		return "127.0.0.1", nil
	case "inet":
		return a[0], nil
	case "pg_backend_pid":
		return int64(1), nil
	case "array_sub":
		r, err := en.sub(f.args[0].(*SubQ).sub)
		if err != nil {
			return nil, err
		}
		out := Arr{}
		for _, row := range r.Rows {
			out = append(out, row[0])
		}
		return out, nil
	}
	if fn, ok := en.x.eng.funcs[f.name]; ok {
		return en.x.callFunc(fn, a)
	}
	if anyNull() {
		if _, known := strictFns[f.name]; known {
			return nil, nil
		}
	}
	switch f.name {
	case "lower":
		return strings.ToLower(textOf(a[0])), nil
	case "upper":
		return strings.ToUpper(textOf(a[0])), nil
	case "length", "char_length":
		return int64(len([]rune(textOf(a[0])))), nil
	case "trim", "btrim":
		return strings.TrimSpace(textOf(a[0])), nil
	case "left":
		n, err := arg(1, "int8")
		if err != nil {
			return nil, err
		}
		r := []rune(textOf(a[0]))
		k := int(n.(int64))
		if k < 0 {
			k = max(0, len(r)+k)
		}
		return string(r[:min(k, len(r))]), nil
	case "replace":
		return strings.ReplaceAll(textOf(a[0]), textOf(a[1]), textOf(a[2])), nil
	case "strpos":
		return int64(strings.Index(textOf(a[0]), textOf(a[1])) + 1), nil
	case "substring", "substr":
		r := []rune(textOf(a[0]))
		s, err := arg(1, "int8")
		if err != nil {
			return nil, err
		}
		st := max(int(s.(int64))-1, 0)
		e := len(r)
		if len(a) > 2 {
			n, err := arg(2, "int8")
			if err != nil {
				return nil, err
			}
			e = min(e, st+int(n.(int64)))
		}
		if st >= e {
			return "", nil
		}
		return string(r[st:e]), nil
	case "split_part":
		n, err := arg(2, "int8")
		if err != nil {
			return nil, err
		}
		ps := strings.Split(textOf(a[0]), textOf(a[1]))
		if int(n.(int64)) > len(ps) || n.(int64) < 1 {
			return "", nil
		}
		return ps[n.(int64)-1], nil
	case "repeat":
		n, err := arg(1, "int8")
		if err != nil {
			return nil, err
		}
		return strings.Repeat(textOf(a[0]), int(n.(int64))), nil
	case "abs":
		switch n := a[0].(type) {
		case int64:
			if n < 0 {
				n = -n
			}
			return n, nil
		case float64:
			return math.Abs(n), nil
		case Num:
			return Num{n.d.Abs()}, nil
		}
	case "round", "floor", "ceil", "ceiling", "trunc":
		v, err := arg(0, "numeric")
		if err != nil {
			return nil, err
		}
		d := v.(Num).d
		var sc int32
		if len(a) > 1 {
			n, err := arg(1, "int8")
			if err != nil {
				return nil, err
			}
			sc = int32(n.(int64))
		}
		switch f.name {
		case "round":
			d = d.Round(sc)
		case "floor":
			d = d.Floor()
		case "trunc":
			d = d.Truncate(sc)
		default:
			d = d.Ceil()
		}
		return Num{d}, nil
	case "power", "pow":
		x, err := arg(0, "float8")
		if err != nil {
			return nil, err
		}
		y, err := arg(1, "float8")
		if err != nil {
			return nil, err
		}
		return math.Pow(x.(float64), y.(float64)), nil
	case "date_trunc":
		v := a[1]
		if _, ok := v.(Unk); ok {
			if v, err = coerce(v, Type{name: "timestamptz"}); err != nil {
				return nil, err
			}
		}
		t, ok := v.(Ts)
		if !ok {
			return nil, pgErr("42883", "date_trunc(%T)", v)
		}
		y, mo, d := t.t.Date()
		h, mi, s := t.t.Clock()
		switch strings.ToLower(textOf(a[0])) {
		case "year":
			mo, d, h, mi, s = 1, 1, 0, 0, 0
		case "month":
			d, h, mi, s = 1, 0, 0, 0
		case "week":
			wd := (int(t.t.Weekday()) + 6) % 7
			d, h, mi, s = d-wd, 0, 0, 0
		case "day":
			h, mi, s = 0, 0, 0
		case "hour":
			mi, s = 0, 0
		case "minute":
			s = 0
		case "second":
		default:
			return nil, unsup("date_trunc %v", a[0])
		}
		k := t.kind
		if k == 'd' {
			k = 'z'
		}
		return Ts{time.Date(y, mo, d, h, mi, s, 0, time.UTC), k}, nil
	case "extract", "date_part":
		v := a[1]
		if iv, ok := v.(Ival); ok {
			if textOf(a[0]) == "epoch" {
				sec := float64(iv.months)*30*86400 + float64(iv.days)*86400 + iv.d.Seconds()
				return parseNum(strconv.FormatFloat(sec, 'f', 6, 64))
			}
			return nil, unsup("extract %v from interval", a[0])
		}
		t, ok := v.(Ts)
		if !ok {
			return nil, pgErr("42883", "extract from %T", v)
		}
		switch strings.ToLower(textOf(a[0])) {
		case "epoch":
			return Num{decimal.New(t.t.UnixMicro(), -6)}, nil
		case "year":
			return int64(t.t.Year()), nil
		case "month":
			return int64(t.t.Month()), nil
		case "day":
			return int64(t.t.Day()), nil
		case "hour":
			return int64(t.t.Hour()), nil
		case "dow":
			return int64(t.t.Weekday()), nil
		}
		return nil, unsup("extract %v", a[0])
	case "timezone":
		if z := strings.ToUpper(textOf(a[0])); z != "UTC" && z != "GMT" {
			return nil, unsup("time zone %s", z)
		}
		t, ok := a[1].(Ts)
		if !ok {
			v, err := coerce(a[1], Type{name: "timestamptz"})
			if err != nil {
				return nil, err
			}
			t = v.(Ts)
		}
		if t.kind == 'z' {
			return Ts{t.t, 's'}, nil
		}
		return Ts{t.t, 'z'}, nil
	case "jsonb_typeof", "json_typeof":
		j, err := arg(0, "jsonb")
		if err != nil {
			return nil, err
		}
		switch j.(Json).v.(type) {
		case nil:
			return "null", nil
		case bool:
			return "boolean", nil
		case json.Number:
			return "number", nil
		case string:
			return "string", nil
		case []any:
			return "array", nil
		}
		return "object", nil
	case "jsonb_set":
		j, err := arg(0, "jsonb")
		if err != nil {
			return nil, err
		}
		p, err := coerce(a[1], Type{name: "text", arr: true})
		if err != nil {
			return nil, err
		}
		v, err := arg(2, "jsonb")
		if err != nil {
			return nil, err
		}
		path := p.(Arr)
		var set func(cur any, i int) any
		set = func(cur any, i int) any {
			if i == len(path) {
				return v.(Json).v
			}
			m, ok := cur.(map[string]any)
			if !ok {
				return cur
			}
			out := map[string]any{}
			for k, e := range m {
				out[k] = e
			}
			k := textOf(path[i])
			if _, ok := m[k]; ok || i == len(path)-1 {
				out[k] = set(m[k], i+1)
			}
			return out
		}
		return Json{set(j.(Json).v, 0)}, nil
	case "jsonb_array_length":
		j, err := arg(0, "jsonb")
		if err != nil {
			return nil, err
		}
		l, ok := j.(Json).v.([]any)
		if !ok {
			return nil, pgErr("22023", "cannot get array length of a non-array")
		}
		return int64(len(l)), nil
	case "cardinality", "array_length":
		if l, ok := a[0].(Arr); ok {
			if len(l) == 0 && f.name == "array_length" {
				return nil, nil
			}
			return int64(len(l)), nil
		}
	case "array_append":
		if l, ok := a[0].(Arr); ok {
			return append(append(Arr{}, l...), a[1]), nil
		}
	case "md5", "encode", "digest", "gen_random_uuid", "to_char", "to_timestamp":
	}
	return nil, unsup("function %s/%d", f.name, len(f.args))
}

var strictFns = map[string]struct{}{"lower": {}, "upper": {}, "length": {}, "char_length": {}, "trim": {}, "btrim": {}, "left": {}, "replace": {}, "strpos": {}, "substring": {}, "substr": {}, "split_part": {}, "repeat": {}, "abs": {}, "round": {}, "floor": {}, "ceil": {}, "ceiling": {}, "trunc": {}, "power": {}, "pow": {}, "date_trunc": {}, "extract": {}, "date_part": {}, "timezone": {}, "jsonb_typeof": {}, "json_typeof": {}, "jsonb_set": {}, "jsonb_array_length": {}, "cardinality": {}, "array_length": {}}
