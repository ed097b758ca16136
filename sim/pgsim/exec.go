package pgsim

import (
	"fmt"
	"sort"
	"strings"
)

type Result struct {
	Cols     []string
	Rows     [][]any
	Affected int64
	Tag      string
}

// ---------------------------------------------------------------- analysis

func walk(e Expr, f func(Expr) bool) {
	if e == nil || !f(e) {
		return
	}
	ws := func(es []Expr) {
		for _, x := range es {
			walk(x, f)
		}
	}
	switch x := e.(type) {
	case *Bin:
		walk(x.l, f)
		walk(x.r, f)
	case *Un:
		walk(x.e, f)
	case *Func:
		ws(x.args)
		if x.filter != nil {
			walk(x.filter, f)
		}
		for _, o := range x.order {
			walk(o.e, f)
		}
		if x.over != nil {
			ws(x.over.partition)
			for _, o := range x.over.order {
				walk(o.e, f)
			}
		}
	case *Case:
		walk(x.operand, f)
		for _, w := range x.whens {
			walk(w.c, f)
			walk(w.r, f)
		}
		walk(x.els, f)
	case *Cast:
		walk(x.e, f)
	case *InList:
		walk(x.e, f)
		ws(x.list)
	case *Between:
		walk(x.e, f)
		walk(x.lo, f)
		walk(x.hi, f)
	case *IsTest:
		walk(x.e, f)
	case *IsDistinct:
		walk(x.l, f)
		walk(x.r, f)
	case *Like:
		walk(x.e, f)
		walk(x.pat, f)
	case *AnyOp:
		walk(x.e, f)
		walk(x.arr, f)
	case *ArrayLit:
		ws(x.items)
	case *RowExpr:
		ws(x.items)
	case *Index:
		walk(x.e, f)
		walk(x.i, f)
	}
}

func conjuncts(e Expr, out []Expr) []Expr {
	if b, ok := e.(*Bin); ok && b.op == "and" {
		return conjuncts(b.r, conjuncts(b.l, out))
	}
	if e != nil {
		out = append(out, e)
	}
	return out
}

func hasSub(e Expr) bool {
	r := false
	walk(e, func(x Expr) bool {
		switch y := x.(type) {
		case *SubQ, *Exists:
			r = true
		case *InList:
			if y.sub != nil {
				r = true
			}
		case *AnyOp:
			if y.sub != nil {
				r = true
			}
		case *Func:
			if aggNames[y.name] {
				r = true
			}
		}
		return !r
	})
	return r
}

func (s *Select) analyse() {
	if s.analysed {
		return
	}
	s.analysed = true
	find := func(e Expr) {
		walk(e, func(x Expr) bool {
			if f, ok := x.(*Func); ok {
				if f.over != nil {
					s.wins = append(s.wins, f)
					return false
				}
				if aggNames[f.name] {
					s.aggs = append(s.aggs, f)
					return false
				}
			}
			return true
		})
	}
	for _, it := range s.items {
		find(it.e)
	}
	find(s.having)
	for _, o := range s.order {
		find(o.e)
	}
	s.conj = conjuncts(s.where, nil)
}

// ---------------------------------------------------------------- from

type leaf struct {
	f    *FromItem
	slot int
	b    *binding
	tbl  *Table
	res  *Result
	plan *scanPlan
}
type scanPlan struct {
	ci    int
	exprs []Expr // = any of
	arr   Expr   // = ANY(arr)
}

type tuple struct {
	rows [][]any
	refs []*Row
}

type joiner struct {
	x      *exec
	en     *env
	leaves map[*FromItem]*leaf
	list   []*leaf
}

func (x *exec) findCTE(name string) *Result {
	for i := len(x.ctes) - 1; i >= 0; i-- {
		if x.ctes[i].name == name {
			return x.ctes[i].res
		}
	}
	return nil
}

func (x *exec) prepFrom(items []*FromItem, up *env) (*joiner, error) {
	j := &joiner{x: x, leaves: map[*FromItem]*leaf{}}
	j.en = &env{up: up, x: x}
	var add func(f *FromItem) error
	add = func(f *FromItem) error {
		if f.join != nil {
			if err := add(f.join.l); err != nil {
				return err
			}
			return add(f.join.r)
		}
		l := &leaf{f: f, slot: len(j.list), b: &binding{alias: f.alias}}
		switch {
		case f.sub != nil:
			if !f.lateral {
				r, err := x.selectRun(f.sub, up)
				if err != nil {
					return err
				}
				l.res = r
				l.b.cols = r.Cols
			} else {
				cols, err := x.outCols(f.sub)
				if err != nil {
					return err
				}
				l.b.cols = cols
			}
			if f.colAliases != nil {
				c := append([]string(nil), l.b.cols...)
				copy(c, f.colAliases)
				l.b.cols = c
			}
		case f.fn != nil:
			if l.b.alias == "" {
				l.b.alias = f.fn.name
			}
			l.b.cols = []string{l.b.alias}
			if f.colAliases != nil {
				l.b.cols = f.colAliases
			} else if fn, ok := x.eng.funcs[f.fn.name]; ok && fn.rettype == "table" {
				return unsup("table function in FROM")
			}
		default:
			if l.b.alias == "" {
				l.b.alias = f.table
			}
			if f.schema == "" {
				if r := x.findCTE(f.table); r != nil {
					l.res = r
					l.b.cols = r.Cols
					if f.colAliases != nil {
						c := append([]string(nil), l.b.cols...)
						copy(c, f.colAliases)
						l.b.cols = c
					}
					break
				}
			}
			t := x.eng.tables[f.table]
			if t == nil {
				return pgErr("42P01", "relation %q does not exist", f.table)
			}
			l.tbl = t
			l.b.tbl = t
			l.b.cols = t.names
		}
		j.leaves[f] = l
		j.list = append(j.list, l)
		j.en.b = append(j.en.b, l.b)
		return nil
	}
	for _, f := range items {
		if err := add(f); err != nil {
			return nil, err
		}
	}
	return j, nil
}

// planLeaf looks for an indexed equality usable for the leaf.
func (j *joiner) planLeaf(l *leaf, conj []Expr) {
	if l.tbl == nil || len(l.tbl.look) == 0 {
		return
	}
	ready := func(e Expr) bool {
		if hasSub(e) {
			return false
		}
		ok := true
		walk(e, func(x Expr) bool {
			if c, is := x.(*Col); is {
				if j.en.resolve(c) != nil {
					ok = false
				} else if !c.isVar && c.up == 0 && c.bi >= l.slot {
					ok = false
				}
			}
			return ok
		})
		return ok
	}
	mine := func(e Expr) (int, bool) {
		c, ok := e.(*Col)
		if !ok || j.en.resolve(c) != nil || c.isVar || c.up != 0 || c.bi != l.slot {
			return 0, false
		}
		_, has := l.tbl.look[c.ci]
		return c.ci, has
	}
	for _, e := range conj {
		switch x := e.(type) {
		case *Bin:
			if x.op != "=" {
				continue
			}
			if ci, ok := mine(x.l); ok && ready(x.r) {
				l.plan = &scanPlan{ci: ci, exprs: []Expr{x.r}}
				return
			}
			if ci, ok := mine(x.r); ok && ready(x.l) {
				l.plan = &scanPlan{ci: ci, exprs: []Expr{x.l}}
				return
			}
		case *InList:
			if x.not || x.sub != nil {
				continue
			}
			if ci, ok := mine(x.e); ok {
				all := true
				for _, y := range x.list {
					all = all && ready(y)
				}
				if all {
					l.plan = &scanPlan{ci: ci, exprs: x.list}
					return
				}
			}
		case *AnyOp:
			if x.all || x.sub != nil || x.op != "=" {
				continue
			}
			if ci, ok := mine(x.e); ok && ready(x.arr) {
				l.plan = &scanPlan{ci: ci, arr: x.arr}
				return
			}
		}
	}
}

func (j *joiner) scanLeaf(l *leaf, cb func() error) error {
	x := j.x
	set := func(row []any, ref *Row) error {
		l.b.row, l.b.ref = row, ref
		return cb()
	}
	switch {
	case l.f.sub != nil && l.f.lateral:
		r, err := x.selectRun(l.f.sub, j.en)
		if err != nil {
			return err
		}
		for _, row := range r.Rows {
			if err := set(row, nil); err != nil {
				return err
			}
		}
		return nil
	case l.f.fn != nil:
		args, err := j.en.evalAll(l.f.fn.args)
		if err != nil {
			return err
		}
		switch l.f.fn.name {
		case "unnest":
			if args[0] == nil {
				return nil
			}
			a, err := coerce(args[0], Type{name: "text", arr: true})
			if arr, ok := args[0].(Arr); ok {
				a, err = arr, nil
			}
			if err != nil {
				return err
			}
			for _, e := range a.(Arr) {
				if err := set([]any{e}, nil); err != nil {
					return err
				}
			}
			return nil
		case "generate_series":
			a, err := coerce(args[0], Type{name: "int8"})
			if err != nil {
				return err
			}
			b, err := coerce(args[1], Type{name: "int8"})
			if err != nil {
				return err
			}
			for i := a.(int64); i <= b.(int64); i++ {
				if err := set([]any{i}, nil); err != nil {
					return err
				}
			}
			return nil
		case "jsonb_array_elements", "jsonb_array_elements_text":
			v, err := coerce(args[0], Type{name: "jsonb"})
			if err != nil || v == nil {
				return err
			}
			arr, _ := v.(Json).v.([]any)
			for _, e := range arr {
				var o any = Json{e}
				if strings.HasSuffix(l.f.fn.name, "text") {
					o = jsonText(e)
				}
				if err := set([]any{o}, nil); err != nil {
					return err
				}
			}
			return nil
		}
		v, err := j.en.eval(l.f.fn)
		if err != nil {
			return err
		}
		return set([]any{v}, nil)
	case l.res != nil:
		for _, row := range l.res.Rows {
			if err := set(row, nil); err != nil {
				return err
			}
		}
		return nil
	}
	rows := l.tbl.rows
	if l.plan != nil {
		var vals []any
		if l.plan.arr != nil {
			a, err := j.en.eval(l.plan.arr)
			if err != nil {
				return err
			}
			if a == nil {
				return nil
			}
			if _, ok := a.(Arr); !ok {
				if a, err = coerce(a, Type{name: "text", arr: true}); err != nil {
					return err
				}
			}
			vals = a.(Arr)
		} else {
			var err error
			if vals, err = j.en.evalAll(l.plan.exprs); err != nil {
				return err
			}
		}
		seen := map[*Row]bool{}
		var cand []*Row
		ct := l.tbl.cols[l.plan.ci].typ
		for _, v := range vals {
			if v == nil {
				continue
			}
			if u, ok := v.(Unk); ok {
				c, err := coerce(u, ct)
				if err != nil {
					return err
				}
				v = c
			}
			for _, r := range l.tbl.look[l.plan.ci][hashKey(v)] {
				if !seen[r] {
					seen[r] = true
					cand = append(cand, r)
				}
			}
		}
		sort.Slice(cand, func(i, k int) bool { return cand[i].id < cand[k].id })
		rows = cand
	}
	for _, r := range rows {
		d := r.visible(x.tx, x.snap)
		if d == nil {
			continue
		}
		if err := set(d, r); err != nil {
			return err
		}
	}
	return nil
}

func (j *joiner) run(f *FromItem, cb func() error) error {
	if f.join == nil {
		return j.scanLeaf(j.leaves[f], cb)
	}
	jn := f.join
	cond := func() (bool, error) {
		if jn.on != nil {
			v, err := j.en.eval(jn.on)
			return v == true, err
		}
		for _, c := range jn.using {
			a, err := j.en.eval(&Col{tbl: j.firstAlias(jn.l), name: c})
			if err != nil {
				return false, err
			}
			b, err := j.en.eval(&Col{tbl: j.firstAlias(jn.r), name: c})
			if err != nil {
				return false, err
			}
			if a == nil || b == nil {
				return false, nil
			}
			if k, err := compare(a, b); err != nil || k != 0 {
				return false, err
			}
		}
		return true, nil
	}
	switch jn.kind {
	case "inner", "cross":
		return j.run(jn.l, func() error {
			return j.run(jn.r, func() error {
				ok, err := cond()
				if err != nil || !ok {
					return err
				}
				return cb()
			})
		})
	case "left":
		return j.run(jn.l, func() error {
			hit := false
			err := j.run(jn.r, func() error {
				ok, err := cond()
				if err != nil || !ok {
					return err
				}
				hit = true
				return cb()
			})
			if err != nil {
				return err
			}
			if !hit {
				j.nullOut(jn.r)
				return cb()
			}
			return nil
		})
	}
	return unsup("%s join", jn.kind)
}
func (j *joiner) firstAlias(f *FromItem) string {
	for f.join != nil {
		f = f.join.l
	}
	return j.leaves[f].b.alias
}
func (j *joiner) nullOut(f *FromItem) {
	if f.join != nil {
		j.nullOut(f.join.l)
		j.nullOut(f.join.r)
		return
	}
	l := j.leaves[f]
	l.b.row = make([]any, len(l.b.cols))
	l.b.ref = nil
}

func onConj(f *FromItem, outerOK bool, out []Expr) []Expr {
	if f.join == nil {
		return out
	}
	if f.join.on != nil && outerOK {
		out = conjuncts(f.join.on, out)
	}
	return onConj(f.join.r, outerOK, onConj(f.join.l, outerOK, out))
}

// tuples runs the FROM clause and the WHERE filter.
func (x *exec) tuples(items []*FromItem, where Expr, conj []Expr, up *env) (*joiner, []tuple, error) {
	j, err := x.prepFrom(items, up)
	if err != nil {
		return nil, nil, err
	}
	cs := conj
	for _, f := range items {
		cs = onConj(f, true, cs)
	}
	// an ON condition of an outer join may only restrict the nullable side; the
	// planner uses it for the leaf it names, whose slot comes later, so this holds
	// for left joins (the left side cannot be restricted: its columns are not "mine"
	// with a ready right side, except constants).
	for _, l := range j.list {
		use := cs
		if !nullableOrInner(items, l.f) {
			use = conj
		}
		j.planLeaf(l, use)
	}
	var out []tuple
	var rec func(i int) error
	rec = func(i int) error {
		if i == len(items) {
			if where != nil {
				v, err := j.en.eval(where)
				if err != nil {
					return err
				}
				b, _, err := truth(v)
				if err != nil || !b {
					return err
				}
			}
			t := tuple{rows: make([][]any, len(j.list)), refs: make([]*Row, len(j.list))}
			for k, l := range j.list {
				t.rows[k], t.refs[k] = l.b.row, l.b.ref
			}
			out = append(out, t)
			return nil
		}
		return j.run(items[i], func() error { return rec(i + 1) })
	}
	if err := rec(0); err != nil {
		return nil, nil, err
	}
	return j, out, nil
}

// nullableOrInner reports whether ON conditions may restrict the scan of leaf f: true for
// inner joins and the right side of a left join.
func nullableOrInner(items []*FromItem, f *FromItem) bool {
	var find func(n *FromItem) (found, ok bool)
	find = func(n *FromItem) (bool, bool) {
		if n == f {
			return true, true
		}
		if n.join == nil {
			return false, false
		}
		if fd, ok := find(n.join.l); fd {
			return true, ok && n.join.kind != "left"
		}
		return find(n.join.r)
	}
	for _, it := range items {
		if fd, ok := find(it); fd {
			return ok
		}
	}
	return false
}

func (j *joiner) load(t tuple) {
	for k, l := range j.list {
		l.b.row, l.b.ref = t.rows[k], t.refs[k]
	}
}

// ---------------------------------------------------------------- select

func itemName(it SelItem) string {
	if it.alias != "" {
		return it.alias
	}
	e := it.e
	for {
		switch x := e.(type) {
		case *Col:
			return x.name
		case *Func:
			return x.name
		case *Cast:
			e = x.e
			continue
		case *Case:
			return "case"
		case *Exists:
			return "exists"
		}
		return "?column?"
	}
}

func (x *exec) outCols(s *Select) ([]string, error) {
	if s.setop != "" {
		return x.outCols(s.left)
	}
	if s.values != nil {
		var out []string
		for i := range s.values[0] {
			out = append(out, fmt.Sprintf("column%d", i+1))
		}
		return out, nil
	}
	var out []string
	for _, it := range s.items {
		if st, ok := it.e.(*Star); ok {
			_ = st
			j, err := x.prepFrom(s.from, nil)
			if err != nil {
				return nil, err
			}
			for _, b := range j.en.b {
				if st.tbl == "" || st.tbl == b.alias {
					for _, c := range b.cols {
						if c[0] != 0 {
							out = append(out, c)
						}
					}
				}
			}
			continue
		}
		out = append(out, itemName(it))
	}
	return out, nil
}

func (x *exec) runCTEs(ctes []CTE, up *env) (int, error) {
	n := len(x.ctes)
	for _, c := range ctes {
		r, err := x.run(c.stmt, up)
		if err != nil {
			return n, err
		}
		if c.cols != nil {
			cc := append([]string(nil), r.Cols...)
			copy(cc, c.cols)
			r = &Result{Cols: cc, Rows: r.Rows}
		}
		x.ctes = append(x.ctes, &cteRes{c.name, r})
	}
	return n, nil
}

func (x *exec) selectRun(s *Select, up *env) (*Result, error) {
	x.depth++
	defer func() { x.depth-- }()
	if s.recursive {
		return nil, unsup("recursive CTE")
	}
	if len(s.ctes) > 0 {
		n, err := x.runCTEs(s.ctes, up)
		defer func() { x.ctes = x.ctes[:n] }()
		if err != nil {
			return nil, err
		}
	}
	if s.setop != "" {
		return x.setOp(s, up)
	}
	if s.values != nil {
		en := &env{up: up, x: x}
		cols, _ := x.outCols(s)
		r := &Result{Cols: cols}
		for _, row := range s.values {
			vs, err := en.evalAll(row)
			if err != nil {
				return nil, err
			}
			r.Rows = append(r.Rows, vs)
		}
		return x.orderLimitRows(s, r, up)
	}
	s.analyse()
	j, tup, err := x.tuples(s.from, s.where, s.conj, up)
	if err != nil {
		return nil, err
	}
	en := j.en
	type group struct {
		t    tuple
		has  bool
		aggs map[*Func]any
	}
	var groups []group
	if len(s.aggs) > 0 || len(s.group) > 0 {
		type acc struct {
			t  []tuple
			id int
		}
		keys := map[string]*acc{}
		var order []*acc
		if len(s.group) == 0 {
			a := &acc{t: tup}
			order = append(order, a)
		} else {
			for _, t := range tup {
				j.load(t)
				k := ""
				for _, g := range s.group {
					ge := x.aliasExpr(s, g, en)
					v, err := en.eval(ge)
					if err != nil {
						return nil, err
					}
					k += hashKey(v) + "\x01"
				}
				a := keys[k]
				if a == nil {
					a = &acc{}
					keys[k] = a
					order = append(order, a)
				}
				a.t = append(a.t, t)
			}
		}
		for _, a := range order {
			g := group{aggs: map[*Func]any{}}
			for _, f := range s.aggs {
				v, err := x.aggregate(f, j, a.t)
				if err != nil {
					return nil, err
				}
				g.aggs[f] = v
			}
			if len(a.t) > 0 {
				g.t, g.has = a.t[0], true
			} else {
				g.t = tuple{rows: make([][]any, len(j.list)), refs: make([]*Row, len(j.list))}
			}
			groups = append(groups, g)
		}
	} else {
		for _, t := range tup {
			groups = append(groups, group{t: t, has: true})
		}
	}
	if s.having != nil {
		out := groups[:0]
		for _, g := range groups {
			j.load(g.t)
			en.aggs = g.aggs
			v, err := en.eval(s.having)
			if err != nil {
				return nil, err
			}
			if v == true {
				out = append(out, g)
			}
		}
		groups = out
	}
	if len(s.wins) > 0 {
		for i := range groups {
			if groups[i].aggs == nil {
				groups[i].aggs = map[*Func]any{}
			}
		}
		for _, w := range s.wins {
			parts := map[string][]int{}
			var order []string
			okeys := make([][]any, len(groups))
			for i, g := range groups {
				j.load(g.t)
				en.aggs = g.aggs
				vs, err := en.evalAll(w.over.partition)
				if err != nil {
					return nil, err
				}
				k := ""
				for _, v := range vs {
					k += hashKey(v) + "\x01"
				}
				if _, ok := parts[k]; !ok {
					order = append(order, k)
				}
				parts[k] = append(parts[k], i)
				for _, o := range w.over.order {
					v, err := en.eval(o.e)
					if err != nil {
						return nil, err
					}
					okeys[i] = append(okeys[i], v)
				}
			}
			for _, k := range order {
				idx := parts[k]
				var serr error
				sort.SliceStable(idx, func(a, b int) bool {
					c, err := cmpKeys(okeys[idx[a]], okeys[idx[b]], w.over.order)
					if err != nil {
						serr = err
					}
					return c < 0
				})
				if serr != nil {
					return nil, serr
				}
				switch w.name {
				case "row_number":
					for n, i := range idx {
						groups[i].aggs[w] = int64(n + 1)
					}
				case "rank", "dense_rank":
					rank, dense := int64(1), int64(0)
					for n, i := range idx {
						if n == 0 || func() bool {
							c, _ := cmpKeys(okeys[idx[n-1]], okeys[i], w.over.order)
							return c != 0
						}() {
							rank = int64(n + 1)
							dense++
						}
						if w.name == "rank" {
							groups[i].aggs[w] = rank
						} else {
							groups[i].aggs[w] = dense
						}
					}
				default:
					plain := &Func{name: w.name, args: w.args, star: w.star, filter: w.filter, distinct: w.distinct}
					if len(w.over.order) == 0 {
						var ts []tuple
						for _, i := range idx {
							ts = append(ts, groups[i].t)
						}
						v, err := x.aggregate(plain, j, ts)
						if err != nil {
							return nil, err
						}
						for _, i := range idx {
							groups[i].aggs[w] = v
						}
					} else {
						for n := 0; n < len(idx); {
							e := n
							for e < len(idx) {
								c, err := cmpKeys(okeys[idx[n]], okeys[idx[e]], w.over.order)
								if err != nil {
									return nil, err
								}
								if c != 0 {
									break
								}
								e++
							}
							var ts []tuple
							for _, i := range idx[:e] {
								ts = append(ts, groups[i].t)
							}
							v, err := x.aggregate(plain, j, ts)
							if err != nil {
								return nil, err
							}
							for ; n < e; n++ {
								groups[idx[n]].aggs[w] = v
							}
						}
					}
				}
			}
		}
	}
	// project
	cols, err := x.projCols(s.items, en)
	if err != nil {
		return nil, err
	}
	type outRow struct {
		vals []any
		keys []any
		t    tuple
	}
	outs := make([]outRow, 0, len(groups))
	for _, g := range groups {
		j.load(g.t)
		if !g.has {
			for _, l := range j.list {
				l.b.row = nil
			}
		}
		en.aggs = g.aggs
		o := outRow{t: g.t}
		o.vals, err = x.project(s.items, en)
		if err != nil {
			return nil, err
		}
		for _, ob := range s.order {
			v, err := x.orderVal(s, ob.e, en, o.vals, cols)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, v)
		}
		if len(s.distinctOn) > 0 {
			vs, err := en.evalAll(s.distinctOn)
			if err != nil {
				return nil, err
			}
			o.t.rows = append([][]any{vs}, o.t.rows...)
		}
		outs = append(outs, o)
	}
	en.aggs = nil
	if s.distinct {
		seen := map[string]bool{}
		k2 := outs[:0]
		for _, o := range outs {
			k := ""
			for _, v := range o.vals {
				k += hashKey(v) + "\x01"
			}
			if !seen[k] {
				seen[k] = true
				k2 = append(k2, o)
			}
		}
		outs = k2
	}
	if len(s.order) > 0 {
		var serr error
		sort.SliceStable(outs, func(a, b int) bool {
			c, err := cmpKeys(outs[a].keys, outs[b].keys, s.order)
			if err != nil {
				serr = err
			}
			return c < 0
		})
		if serr != nil {
			return nil, serr
		}
	}
	if len(s.distinctOn) > 0 {
		seen := map[string]bool{}
		k2 := outs[:0]
		for _, o := range outs {
			k := ""
			for _, v := range o.t.rows[0] {
				k += hashKey(v) + "\x01"
			}
			if !seen[k] {
				seen[k] = true
				k2 = append(k2, o)
			}
		}
		outs = k2
	}
	lim, off, err := x.limits(s, up)
	if err != nil {
		return nil, err
	}
	r := &Result{Cols: cols}
	for _, o := range outs {
		if lim >= 0 && int64(len(r.Rows)) >= lim {
			break
		}
		if s.lock != nil && len(s.aggs) == 0 && len(s.group) == 0 {
			skip := false
			for k, ref := range o.t.refs {
				if ref == nil || j.list[k].tbl == nil {
					continue
				}
				if len(s.lock.of) > 0 {
					in := false
					for _, a := range s.lock.of {
						in = in || a == j.list[k].b.alias
					}
					if !in {
						continue
					}
				}
				if x.tx.rr && ref.ptx == nil && len(ref.vers) > 0 && ref.vers[len(ref.vers)-1].seq > x.snap {
					return nil, pgErr("40001", "could not serialize access due to concurrent update")
				}
				if w := x.eng.lockRow(x.tx, ref, s.lock.mode); w != nil {
					if s.lock.skip {
						skip = true
						break
					}
					if s.lock.nowait {
						return nil, pgErr("55P03", "could not obtain lock on row")
					}
					return nil, &waitError{w}
				}
			}
			if skip {
				continue
			}
		}
		if off > 0 {
			off--
			continue
		}
		r.Rows = append(r.Rows, o.vals)
	}
	return r, nil
}

func (x *exec) limits(s *Select, up *env) (lim, off int64, err error) {
	lim = -1
	en := &env{up: up, x: x}
	get := func(e Expr, d int64) (int64, error) {
		if e == nil {
			return d, nil
		}
		v, err := en.eval(e)
		if err != nil || v == nil {
			return d, err
		}
		n, err := coerce(v, Type{name: "int8"})
		if err != nil {
			return 0, err
		}
		return n.(int64), nil
	}
	if lim, err = get(s.limit, -1); err != nil {
		return
	}
	if s.limit != nil && lim < 0 {
		if v, _ := en.eval(s.limit); v != nil {
			return 0, 0, pgErr("2201W", "LIMIT must not be negative")
		}
	}
	off, err = get(s.offset, 0)
	if err == nil && off < 0 {
		err = pgErr("2201X", "OFFSET must not be negative")
	}
	return
}

func cmpKeys(a, b []any, ord []OrderItem) (int, error) {
	for i := range ord {
		x, y := a[i], b[i]
		nf := ord[i].desc
		if ord[i].nullsFirst != nil {
			nf = *ord[i].nullsFirst
		}
		if x == nil && y == nil {
			continue
		}
		if x == nil || y == nil {
			if (x == nil) == nf {
				return -1, nil
			}
			return 1, nil
		}
		c, err := compare(x, y)
		if err != nil {
			return 0, err
		}
		if c != 0 {
			if ord[i].desc {
				c = -c
			}
			return c, nil
		}
	}
	return 0, nil
}

func (x *exec) aliasExpr(s *Select, e Expr, en *env) Expr {
	if l, ok := e.(*Lit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(s.items) {
			return s.items[n-1].e
		}
	}
	if c, ok := e.(*Col); ok && c.tbl == "" {
		if err := en.resolve(c); err != nil {
			for _, it := range s.items {
				if it.alias == c.name {
					return it.e
				}
			}
		}
	}
	return e
}

func (x *exec) orderVal(s *Select, e Expr, en *env, vals []any, cols []string) (any, error) {
	if l, ok := e.(*Lit); ok {
		if n, ok := l.v.(int64); ok && n >= 1 && int(n) <= len(vals) {
			return vals[n-1], nil
		}
	}
	if c, ok := e.(*Col); ok && c.tbl == "" {
		for i, it := range s.items {
			if it.alias == c.name {
				return vals[i], nil
			}
		}
	}
	return en.eval(e)
}

func (x *exec) projCols(items []SelItem, en *env) ([]string, error) {
	var out []string
	for _, it := range items {
		if st, ok := it.e.(*Star); ok {
			for _, b := range en.b {
				if st.tbl == "" && b.alias != "excluded" || st.tbl == b.alias {
					for _, c := range b.cols {
						if c[0] != 0 {
							out = append(out, c)
						}
					}
				}
			}
			continue
		}
		out = append(out, itemName(it))
	}
	return out, nil
}

func (x *exec) project(items []SelItem, en *env) ([]any, error) {
	out := make([]any, 0, len(items))
	for _, it := range items {
		if st, ok := it.e.(*Star); ok {
			for _, b := range en.b {
				if st.tbl == "" && b.alias != "excluded" || st.tbl == b.alias {
					for i, c := range b.cols {
						if c[0] == 0 {
							continue
						}
						if b.row == nil {
							out = append(out, nil)
						} else {
							out = append(out, b.row[i])
						}
					}
				}
			}
			continue
		}
		v, err := en.eval(it.e)
		if err != nil {
			return nil, err
		}
		if u, ok := v.(Unk); ok {
			v = string(u)
		}
		out = append(out, v)
	}
	return out, nil
}

func (x *exec) orderLimitRows(s *Select, r *Result, up *env) (*Result, error) {
	if len(s.order) > 0 {
		keys := make([][]any, len(r.Rows))
		for i, row := range r.Rows {
			en := &env{up: up, x: x, b: []*binding{{cols: r.Cols, row: row}}}
			for _, o := range s.order {
				if l, ok := o.e.(*Lit); ok {
					if n, ok := l.v.(int64); ok {
						keys[i] = append(keys[i], row[n-1])
						continue
					}
				}
				v, err := en.eval(o.e)
				if err != nil {
					return nil, err
				}
				keys[i] = append(keys[i], v)
			}
		}
		idx := make([]int, len(r.Rows))
		for i := range idx {
			idx[i] = i
		}
		var serr error
		sort.SliceStable(idx, func(a, b int) bool {
			c, err := cmpKeys(keys[idx[a]], keys[idx[b]], s.order)
			if err != nil {
				serr = err
			}
			return c < 0
		})
		if serr != nil {
			return nil, serr
		}
		rows := make([][]any, len(idx))
		for i, k := range idx {
			rows[i] = r.Rows[k]
		}
		r.Rows = rows
	}
	lim, off, err := x.limits(s, up)
	if err != nil {
		return nil, err
	}
	if off > int64(len(r.Rows)) {
		off = int64(len(r.Rows))
	}
	r.Rows = r.Rows[off:]
	if lim >= 0 && lim < int64(len(r.Rows)) {
		r.Rows = r.Rows[:lim]
	}
	return r, nil
}

func (x *exec) setOp(s *Select, up *env) (*Result, error) {
	l, err := x.selectRun(s.left, up)
	if err != nil {
		return nil, err
	}
	rr, err := x.selectRun(s.right, up)
	if err != nil {
		return nil, err
	}
	key := func(row []any) string {
		k := ""
		for _, v := range row {
			k += hashKey(v) + "\x01"
		}
		return k
	}
	out := &Result{Cols: l.Cols}
	switch s.setop {
	case "union":
		if s.all {
			out.Rows = append(append(out.Rows, l.Rows...), rr.Rows...)
			break
		}
		seen := map[string]bool{}
		for _, set := range [][][]any{l.Rows, rr.Rows} {
			for _, row := range set {
				if k := key(row); !seen[k] {
					seen[k] = true
					out.Rows = append(out.Rows, row)
				}
			}
		}
	case "except", "intersect":
		in := map[string]bool{}
		for _, row := range rr.Rows {
			in[key(row)] = true
		}
		seen := map[string]bool{}
		for _, row := range l.Rows {
			k := key(row)
			if in[k] == (s.setop == "intersect") && !seen[k] {
				seen[k] = true
				out.Rows = append(out.Rows, row)
			}
		}
	}
	return x.orderLimitRows(s, out, up)
}

func (x *exec) aggregate(f *Func, j *joiner, ts []tuple) (any, error) {
	en := j.en
	var vals []any
	n := int64(0)
	seen := map[string]bool{}
	type ov struct {
		v    any
		keys []any
	}
	var ovs []ov
	var sep string
	for _, t := range ts {
		j.load(t)
		if f.filter != nil {
			v, err := en.eval(f.filter)
			if err != nil {
				return nil, err
			}
			if v != true {
				continue
			}
		}
		if f.star {
			n++
			continue
		}
		v, err := en.eval(f.args[0])
		if err != nil {
			return nil, err
		}
		if f.name == "string_agg" {
			s, err := en.eval(f.args[1])
			if err != nil {
				return nil, err
			}
			sep = textOf(s)
		}
		if v == nil && f.name != "array_agg" && f.name != "jsonb_agg" && f.name != "json_agg" {
			continue
		}
		if f.distinct {
			k := hashKey(v)
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		n++
		o := ov{v: v}
		for _, ob := range f.order {
			k, err := en.eval(ob.e)
			if err != nil {
				return nil, err
			}
			o.keys = append(o.keys, k)
		}
		ovs = append(ovs, o)
	}
	if len(f.order) > 0 {
		sort.SliceStable(ovs, func(a, b int) bool {
			c, _ := cmpKeys(ovs[a].keys, ovs[b].keys, f.order)
			return c < 0
		})
	}
	for _, o := range ovs {
		vals = append(vals, o.v)
	}
	switch f.name {
	case "count":
		return n, nil
	case "sum", "avg":
		var acc any
		for _, v := range vals {
			if u, ok := v.(Unk); ok {
				d, err := parseNum(string(u))
				if err != nil {
					return nil, err
				}
				v = d
			}
			if i, ok := v.(int64); ok {
				v, _ = coerce(i, Type{name: "numeric"})
			}
			if acc == nil {
				acc = v
				continue
			}
			s, err := arith("+", acc, v)
			if err != nil {
				return nil, err
			}
			acc = s
		}
		if f.name == "avg" && acc != nil {
			return arith("/", acc, n)
		}
		return acc, nil
	case "max", "min":
		var best any
		for _, v := range vals {
			if best == nil {
				best = v
				continue
			}
			c, err := compare(v, best)
			if err != nil {
				return nil, err
			}
			if f.name == "max" && c > 0 || f.name == "min" && c < 0 {
				best = v
			}
		}
		return best, nil
	case "array_agg":
		if len(vals) == 0 {
			return nil, nil
		}
		return Arr(vals), nil
	case "string_agg":
		if len(vals) == 0 {
			return nil, nil
		}
		var ss []string
		for _, v := range vals {
			ss = append(ss, textOf(v))
		}
		return strings.Join(ss, sep), nil
	case "jsonb_agg", "json_agg":
		if len(vals) == 0 {
			return nil, nil
		}
		out := []any{}
		for _, v := range vals {
			out = append(out, toJSONVal(v))
		}
		return Json{out}, nil
	case "bool_or", "bool_and":
		if len(vals) == 0 {
			return nil, nil
		}
		r := f.name == "bool_and"
		for _, v := range vals {
			if f.name == "bool_or" {
				r = r || v == true
			} else {
				r = r && v == true
			}
		}
		return r, nil
	}
	return nil, unsup("aggregate %s", f.name)
}
