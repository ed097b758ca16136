package pgsim

import (
	"sort"
	"strings"
)

func (x *exec) run(st any, up *env) (*Result, error) {
	switch s := st.(type) {
	case *Select:
		return x.selectRun(s, up)
	case *Insert:
		return x.insert(s, up)
	case *Update:
		return x.update(s, up)
	case *Delete:
		return x.delete(s, up)
	}
	return x.ddl(st)
}

func (x *exec) table(name string) (*Table, error) {
	t := x.eng.tables[name]
	if t == nil {
		return nil, pgErr("42P01", "relation \"blnk.%s\" does not exist", name)
	}
	return t, nil
}

func (x *exec) colIndex(t *Table, name string) (int, error) {
	i, ok := t.colIdx[name]
	if !ok {
		return 0, pgErr("42703", "column %q of relation %q does not exist", name, t.name)
	}
	return i, nil
}

func (x *exec) defVal(t *Table, c *Column, up *env) (any, error) {
	if c.serial {
		c.seq++
		return c.seq, nil
	}
	if c.def == nil {
		return nil, nil
	}
	v, err := (&env{x: x}).eval(c.def)
	if err != nil {
		return nil, err
	}
	return coerce(v, c.typ)
}

// validate checks NOT NULL and CHECK constraints.
func (x *exec) validate(t *Table, d []any) error {
	for i, c := range t.cols {
		if c.notNull && !c.dropped && d[i] == nil {
			e := pgErr("23502", "null value in column %q of relation %q violates not-null constraint", c.name, t.name)
			e.Column, e.Table = c.name, t.name
			return e
		}
	}
	for _, ck := range t.checks {
		en := &env{x: x, b: []*binding{{alias: t.name, cols: t.names, row: d}}}
		v, err := en.eval(ck.e)
		if err != nil {
			return err
		}
		if v == false {
			e := pgErr("23514", "new row for relation %q violates check constraint %q", t.name, ck.name)
			e.Constraint = ck.name
			return e
		}
	}
	return nil
}

func (x *exec) uniqErr(t *Table, u *uniqueIdx) error {
	e := pgErr("23505", "duplicate key value violates unique constraint %q", u.name)
	e.Constraint, e.Table, e.Schema = u.name, t.name, "blnk"
	return e
}

func (x *exec) checkUnique(t *Table, self *Row, d []any) error {
	for _, u := range t.uniques {
		c, w, err := x.conflictRow(t, u, self, d)
		if err != nil {
			return err
		}
		if w != nil {
			return &waitError{w}
		}
		if c != nil {
			return x.uniqErr(t, u)
		}
	}
	return nil
}

func (x *exec) checkFKs(t *Table, d, old []any) error {
	for _, f := range t.fks {
		null, same := false, old != nil
		for _, c := range f.cols {
			if d[c] == nil {
				null = true
			}
			if old != nil && hashKey(old[c]) != hashKey(d[c]) {
				same = false
			}
		}
		if null || same {
			continue
		}
		var hit *Row
		f.ref.addLook(f.refCols[0])
		for _, r := range f.ref.look[f.refCols[0]][hashKey(d[f.cols[0]])] {
			v := r.committed()
			if r.ptx == x.tx {
				v = r.pdata
			}
			if v == nil {
				continue
			}
			ok := true
			for i, c := range f.refCols {
				ok = ok && hashKey(v[c]) == hashKey(d[f.cols[i]])
			}
			if ok {
				hit = r
				break
			}
		}
		if hit == nil {
			e := pgErr("23503", "insert or update on table %q violates foreign key constraint %q", t.name, f.name)
			e.Constraint, e.Table = f.name, t.name
			return e
		}
		if w := x.eng.lockRow(x.tx, hit, lkKeyShare); w != nil {
			return &waitError{w}
		}
	}
	return nil
}

// fire runs the triggers; for BEFORE triggers it returns the possibly changed row (nil: skip).
func (x *exec) fire(t *Table, before bool, op string, old, nw []any) ([]any, error) {
	for _, tr := range t.triggers {
		if tr.before != before || !tr.events[op] {
			continue
		}
		fn := x.eng.funcs[tr.fn]
		if fn == nil {
			return nil, pgErr("42883", "function %s does not exist", tr.fn)
		}
		if tr.when != nil {
			return nil, unsup("trigger WHEN")
		}
		row, err := x.callTrigger(fn, t, op, old, nw)
		if err != nil {
			return nil, err
		}
		if before {
			if row == nil {
				return nil, nil
			}
			if op != "delete" {
				nw = row
			}
		}
	}
	if op == "delete" && before {
		return old, nil
	}
	return nw, nil
}

func (x *exec) insert(s *Insert, up *env) (*Result, error) {
	if len(s.ctes) > 0 {
		n, err := x.runCTEs(s.ctes, up)
		defer func() { x.ctes = x.ctes[:n] }()
		if err != nil {
			return nil, err
		}
	}
	t, err := x.table(s.table)
	if err != nil {
		return nil, err
	}
	var idx []int
	if s.cols == nil {
		for i, c := range t.cols {
			if !c.dropped {
				idx = append(idx, i)
			}
		}
	} else {
		for _, c := range s.cols {
			i, err := x.colIndex(t, c)
			if err != nil {
				return nil, err
			}
			idx = append(idx, i)
		}
	}
	var src [][]any
	if s.defaults {
		src = [][]any{{}}
		idx = nil
	} else if s.src.values != nil && len(s.src.ctes) == 0 && s.src.limit == nil && len(s.src.order) == 0 {
		en := &env{up: up, x: x}
		for _, row := range s.src.values {
			vs := make([]any, len(row))
			for i, e := range row {
				if c, ok := e.(*Col); ok && c.tbl == "" && c.name == "default" {
					vs[i] = errWholeRow // marker: DEFAULT
					continue
				}
				if vs[i], err = en.eval(e); err != nil {
					return nil, err
				}
			}
			src = append(src, vs)
		}
	} else {
		r, err := x.selectRun(s.src, up)
		if err != nil {
			return nil, err
		}
		src = r.Rows
	}
	alias := s.alias
	if alias == "" {
		alias = t.name
	}
	res := &Result{Tag: "INSERT"}
	tb := &binding{alias: alias, cols: t.names, tbl: t}
	ex := &binding{alias: "excluded", cols: t.names}
	ren := &env{up: up, x: x, b: []*binding{tb}}
	cen := &env{up: up, x: x, b: []*binding{tb, ex}}
	if s.hasRet {
		if res.Cols, err = x.projCols(s.ret, ren); err != nil {
			return nil, err
		}
	}
	touched := map[*Row]bool{}
	for _, vs := range src {
		if len(vs) > len(idx) {
			return nil, pgErr("42601", "INSERT has more expressions than target columns")
		}
		if s.cols != nil && len(vs) < len(idx) {
			return nil, pgErr("42601", "INSERT has more target columns than expressions")
		}
		d := make([]any, len(t.cols))
		given := make([]bool, len(t.cols))
		for i, v := range vs {
			if v == errWholeRow {
				continue
			}
			c := t.cols[idx[i]]
			if d[idx[i]], err = coerceAssign(v, c.typ); err != nil {
				return nil, err
			}
			given[idx[i]] = true
		}
		for i, c := range t.cols {
			if !given[i] && !c.dropped {
				if d[i], err = x.defVal(t, c, up); err != nil {
					return nil, err
				}
			}
		}
		if d, err = x.fire(t, true, "insert", nil, d); err != nil {
			return nil, err
		}
		if d == nil {
			continue
		}
		if err := x.validate(t, d); err != nil {
			return nil, err
		}
		if s.conflict != nil {
			var target []*uniqueIdx
			for _, u := range t.uniques {
				if s.conflict.cols == nil && s.conflict.constraint == "" || u.name == s.conflict.constraint || sameCols(t, u, s.conflict.cols) {
					target = append(target, u)
				}
			}
			if len(target) == 0 {
				return nil, pgErr("42P10", "there is no unique or exclusion constraint matching the ON CONFLICT specification")
			}
			var hit *Row
			for _, u := range target {
				c, w, err := x.conflictRow(t, u, nil, d)
				if err != nil {
					return nil, err
				}
				if w != nil {
					return nil, &waitError{w}
				}
				if c != nil {
					hit = c
					break
				}
			}
			if hit != nil {
				if !s.conflict.doUpdate {
					continue
				}
				if touched[hit] {
					return nil, pgErr("21000", "ON CONFLICT DO UPDATE command cannot affect row a second time")
				}
				cur := hit.committed()
				if hit.ptx == x.tx {
					cur = hit.pdata
				}
				if w := x.eng.lockRow(x.tx, hit, lkNoKeyUpdate); w != nil {
					return nil, &waitError{w}
				}
				if x.tx.rr && hit.ptx != x.tx && hit.vers[len(hit.vers)-1].seq > x.snap {
					return nil, pgErr("40001", "could not serialize access due to concurrent update")
				}
				tb.row, ex.row = cur, d
				if s.conflict.updWhere != nil {
					v, err := cen.eval(s.conflict.updWhere)
					if err != nil {
						return nil, err
					}
					if v != true {
						continue
					}
				}
				nd, err := x.applySets(t, s.conflict.update, cur, cen)
				if err != nil {
					return nil, err
				}
				nd, err = x.writeUpdate(t, hit, cur, nd)
				if err != nil {
					return nil, err
				}
				if nd == nil {
					continue
				}
				touched[hit] = true
				res.Affected++
				if s.hasRet {
					tb.row = nd
					row, err := x.project(s.ret, ren)
					if err != nil {
						return nil, err
					}
					res.Rows = append(res.Rows, row)
				}
				continue
			}
		}
		if err := x.checkUnique(t, nil, d); err != nil {
			return nil, err
		}
		if err := x.checkFKs(t, d, nil); err != nil {
			return nil, err
		}
		t.nextID++
		r := &Row{id: t.nextID}
		t.rows = append(t.rows, r)
		x.eng.setPending(x.tx, t, r, d, true)
		touched[r] = true
		if _, err := x.fire(t, false, "insert", nil, d); err != nil {
			return nil, err
		}
		res.Affected++
		if s.hasRet {
			tb.row = d
			row, err := x.project(s.ret, ren)
			if err != nil {
				return nil, err
			}
			res.Rows = append(res.Rows, row)
		}
	}
	return res, nil
}

func sameCols(t *Table, u *uniqueIdx, cols []string) bool {
	if len(cols) != len(u.cols) {
		return false
	}
	for _, c := range cols {
		i, ok := t.colIdx[c]
		in := false
		for _, k := range u.cols {
			in = in || ok && k == i
		}
		if !in {
			return false
		}
	}
	return true
}

// coerceAssign is PostgreSQL's assignment coercion.
func coerceAssign(v any, t Type) (any, error) {
	switch v.(type) {
	case string:
		if !t.arr && t.name != "text" && t.name != "varchar" && t.name != "bpchar" && t.name != "inet" && t.name != "uuid" && t.name != "time" && t.name != "bytea" {
			return nil, pgErr("42804", "column is of type %s but expression is of type text", t.name)
		}
	case bool:
		if t.name == "int4" || t.name == "int8" {
			return nil, pgErr("42804", "column is of type %s but expression is of type boolean", t.name)
		}
	case int64:
		if t.name == "bool" {
			return nil, pgErr("42804", "column is of type boolean but expression is of type integer")
		}
	}
	return coerce(v, t)
}

func (x *exec) applySets(t *Table, sets []SetItem, cur []any, en *env) ([]any, error) {
	nd := append([]any(nil), cur...)
	for _, s := range sets {
		if !s.row {
			i, err := x.colIndex(t, s.cols[0])
			if err != nil {
				return nil, err
			}
			v, err := en.eval(s.e)
			if err != nil {
				return nil, err
			}
			if nd[i], err = coerceAssign(v, t.cols[i].typ); err != nil {
				return nil, err
			}
			continue
		}
		var vals []any
		switch e := s.e.(type) {
		case *RowExpr:
			vs, err := en.evalAll(e.items)
			if err != nil {
				return nil, err
			}
			vals = vs
		case *SubQ:
			r, err := en.sub(e.sub)
			if err != nil {
				return nil, err
			}
			if len(r.Rows) > 1 {
				return nil, pgErr("21000", "more than one row returned by a subquery used as an expression")
			}
			vals = make([]any, len(s.cols))
			if len(r.Rows) == 1 {
				vals = r.Rows[0]
			}
		default:
			v, err := en.eval(s.e)
			if err != nil {
				return nil, err
			}
			vals = []any{v}
		}
		if len(vals) != len(s.cols) {
			return nil, pgErr("42601", "number of columns does not match number of values")
		}
		for k, c := range s.cols {
			i, err := x.colIndex(t, c)
			if err != nil {
				return nil, err
			}
			if nd[i], err = coerceAssign(vals[k], t.cols[i].typ); err != nil {
				return nil, err
			}
		}
	}
	return nd, nil
}

// writeUpdate stores nd for r (which is already locked), running triggers and constraints.
func (x *exec) writeUpdate(t *Table, r *Row, old, nd []any) ([]any, error) {
	nd, err := x.fire(t, true, "update", old, nd)
	if err != nil || nd == nil {
		return nil, err
	}
	if err := x.validate(t, nd); err != nil {
		return nil, err
	}
	if err := x.checkUnique(t, r, nd); err != nil {
		return nil, err
	}
	if err := x.checkFKs(t, nd, old); err != nil {
		return nil, err
	}
	x.eng.setPending(x.tx, t, r, nd, false)
	if _, err := x.fire(t, false, "update", old, nd); err != nil {
		return nil, err
	}
	return nd, nil
}

func (x *exec) keyChanged(t *Table, a, b []any) bool {
	for _, u := range t.uniques {
		if u.where != nil {
			continue
		}
		for _, c := range u.cols {
			if hashKey(a[c]) != hashKey(b[c]) {
				return true
			}
		}
	}
	return false
}

func (x *exec) update(s *Update, up *env) (*Result, error) {
	if len(s.ctes) > 0 {
		n, err := x.runCTEs(s.ctes, up)
		defer func() { x.ctes = x.ctes[:n] }()
		if err != nil {
			return nil, err
		}
	}
	t, err := x.table(s.table)
	if err != nil {
		return nil, err
	}
	if s.conj == nil && s.where != nil {
		s.conj = conjuncts(s.where, nil)
	}
	target := &FromItem{schema: "blnk", table: s.table, alias: s.alias}
	items := append(append([]*FromItem(nil), s.from...), target)
	j, tup, err := x.tuples(items, s.where, s.conj, up)
	if err != nil {
		return nil, err
	}
	ti := len(j.list) - 1
	res := &Result{Tag: "UPDATE"}
	if s.hasRet {
		// RETURNING * lists the target's columns first
		if res.Cols, err = x.projCols(s.ret, &env{up: up, x: x, b: append([]*binding{j.list[ti].b}, j.en.b[:ti]...)}); err != nil {
			return nil, err
		}
	}
	seen := map[*Row]bool{}
	// A real plan visits target rows in heap order here; row locks are taken in that order.
	sort.SliceStable(tup, func(a, b int) bool { return tup[a].refs[ti].id < tup[b].refs[ti].id })
	for _, tp := range tup {
		r := tp.refs[ti]
		if seen[r] {
			continue
		}
		seen[r] = true
		j.load(tp)
		old := tp.rows[ti]
		nd, err := x.applySets(t, s.sets, old, j.en)
		if err != nil {
			return nil, err
		}
		mode := lkNoKeyUpdate
		if x.keyChanged(t, old, nd) {
			mode = lkUpdate
		}
		if w := x.eng.lockRow(x.tx, r, mode); w != nil {
			return nil, &waitError{w}
		}
		if x.tx.rr && r.ptx != x.tx && len(r.vers) > 0 && r.vers[len(r.vers)-1].seq > x.snap {
			return nil, pgErr("40001", "could not serialize access due to concurrent update")
		}
		nd, err = x.writeUpdate(t, r, old, nd)
		if err != nil {
			return nil, err
		}
		if nd == nil {
			continue
		}
		res.Affected++
		if s.hasRet {
			j.load(tp)
			j.list[ti].b.row = nd
			en := &env{up: up, x: x, b: append([]*binding{j.list[ti].b}, j.en.b[:ti]...)}
			row, err := x.project(s.ret, en)
			if err != nil {
				return nil, err
			}
			res.Rows = append(res.Rows, row)
		}
	}
	return res, nil
}

func (x *exec) delete(s *Delete, up *env) (*Result, error) {
	if len(s.ctes) > 0 {
		n, err := x.runCTEs(s.ctes, up)
		defer func() { x.ctes = x.ctes[:n] }()
		if err != nil {
			return nil, err
		}
	}
	t, err := x.table(s.table)
	if err != nil {
		return nil, err
	}
	if s.conj == nil && s.where != nil {
		s.conj = conjuncts(s.where, nil)
	}
	target := &FromItem{schema: "blnk", table: s.table, alias: s.alias}
	items := append(append([]*FromItem(nil), s.using...), target)
	j, tup, err := x.tuples(items, s.where, s.conj, up)
	if err != nil {
		return nil, err
	}
	ti := len(j.list) - 1
	res := &Result{Tag: "DELETE"}
	if s.hasRet {
		if res.Cols, err = x.projCols(s.ret, &env{up: up, x: x, b: []*binding{j.list[ti].b}}); err != nil {
			return nil, err
		}
	}
	seen := map[*Row]bool{}
	for _, tp := range tup {
		r := tp.refs[ti]
		if seen[r] {
			continue
		}
		seen[r] = true
		old := tp.rows[ti]
		if w := x.eng.lockRow(x.tx, r, lkUpdate); w != nil {
			return nil, &waitError{w}
		}
		if x.tx.rr && r.ptx != x.tx && len(r.vers) > 0 && r.vers[len(r.vers)-1].seq > x.snap {
			return nil, pgErr("40001", "could not serialize access due to concurrent update")
		}
		o, err := x.fire(t, true, "delete", old, nil)
		if err != nil {
			return nil, err
		}
		if o == nil {
			continue
		}
		for _, ct := range t.refBy {
			for _, f := range ct.fks {
				if f.ref != t {
					continue
				}
				for _, cr := range ct.rows {
					cd := cr.visible(x.tx, x.eng.seq)
					if cd == nil {
						continue
					}
					same := true
					for i, c := range f.cols {
						same = same && cd[c] != nil && hashKey(cd[c]) == hashKey(old[f.refCols[i]])
					}
					if !same {
						continue
					}
					if !f.cascade {
						e := pgErr("23503", "update or delete on table %q violates foreign key constraint %q on table %q", t.name, f.name, ct.name)
						e.Constraint = f.name
						return nil, e
					}
					if w := x.eng.lockRow(x.tx, cr, lkUpdate); w != nil {
						return nil, &waitError{w}
					}
					x.eng.setPending(x.tx, ct, cr, nil, false)
				}
			}
		}
		x.eng.setPending(x.tx, t, r, nil, false)
		if _, err := x.fire(t, false, "delete", old, nil); err != nil {
			return nil, err
		}
		res.Affected++
		if s.hasRet {
			b := j.list[ti].b
			b.row = old
			row, err := x.project(s.ret, &env{up: up, x: x, b: []*binding{b}})
			if err != nil {
				return nil, err
			}
			res.Rows = append(res.Rows, row)
		}
	}
	return res, nil
}

// ---------------------------------------------------------------- DDL

func (x *exec) addUnique(t *Table, name string, cols []string, where Expr) error {
	u := &uniqueIdx{name: name, where: where, m: map[string][]*Row{}}
	for _, c := range cols {
		i, err := x.colIndex(t, c)
		if err != nil {
			return err
		}
		u.cols = append(u.cols, i)
	}
	for _, r := range t.rows {
		if d := r.committed(); d != nil {
			if k, ok := u.key(d); ok {
				addRow(u.m, k, r)
			}
		}
	}
	t.uniques = append(t.uniques, u)
	t.addLook(u.cols[0])
	return nil
}

func (x *exec) addFK(t *Table, f *FKDef) error {
	ref, err := x.table(f.refTbl)
	if err != nil {
		return err
	}
	k := &fkey{name: f.name, ref: ref, cascade: f.cascade}
	if k.name == "" {
		k.name = t.name + "_" + strings.Join(f.cols, "_") + "_fkey"
	}
	for _, c := range f.cols {
		i, err := x.colIndex(t, c)
		if err != nil {
			return err
		}
		k.cols = append(k.cols, i)
	}
	rc := f.refCols
	if rc == nil {
		for _, u := range ref.uniques {
			if strings.HasSuffix(u.name, "_pkey") {
				for _, c := range u.cols {
					rc = append(rc, ref.cols[c].name)
				}
			}
		}
	}
	for _, c := range rc {
		i, err := x.colIndex(ref, c)
		if err != nil {
			return err
		}
		k.refCols = append(k.refCols, i)
	}
	t.fks = append(t.fks, k)
	for _, o := range ref.refBy {
		if o == t {
			return nil
		}
	}
	ref.refBy = append(ref.refBy, t)
	return nil
}

func (x *exec) addCol(t *Table, c ColDef) error {
	col := &Column{name: c.name, typ: c.typ, notNull: c.notNull, def: c.def, serial: c.serial}
	t.cols = append(t.cols, col)
	t.rebuildNames()
	for _, r := range t.rows {
		v, err := x.defVal(t, col, nil)
		if err != nil {
			return err
		}
		for i := range r.vers {
			if r.vers[i].data != nil {
				r.vers[i].data = append(append([]any(nil), r.vers[i].data...), v)
			}
		}
		if r.ptx != nil && r.pdata != nil {
			r.pdata = append(append([]any(nil), r.pdata...), v)
		}
	}
	if c.pk {
		if err := x.addUnique(t, t.name+"_pkey", []string{c.name}, nil); err != nil {
			return err
		}
	}
	if c.unique {
		if err := x.addUnique(t, t.name+"_"+c.name+"_key", []string{c.name}, nil); err != nil {
			return err
		}
	}
	if c.check != nil {
		t.checks = append(t.checks, checkCon{t.name + "_" + c.name + "_check", c.check})
	}
	if c.ref != nil {
		return x.addFK(t, c.ref)
	}
	return nil
}

func (x *exec) addCon(t *Table, c TblConstraint) error {
	switch c.kind {
	case "pk":
		n := c.name
		if n == "" {
			n = t.name + "_pkey"
		}
		for _, k := range c.cols {
			i, err := x.colIndex(t, k)
			if err != nil {
				return err
			}
			t.cols[i].notNull = true
		}
		return x.addUnique(t, n, c.cols, nil)
	case "unique":
		n := c.name
		if n == "" {
			n = t.name + "_" + strings.Join(c.cols, "_") + "_key"
		}
		return x.addUnique(t, n, c.cols, nil)
	case "check":
		n := c.name
		if n == "" {
			n = t.name + "_check"
		}
		t.checks = append(t.checks, checkCon{n, c.check})
		return nil
	}
	return x.addFK(t, c.fk)
}

func (x *exec) ddl(st any) (*Result, error) {
	e := x.eng
	res := &Result{Tag: "DDL"}
	switch s := st.(type) {
	case *NoopStmt:
		return res, nil
	case *CreateTable:
		if e.tables[s.name] != nil {
			if s.ifNotExists {
				return res, nil
			}
			return nil, pgErr("42P07", "relation %q already exists", s.name)
		}
		t := &Table{name: s.name}
		e.tables[s.name] = t
		e.order = append(e.order, t)
		t.rebuildNames()
		for _, c := range s.cols {
			if err := x.addCol(t, c); err != nil {
				return nil, err
			}
		}
		for _, c := range s.cons {
			if err := x.addCon(t, c); err != nil {
				return nil, err
			}
		}
	case *CreateIndex:
		t, err := x.table(s.table)
		if err != nil {
			return nil, err
		}
		if s.unique {
			for _, u := range t.uniques {
				if u.name == s.name {
					return res, nil
				}
			}
			var cols []string
			for _, ex := range s.exprs {
				c, ok := ex.(*Col)
				if !ok {
					return nil, unsup("unique expression index %s", s.name)
				}
				cols = append(cols, c.name)
			}
			return res, x.addUnique(t, s.name, cols, s.where)
		}
		if c, ok := s.exprs[0].(*Col); ok && s.where == nil {
			i, err := x.colIndex(t, c.name)
			if err != nil {
				return nil, err
			}
			t.addLook(i)
		}
	case *AlterTable:
		t, err := x.table(s.name)
		if err != nil {
			return nil, err
		}
		for _, a := range s.actions {
			if err := x.alter(t, a); err != nil {
				return nil, err
			}
		}
	case *CreateFunc:
		e.funcs[s.name] = s
		for k := range e.plcache {
			if strings.HasPrefix(k, s.name+"@") {
				delete(e.plcache, k)
			}
		}
	case *CreateTrigger:
		t, err := x.table(s.table)
		if err != nil {
			return nil, err
		}
		tr := &Trigger{name: s.name, fn: s.fn, before: s.before, events: map[string]bool{}, when: s.when}
		for _, ev := range s.events {
			tr.events[ev] = true
		}
		t.triggers = append(t.triggers, tr)
		sort.SliceStable(t.triggers, func(i, j int) bool { return t.triggers[i].name < t.triggers[j].name })
	case *Drop:
		switch s.kind {
		case "table":
			delete(e.tables, s.name)
		case "index":
			for _, t := range e.order {
				for i, u := range t.uniques {
					if u.name == s.name {
						t.uniques = append(t.uniques[:i:i], t.uniques[i+1:]...)
						break
					}
				}
			}
		case "function":
			delete(e.funcs, s.name)
		case "trigger":
			if t := e.tables[s.table]; t != nil {
				for i, tr := range t.triggers {
					if tr.name == s.name {
						t.triggers = append(t.triggers[:i:i], t.triggers[i+1:]...)
						break
					}
				}
			}
		}
	default:
		return nil, unsup("statement %T", st)
	}
	e.stmts = map[string]any{}
	e.plcache = map[string]*plBlock{}
	return res, nil
}

func (x *exec) alter(t *Table, a AlterAction) error {
	col := func() (*Column, int, error) {
		i, err := x.colIndex(t, a.name)
		if err != nil {
			return nil, 0, err
		}
		return t.cols[i], i, nil
	}
	switch a.kind {
	case "add_col":
		if _, ok := t.colIdx[a.col.name]; ok {
			if a.ifx {
				return nil
			}
			return pgErr("42701", "column %q of relation %q already exists", a.col.name, t.name)
		}
		return x.addCol(t, a.col)
	case "add_con":
		return x.addCon(t, a.con)
	case "drop_con":
		for i, u := range t.uniques {
			if u.name == a.name {
				t.uniques = append(t.uniques[:i:i], t.uniques[i+1:]...)
				return nil
			}
		}
		for i, f := range t.fks {
			if f.name == a.name {
				t.fks = append(t.fks[:i:i], t.fks[i+1:]...)
				return nil
			}
		}
		for i, c := range t.checks {
			if c.name == a.name {
				t.checks = append(t.checks[:i:i], t.checks[i+1:]...)
				return nil
			}
		}
		if a.ifx {
			return nil
		}
		return pgErr("42704", "constraint %q of relation %q does not exist", a.name, t.name)
	case "drop_col":
		i, ok := t.colIdx[a.name]
		if !ok {
			if a.ifx {
				return nil
			}
			return pgErr("42703", "column %q does not exist", a.name)
		}
		t.cols[i].dropped = true
		t.cols[i].notNull = false
		t.rebuildNames()
		return nil
	case "alter_type":
		c, i, err := col()
		if err != nil {
			return err
		}
		for _, r := range t.rows {
			for k := range r.vers {
				if d := r.vers[k].data; d != nil {
					nd := append([]any(nil), d...)
					if nd[i], err = coerce(d[i], a.col.typ); err != nil {
						return err
					}
					r.vers[k].data = nd
				}
			}
		}
		c.typ = a.col.typ
		if t.look[i] != nil {
			delete(t.look, i)
			t.addLook(i)
		}
	case "set_default", "drop_default":
		c, _, err := col()
		if err != nil {
			return err
		}
		c.def = a.e
	case "set_nn", "drop_nn":
		c, _, err := col()
		if err != nil {
			return err
		}
		c.notNull = a.kind == "set_nn"
	}
	return nil
}
