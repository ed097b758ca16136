package pgsim

import (
	"fmt"
	"sort"
	"time"
)

type lockMode uint8

const (
	lkKeyShare lockMode = iota + 1
	lkShare
	lkNoKeyUpdate
	lkUpdate
)

// conflicts: PostgreSQL row-level lock compatibility.
func lockConflict(a, b lockMode) bool {
	if a > b {
		a, b = b, a
	}
	switch a {
	case lkKeyShare:
		return b == lkUpdate
	case lkShare:
		return b >= lkNoKeyUpdate
	}
	return true
}

type version struct {
	seq  int64
	data []any // nil: deleted
}
type rowLock struct {
	tx   *Tx
	mode lockMode
}
type Row struct {
	id    int64
	vers  []version
	ptx   *Tx
	pdata []any
	locks []rowLock
}

func (r *Row) committed() []any {
	if len(r.vers) == 0 {
		return nil
	}
	return r.vers[len(r.vers)-1].data
}

func (r *Row) visible(tx *Tx, snap int64) []any {
	if r.ptx == tx {
		return r.pdata
	}
	for i := len(r.vers) - 1; i >= 0; i-- {
		if r.vers[i].seq <= snap {
			return r.vers[i].data
		}
	}
	return nil
}

type Column struct {
	name    string
	typ     Type
	notNull bool
	def     Expr
	serial  bool
	seq     int64
	dropped bool
}
type uniqueIdx struct {
	name  string
	cols  []int
	where Expr
	m     map[string][]*Row
}
type fkey struct {
	name    string
	cols    []int
	ref     *Table
	refCols []int
	cascade bool
}
type checkCon struct {
	name string
	e    Expr
}
type Trigger struct {
	name   string
	fn     string
	before bool
	events map[string]bool
	when   Expr
}
type Table struct {
	name     string
	cols     []*Column
	colIdx   map[string]int
	names    []string
	rows     []*Row
	nextID   int64
	uniques  []*uniqueIdx
	fks      []*fkey
	checks   []checkCon
	triggers []*Trigger
	look     map[int]map[string][]*Row
	refBy    []*Table
}

func (t *Table) rebuildNames() {
	t.colIdx = map[string]int{}
	t.names = make([]string, len(t.cols))
	for i, c := range t.cols {
		if c.dropped {
			t.names[i] = fmt.Sprintf("\x00dropped%d", i)
			continue
		}
		t.names[i] = c.name
		t.colIdx[c.name] = i
	}
}
func (t *Table) addLook(ci int) {
	if t.look == nil {
		t.look = map[int]map[string][]*Row{}
	}
	if t.look[ci] == nil {
		t.look[ci] = map[string][]*Row{}
		for _, r := range t.rows {
			for _, v := range r.vers {
				if v.data != nil {
					addRow(t.look[ci], hashKey(v.data[ci]), r)
				}
			}
		}
	}
}
func addRow(m map[string][]*Row, k string, r *Row) {
	l := m[k]
	for i := len(l) - 1; i >= 0; i-- {
		if l[i] == r {
			return
		}
	}
	m[k] = append(l, r)
}

type undo struct {
	t     *Table
	r     *Row
	ptx   *Tx
	pdata []any
	isNew bool
}

type Tx struct {
	id       int64
	eng      *Engine
	Owner    string // session description
	start    time.Time
	rr       bool
	snap     int64
	writes   []undo
	locked   []*Row
	Aborted  bool
	Done     bool
	waitOn   *Tx
	explicit bool
	Tag      any
}

// Change is one row's committed change.
type Change struct {
	Table    *Table
	RowID    int64
	Old, New []any
}

type Engine struct {
	Now       func() time.Time
	tables    map[string]*Table
	order     []*Table
	funcs     map[string]*CreateFunc
	plcache   map[string]*plBlock
	stmts     map[string]any
	seq       int64
	nextTx    int64
	active    []*Tx
	OnCommit  func(tx *Tx, ch []Change)
	Stats     map[string]int64
	CommitSeq func() int64
}

func NewEngine(now func() time.Time) *Engine {
	return &Engine{Now: now, tables: map[string]*Table{}, funcs: map[string]*CreateFunc{}, plcache: map[string]*plBlock{}, stmts: map[string]any{}, Stats: map[string]int64{}}
}

func (e *Engine) Seq() int64 { return e.seq }

func (e *Engine) Begin(owner string, rr bool, explicit bool) *Tx {
	e.nextTx++
	tx := &Tx{id: e.nextTx, eng: e, Owner: owner, rr: rr, start: e.Now().UTC().Truncate(time.Microsecond), explicit: explicit}
	e.active = append(e.active, tx)
	return tx
}

func (e *Engine) finish(tx *Tx) {
	tx.Done = true
	tx.waitOn = nil
	for _, r := range tx.locked {
		out := r.locks[:0]
		for _, l := range r.locks {
			if l.tx != tx {
				out = append(out, l)
			}
		}
		r.locks = out
	}
	tx.locked = nil
	for i, a := range e.active {
		if a == tx {
			e.active = append(e.active[:i], e.active[i+1:]...)
			break
		}
	}
}

func (e *Engine) Commit(tx *Tx) error {
	if tx.Done {
		return pgErr("25P01", "there is no transaction in progress")
	}
	if tx.Aborted {
		e.Rollback(tx)
		return nil
	}
	var ch []Change
	if len(tx.writes) > 0 {
		e.seq++
		seen := map[*Row]bool{}
		for _, w := range tx.writes {
			if seen[w.r] || w.r.ptx != tx {
				continue
			}
			seen[w.r] = true
			c := Change{Table: w.t, RowID: w.r.id, Old: w.r.committed(), New: w.r.pdata}
			if c.Old == nil && c.New == nil {
				w.r.ptx = nil
				continue
			}
			w.r.vers = append(w.r.vers, version{e.seq, w.r.pdata})
			w.r.ptx, w.r.pdata = nil, nil
			ch = append(ch, c)
		}
	}
	e.finish(tx)
	if len(ch) > 0 && e.OnCommit != nil {
		e.OnCommit(tx, ch)
	}
	return nil
}

func (e *Engine) Rollback(tx *Tx) {
	if tx.Done {
		return
	}
	e.undoTo(tx, 0)
	e.finish(tx)
}

func (e *Engine) undoTo(tx *Tx, mark int) {
	for i := len(tx.writes) - 1; i >= mark; i-- {
		w := tx.writes[i]
		w.r.ptx, w.r.pdata = w.ptx, w.pdata
		if w.isNew {
			for k := len(w.t.rows) - 1; k >= 0; k-- {
				if w.t.rows[k] == w.r {
					w.t.rows = append(w.t.rows[:k], w.t.rows[k+1:]...)
					break
				}
			}
		}
	}
	tx.writes = tx.writes[:mark]
}

type waitError struct{ on *Tx }

func (w *waitError) Error() string { return "wait" }

func (e *Engine) lockRow(tx *Tx, r *Row, m lockMode) *Tx {
	have := -1
	for i, l := range r.locks {
		if l.tx == tx {
			have = i
			continue
		}
		if lockConflict(l.mode, m) {
			return l.tx
		}
	}
	if r.ptx != nil && r.ptx != tx && have < 0 && m > lkKeyShare {
		return r.ptx
	}
	if have >= 0 {
		if r.locks[have].mode < m {
			r.locks[have].mode = m
		}
		return nil
	}
	r.locks = append(r.locks, rowLock{tx, m})
	tx.locked = append(tx.locked, r)
	return nil
}

func (e *Engine) setPending(tx *Tx, t *Table, r *Row, data []any, isNew bool) {
	tx.writes = append(tx.writes, undo{t, r, r.ptx, r.pdata, isNew})
	r.ptx, r.pdata = tx, data
	if data != nil {
		for ci := range t.cols {
			if m, ok := t.look[ci]; ok {
				addRow(m, hashKey(data[ci]), r)
			}
		}
		for _, u := range t.uniques {
			if k, ok := u.key(data); ok {
				addRow(u.m, k, r)
			}
		}
	}
}

func (u *uniqueIdx) key(data []any) (string, bool) {
	k := ""
	for _, c := range u.cols {
		if data[c] == nil {
			return "", false
		}
		k += hashKey(data[c]) + "\x01"
	}
	return k, true
}

// conflictRow finds a row that conflicts with data on u; wait != nil: the answer depends on that transaction.
func (x *exec) conflictRow(t *Table, u *uniqueIdx, self *Row, data []any) (c *Row, wait *Tx, err error) {
	if u.where != nil {
		ok, err := x.rowPred(t, u.where, data)
		if err != nil || !ok {
			return nil, nil, err
		}
	}
	k, ok := u.key(data)
	if !ok {
		return nil, nil, nil
	}
	same := func(d []any) (bool, error) {
		if d == nil {
			return false, nil
		}
		k2, ok := u.key(d)
		if !ok || k2 != k {
			return false, nil
		}
		if u.where != nil {
			return x.rowPred(t, u.where, d)
		}
		return true, nil
	}
	cands := append([]*Row(nil), u.m[k]...)
	sort.Slice(cands, func(i, j int) bool { return cands[i].id < cands[j].id })
	for _, r := range cands {
		if r == self {
			continue
		}
		cs, err := same(r.committed())
		if err != nil {
			return nil, nil, err
		}
		if r.ptx == nil {
			if cs {
				return r, nil, nil
			}
			continue
		}
		ps, err := same(r.pdata)
		if err != nil {
			return nil, nil, err
		}
		if r.ptx == x.tx {
			if ps {
				return r, nil, nil
			}
			continue
		}
		if cs && ps {
			return r, nil, nil
		}
		if cs || ps {
			return nil, r.ptx, nil
		}
	}
	return nil, nil, nil
}

func (x *exec) rowPred(t *Table, e Expr, data []any) (bool, error) {
	en := &env{x: x, b: []*binding{{alias: t.name, cols: t.names, row: data}}}
	v, err := en.eval(e)
	if err != nil {
		return false, err
	}
	return v == true, nil
}

// ---- read access for oracles

func (e *Engine) Table(name string) *Table { return e.tables[name] }
func (t *Table) Name() string              { return t.name }
func (t *Table) Col(name string) int {
	i, ok := t.colIdx[name]
	if !ok {
		panic(unsup("oracle: no column %s.%s", t.name, name))
	}
	return i
}
func (t *Table) HasCol(name string) bool { _, ok := t.colIdx[name]; return ok }

// EachCommitted calls f for every committed row in insertion order.
func (t *Table) EachCommitted(f func(id int64, d []any)) {
	for _, r := range t.rows {
		if d := r.committed(); d != nil {
			f(r.id, d)
		}
	}
}
func (t *Table) CountCommitted() int {
	n := 0
	t.EachCommitted(func(int64, []any) { n++ })
	return n
}

// Text renders a stored value ("" for NULL).
func Text(v any) string {
	if v == nil {
		return ""
	}
	return textOf(v)
}
func IsNull(v any) bool { return v == nil }
func Time(v any) (time.Time, bool) {
	if t, ok := v.(Ts); ok {
		return t.t, true
	}
	return time.Time{}, false
}
func JSONMap(v any) map[string]any {
	if j, ok := v.(Json); ok {
		if m, ok := j.v.(map[string]any); ok {
			return m
		}
	}
	return nil
}
func Int(v any) int64 {
	if i, ok := v.(int64); ok {
		return i
	}
	if n, ok := v.(Num); ok {
		return n.d.IntPart()
	}
	return 0
}
func (e *Engine) ActiveTx() int { return len(e.active) }

// Tamper edits a committed row in place behind the database's back (an intruder with
// superuser rights): no triggers, no constraints.
func (e *Engine) Tamper(table string, rowID int64, col string, v any, del bool) bool {
	t := e.tables[table]
	for _, r := range t.rows {
		if r.id != rowID || r.committed() == nil {
			continue
		}
		e.seq++
		if del {
			r.vers = append(r.vers, version{e.seq, nil})
			return true
		}
		d := append([]any(nil), r.committed()...)
		ci := t.Col(col)
		nv, err := coerce(v, t.cols[ci].typ)
		if err != nil {
			panic(err)
		}
		d[ci] = nv
		r.vers = append(r.vers, version{e.seq, d})
		if m, ok := t.look[ci]; ok {
			addRow(m, hashKey(d[ci]), r)
		}
		return true
	}
	return false
}

// Put replaces a row as it is stored (nil deletes it), with superuser rights too.
func (e *Engine) Put(table string, rowID int64, data []any) {
	t := e.tables[table]
	for _, r := range t.rows {
		if r.id == rowID {
			e.seq++
			r.vers = append(r.vers, version{e.seq, data})
			for ci, m := range t.look {
				if data != nil {
					addRow(m, hashKey(data[ci]), r)
				}
			}
			return
		}
	}
}
