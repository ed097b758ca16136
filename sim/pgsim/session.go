package pgsim

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/lib/pq"
	migrate "github.com/rubenv/sql-migrate/sqlparse"
)

// Session is one database connection.
type Session struct {
	eng  *Engine
	name string
	tx   *Tx // explicit transaction
	itx  *Tx // implicit transaction of the statement in progress
	snap int64
}

func (e *Engine) NewSession(name string) *Session { return &Session{eng: e, name: name} }

// InTx reports whether the session has an open explicit transaction.
func (s *Session) InTx() bool { return s.tx != nil && !s.tx.Done }

func (s *Session) Begin(rr bool) error {
	if s.tx != nil {
		return pgErr("25001", "there is already a transaction in progress")
	}
	s.tx = s.eng.Begin(s.name, rr, true)
	return nil
}

func (s *Session) Commit() error {
	t := s.tx
	s.tx = nil
	if t == nil {
		return pgErr("25P01", "there is no transaction in progress")
	}
	if t.Aborted {
		s.eng.Rollback(t)
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	return s.eng.Commit(t)
}

// Abort rolls back whatever is open (connection lost, rollback, reset).
func (s *Session) Abort() {
	if s.itx != nil {
		s.eng.Rollback(s.itx)
		s.itx = nil
	}
	if s.tx != nil {
		s.eng.Rollback(s.tx)
		s.tx = nil
	}
}

// Exec runs one statement. A non-nil wait means that it must be run again when that transaction is over.
func (s *Session) Exec(sqlText string, params []any) (res *Result, wait *Tx, err error) {
	e := s.eng
	tx := s.tx
	if tx != nil && tx.Aborted {
		return nil, nil, pgErr("25P02", "current transaction is aborted, commands ignored until end of transaction block")
	}
	if tx == nil {
		if s.itx == nil {
			s.itx = e.Begin(s.name, false, false)
		}
		tx = s.itx
	}
	st := e.stmts[sqlText]
	if st == nil {
		st, err = parseStatement(sqlText)
		if err != nil {
			err = unsup("parse: %v in %q", err, sqlText)
		} else {
			e.stmts[sqlText] = st
		}
	}
	if err == nil {
		snap := e.seq
		if tx.rr {
			if tx.snap == 0 {
				tx.snap = e.seq + 1
			}
			snap = tx.snap - 1
		}
		mark := len(tx.writes)
		x := &exec{eng: e, tx: tx, params: params, snap: snap}
		res, err = x.run(st, nil)
		tx.waitOn = nil
		if err != nil {
			e.undoTo(tx, mark)
		}
		var w *waitError
		if errors.As(err, &w) {
			tx.waitOn = w.on
			e.Stats["lock_wait"]++
			for t, n := w.on, 0; t != nil && n < 1000; t, n = t.waitOn, n+1 {
				if t == tx {
					e.Stats["deadlock"]++
					tx.waitOn = nil
					err = pgErr("40P01", "deadlock detected")
					w = nil
					break
				}
			}
			if w != nil {
				return nil, w.on, nil
			}
		}
	}
	if err != nil {
		if s.itx != nil {
			e.Rollback(s.itx)
			s.itx = nil
		} else {
			tx.Aborted = true
		}
		return nil, nil, err
	}
	e.Stats["stmt"]++
	if s.itx != nil {
		t := s.itx
		s.itx = nil
		if err := e.Commit(t); err != nil {
			return nil, nil, err
		}
	}
	return res, nil, nil
}

// Params converts driver values the way lib/pq sends them: untyped text.
func Params(args []driver.NamedValue) []any {
	out := make([]any, len(args))
	for i, a := range args {
		switch v := a.Value.(type) {
		case nil:
		case int64:
			out[i] = Unk(fmt.Sprint(v))
		case float64:
			out[i] = Unk(fmtFloat(v))
		case bool:
			out[i] = Unk(fmt.Sprint(v))
		case []byte:
			if v != nil {
				out[i] = Unk(string(v))
			}
		case string:
			out[i] = Unk(v)
		case time.Time:
			out[i] = Unk(string(pq.FormatTimestamp(v)))
		default:
			panic(fmt.Sprintf("pgsim: parameter type %T", v))
		}
	}
	return out
}

func fmtFloat(v float64) string { return strconv.FormatFloat(v, 'f', -1, 64) }

// ResultValue converts a stored value the way lib/pq decodes it.
func ResultValue(v any) driver.Value {
	switch x := v.(type) {
	case nil, bool, int64, float64, string, []byte:
		return x
	case Unk:
		return string(x)
	case Ts:
		if x.kind == 'z' {
			return x.t.UTC()
		}
		t := x.t
		return time.Date(t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second(), t.Nanosecond(), zone0)
	}
	return []byte(textOf(v))
}

var zone0 = time.FixedZone("", 0)

// ---------------------------------------------------------------- database/sql driver

// Op is one database round trip, executed by the scheduler.
type Op struct {
	Node  string
	Kind  string // begin exec query commit copy
	SQL   string
	Sess  *Session
	wait  *Tx
	run   func() (*Tx, error)
	Write bool
}

// Ready reports whether the operation can make progress now.
func (o *Op) Ready() bool { return o.wait == nil || o.wait.Done }

// Step executes the operation; done=false: it waits for a lock.
func (o *Op) Step() (done bool, err error) {
	w, err := o.run()
	o.wait = w
	return w == nil, err
}

// Break drops the connection at the server side.
func (o *Op) Break() { o.Sess.Abort() }

func (o *Op) Waiting() bool { return o.wait != nil }

// Sched carries out operations: it blocks until the operation is finished, and returns a
// non-nil fault if the connection failed instead of (or after) it.
type Sched interface {
	DB(ctx context.Context, op *Op) (fault error)
	DBDead(node string) error // non-nil: the node is gone
}

type Connector struct {
	Eng   *Engine
	Node  string
	Sched Sched
	n     int
}

func (c *Connector) Connect(ctx context.Context) (driver.Conn, error) {
	if err := c.Sched.DBDead(c.Node); err != nil {
		return nil, err
	}
	c.n++
	return &Conn{c: c, s: c.Eng.NewSession(fmt.Sprintf("%s.%d", c.Node, c.n))}, nil
}
func (c *Connector) Driver() driver.Driver { return drv{} }

type drv struct{}

func (drv) Open(string) (driver.Conn, error) { return nil, errors.New("pgsim: use the connector") }

type Conn struct {
	c   *Connector
	s   *Session
	bad bool
}

// ConnReset is what a client sees when the server's answer is lost.
func ConnReset() error {
	return &net.OpError{Op: "read", Net: "tcp", Err: os.NewSyscallError("read", syscall.ECONNRESET)}
}

func (c *Conn) do(ctx context.Context, kind, sql string, run func() (*Tx, error)) error {
	if c.bad {
		return driver.ErrBadConn
	}
	if err := ctx.Err(); err != nil {
		return err
	}
	var err error
	op := &Op{Node: c.c.Node, Kind: kind, SQL: sql, Sess: c.s}
	op.run = func() (*Tx, error) {
		var w *Tx
		w, err = run()
		return w, err
	}
	if f := c.c.Sched.DB(ctx, op); f != nil {
		c.bad = true
		return f
	}
	return err
}

func (c *Conn) IsValid() bool { return !c.bad }
func (c *Conn) Close() error {
	c.s.Abort()
	c.bad = true
	return nil
}
func (c *Conn) Ping(ctx context.Context) error {
	return c.do(ctx, "ping", "", func() (*Tx, error) { return nil, nil })
}
func (c *Conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *Conn) BeginTx(ctx context.Context, o driver.TxOptions) (driver.Tx, error) {
	// sql.LevelRepeatableRead = 4, LevelSnapshot = 5, LevelSerializable = 6
	rr := o.Isolation >= 4
	err := c.do(ctx, "begin", "BEGIN", func() (*Tx, error) { return nil, c.s.Begin(rr) })
	if err != nil {
		return nil, err
	}
	return &tx{c}, nil
}

type tx struct{ c *Conn }

func (t *tx) Commit() error {
	return t.c.do(context.Background(), "commit", "COMMIT", func() (*Tx, error) { return nil, t.c.s.Commit() })
}

// Rollback takes effect at once: database/sql calls it with locks held.
func (t *tx) Rollback() error {
	if t.c.bad {
		return driver.ErrBadConn
	}
	t.c.s.Abort()
	return nil
}

func (c *Conn) query(ctx context.Context, kind, q string, args []driver.NamedValue) (*Result, error) {
	ps := Params(args)
	var res *Result
	err := c.do(ctx, kind, q, func() (*Tx, error) {
		r, w, err := c.s.Exec(q, ps)
		res = r
		return w, err
	})
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (c *Conn) ExecContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	r, err := c.query(ctx, "exec", q, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(max(r.Affected, 0)), nil
}
func (c *Conn) QueryContext(ctx context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	r, err := c.query(ctx, "query", q, args)
	if err != nil {
		return nil, err
	}
	return &rows{r: r}, nil
}

type rows struct {
	r *Result
	i int
}

func (r *rows) Columns() []string { return r.r.Cols }
func (r *rows) Close() error      { return nil }
func (r *rows) Next(dest []driver.Value) error {
	if r.i >= len(r.r.Rows) {
		return io.EOF
	}
	for k, v := range r.r.Rows[r.i] {
		dest[k] = ResultValue(v)
	}
	r.i++
	return nil
}

func (c *Conn) Prepare(q string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), q)
}
func (c *Conn) PrepareContext(ctx context.Context, q string) (driver.Stmt, error) {
	if c.bad {
		return nil, driver.ErrBadConn
	}
	st := &stmt{c: c, q: q}
	if strings.HasPrefix(strings.ToUpper(strings.TrimSpace(q)), "COPY ") {
		st.copy = true
		toks, err := lex(q)
		if err != nil {
			return nil, err
		}
		p := &parser{src: q, toks: toks}
		p.want("copy")
		st.table = tblName(p.qname())
		st.cols = p.identList()
	}
	return st, nil
}

type stmt struct {
	c     *Conn
	q     string
	copy  bool
	table string
	cols  []string
	rows  [][]any
}

func (s *stmt) Close() error  { return nil }
func (s *stmt) NumInput() int { return -1 }
func (s *stmt) Exec([]driver.Value) (driver.Result, error) {
	return nil, errors.New("pgsim: Exec without context")
}
func (s *stmt) Query([]driver.Value) (driver.Rows, error) {
	return nil, errors.New("pgsim: Query without context")
}
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if !s.copy {
		return s.c.ExecContext(ctx, s.q, args)
	}
	if len(args) > 0 {
		s.rows = append(s.rows, Params(args))
		return driver.RowsAffected(0), nil
	}
	if len(s.rows) == 0 {
		return driver.RowsAffected(0), nil
	}
	// the whole COPY is one round trip
	q, ps := s.copyInsert()
	s.rows = nil
	var n int64
	err := s.c.do(ctx, "copy", s.q, func() (*Tx, error) {
		r, w, err := s.c.s.Exec(q, ps)
		if r != nil {
			n = r.Affected
		}
		return w, err
	})
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}
func (s *stmt) copyInsert() (string, []any) {
	var b strings.Builder
	fmt.Fprintf(&b, "INSERT INTO blnk.%s (%s) VALUES ", s.table, strings.Join(s.cols, ","))
	var ps []any
	for i, r := range s.rows {
		if i > 0 {
			b.WriteByte(',')
		}
		b.WriteByte('(')
		for k, v := range r {
			if k > 0 {
				b.WriteByte(',')
			}
			ps = append(ps, v)
			fmt.Fprintf(&b, "$%d", len(ps))
		}
		b.WriteByte(')')
	}
	return b.String(), ps
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, args)
}

// ---------------------------------------------------------------- migrations

// Migrate applies the repository's migrations from dir.
func (e *Engine) Migrate(dir string) error {
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	var names []string
	for _, f := range ents {
		if strings.HasSuffix(f.Name(), ".sql") {
			names = append(names, f.Name())
		}
	}
	sort.Strings(names)
	s := e.NewSession("migrate")
	for _, n := range names {
		f, err := os.Open(dir + "/" + n)
		if err != nil {
			return err
		}
		pm, err := migrate.ParseMigration(f)
		f.Close()
		if err != nil {
			return fmt.Errorf("%s: %w", n, err)
		}
		for _, st := range pm.UpStatements {
			for _, one := range splitStatements(st) {
				if _, _, err := s.Exec(one, nil); err != nil {
					return fmt.Errorf("%s: %w\n%s", n, err, one)
				}
			}
		}
	}
	e.stmts = map[string]any{}
	for _, t := range e.order {
		for i, c := range t.cols {
			if c.dropped {
				continue
			}
			if strings.HasSuffix(c.name, "_id") || c.name == "id" || c.name == "reference" || c.name == "source" || c.name == "destination" || c.name == "parent_transaction" {
				t.addLook(i)
			}
		}
	}
	return nil
}

// splitStatements splits on top-level semicolons.
func splitStatements(src string) []string {
	toks, err := lex(src)
	if err != nil {
		return []string{src}
	}
	var out []string
	start := -1
	for _, t := range toks {
		if t.k == tEOF {
			if start >= 0 {
				out = append(out, src[start:])
			}
			break
		}
		if start < 0 {
			if t.k == tOp && t.s == ";" {
				continue
			}
			start = t.pos
		}
		if t.k == tOp && t.s == ";" {
			out = append(out, src[start:t.pos])
			start = -1
		}
	}
	return out
}

// AbortOwner rolls back the transactions of every session whose name has the prefix.
func (e *Engine) AbortOwner(prefix string) {
	for _, t := range append([]*Tx(nil), e.active...) {
		if strings.HasPrefix(t.Owner, prefix) {
			e.Rollback(t)
		}
	}
}
