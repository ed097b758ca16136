package core

import (
	"context"
	"database/sql/driver"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"net"
	"net/http"
	"os"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"testing/synctest"
	"time"

	"github.com/alicebob/miniredis/v2"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
	"github.com/blnkfinance/blnk/internal/zzsim/rt"
)

// Faults are the run's fault rates (per million decisions) and budgets.
type Faults struct {
	DBPre, DBPost, DBStall                int // connection lost before / after a statement, slow statement
	RedisPre, RedisPost, RedisStall       int
	HTTPPre, HTTPPost, HTTPStall, HTTP5xx int
	CommitPost, CommitCrash               int // the reply to a COMMIT is lost, the node dies right after it
	Crash, NodeStall                      int // per scheduling step
	RedisDown, DBDown                     int // outage per scheduling step
	RedisWipe                             int
	MaxCrash, MaxOutage, MaxWipe          int
	Budget                                int // total faults
	StallMax                              time.Duration
}

// Op is one action waiting for the scheduler.
type Op struct {
	seq       int
	Inc       *Inc
	actor     string
	kind      string
	desc      string
	ready     func() bool
	step      func() bool // true: finished
	pre, post func()      // apply the fault instead of / after executing
	faults    bool
	notBefore time.Time
	born      int
	gone      bool
	prio      int
	decided   bool
}

// Inc is one incarnation of a node.
type Inc struct {
	Name    string // node
	ID      string // node/incarnation
	Dead    bool
	Up      bool
	DiedCh  chan struct{}
	stall   time.Time
	conns   []*rconn
	dbErrs  int
	Data    any
	Crashes int
}

type World struct {
	C     *Choices
	F     Faults
	Eng   *pgsim.Engine
	Mini  *miniredis.Miniredis
	Epoch time.Time

	incs    map[string]*Inc
	Cur     map[string]*Inc
	names   []string
	parked  []*Op
	arrive  chan struct{}
	opSeq   int
	Step    int
	MaxStep int

	// StartNode boots a node; it runs in a goroutine that belongs to the node.
	StartNode func(inc *Inc)
	// HTTP answers the service's outgoing requests.
	HTTP func(node string, req *http.Request, body []byte) (status int, resp []byte)
	// OnStep runs after each executed operation: invariants.
	OnStep func()
	// OnRedis is told of the commands a node has just run on Redis, once they are done.
	// Only commands that concern the keys it watches are reported: see WatchRedis.
	OnRedis func(actor string, cmds [][]string)
	// DBActor is the label of the goroutine whose database operation is being executed.
	DBActor string
	// OnHTTP is told of the calls the nodes make.
	OnHTTP     func(actor, url string)
	WatchRedis func(raw string) bool
	redisRan   []redisRun
	// OnCrash is told of every node crash.
	OnCrash func(inc *Inc)

	FaultsOn  bool
	Used      map[string]int // faults injected by kind
	OpKinds   map[string]int
	crashes   int
	outages   int
	wipes     int
	used      int
	dbDown    time.Time
	redisDown time.Time
	restarts  []restart
	policy    int
	last      string
	lastFF    time.Time
	listener  *memListener
	Log       []string
	LogOn     bool
	hash      uint64
	connN     int
	FaultLog  []FaultRec
	Failure   error // machinery failure
	prios     map[string]int
	TimeSkew  time.Duration
	LockWaits int
	DrainAll  bool
	rounds    int
}

type restart struct {
	at   time.Time
	name string
}

func NewWorld(c *Choices) *World {
	w := &World{C: c, incs: map[string]*Inc{}, Cur: map[string]*Inc{}, arrive: make(chan struct{}, 1),
		Used: map[string]int{}, OpKinds: map[string]int{}, prios: map[string]int{}, hash: 14695981039346656037, MaxStep: 400000}
	w.Epoch = time.Now()
	w.lastFF = w.Epoch
	w.listener = &memListener{ch: make(chan net.Conn, 1024), closed: make(chan struct{})}
	w.Eng = pgsim.NewEngine(func() time.Time { return time.Now().Add(w.TimeSkew) })
	rt.Dial = w.dial
	rt.Listen = func(network, addr string) (net.Listener, error) { return w.listener, nil }
	rt.RoundTrip = w.roundTrip
	w.Mini = miniredis.NewMiniRedis()
	if err := w.Mini.Start(); err != nil {
		panic(err)
	}
	w.policy = c.W("cfg", 1, 4, 3, 3)
	return w
}

func (w *World) Now() time.Duration { return time.Since(w.Epoch) }

func (w *World) Logf(f string, a ...any) {
	s := fmt.Sprintf(f, a...)
	h := fnv.New64a()
	h.Write([]byte(s))
	w.hash = (w.hash ^ h.Sum64()) * 1099511628211
	if w.LogOn {
		w.Log = append(w.Log, fmt.Sprintf("%6d %12s %s", w.Step, w.Now().Round(time.Microsecond), s))
	}
}

// Hash identifies the execution: the order of all operations so far.
func (w *World) Hash() uint64 { return w.hash }

// ---------------------------------------------------------------- nodes

func (w *World) AddNode(name string) *Inc {
	w.names = append(w.names, name)
	return w.boot(name)
}

func (w *World) boot(name string) *Inc {
	n := 0
	if old := w.Cur[name]; old != nil {
		n = old.Crashes
	}
	inc := &Inc{Name: name, ID: fmt.Sprintf("%s/%d", name, n), DiedCh: make(chan struct{}), Crashes: n}
	w.incs[inc.ID] = inc
	w.Cur[name] = inc
	w.Logf("boot %s", inc.ID)
	go func() {
		rt.Label(inc.ID)
		w.StartNode(inc)
	}()
	return inc
}

func (w *World) Names() []string { return w.names }

// Go runs f in a goroutine that belongs to the incarnation.
func (w *World) Go(inc *Inc, actor string, f func()) {
	go func() {
		rt.Label(inc.ID + "|" + actor)
		f()
	}()
}

func splitLabel(l string) (node, actor string) {
	if i := strings.IndexByte(l, '|'); i >= 0 {
		return l[:i], l
	}
	return l, l
}

func (w *World) me() (*Inc, string) {
	n, a := splitLabel(rt.Node())
	return w.incs[n], a
}

// Crash kills a node: nothing it does from now on has any effect.
func (w *World) Crash(inc *Inc) {
	if inc.Dead {
		return
	}
	inc.Dead = true
	inc.Up = false
	inc.Crashes++
	w.Logf("CRASH %s", inc.ID)
	close(inc.DiedCh)
	keep := w.parked[:0]
	for _, o := range w.parked {
		if o.Inc == inc {
			o.gone = true
			continue
		}
		keep = append(keep, o)
	}
	w.parked = keep
	w.Eng.AbortOwner(inc.ID + ".")
	for _, c := range inc.conns {
		c.srv.close()
	}
	if w.OnCrash != nil {
		w.OnCrash(inc)
	}
}

// Restart boots the node again.
func (w *World) Restart(name string) {
	if c := w.Cur[name]; c != nil && !c.Dead {
		return
	}
	w.boot(name)
}

// ---------------------------------------------------------------- parking

func (w *World) park(o *Op) {
	w.opSeq++
	o.seq = w.opSeq
	o.born = w.Step
	w.parked = append(w.parked, o)
	select {
	case w.arrive <- struct{}{}:
	default:
	}
}

func (w *World) unpark(o *Op) {
	o.gone = true
	for i, p := range w.parked {
		if p == o {
			w.parked = append(w.parked[:i:i], w.parked[i+1:]...)
			return
		}
	}
}

func forever() { select {} }

// Yield waits for its turn: a scheduling point of a simulated client.
func (w *World) Yield(actor, desc string) {
	ch := make(chan struct{})
	w.park(&Op{actor: actor, kind: "client", desc: desc, step: func() bool { close(ch); return true }})
	<-ch
}

// ---------------------------------------------------------------- database

func (w *World) DBDead(node string) error {
	inc := w.incs[node]
	if inc == nil || inc.Dead {
		if inc != nil {
			inc.dbErrs++
			if inc.dbErrs > 20 {
				forever()
			}
		}
		return pgsim.ConnReset()
	}
	if time.Now().Before(w.dbDown) {
		return &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	return nil
}

func short(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 90 {
		s = s[:90]
	}
	return s
}

func (w *World) DB(ctx context.Context, op *pgsim.Op) error {
	if op.Node == "" {
		return w.dbNow(op)
	}
	if err := w.DBDead(op.Node); err != nil {
		op.Break()
		return err
	}
	inc := w.incs[op.Node]
	_, actor := splitLabel(rt.Node())
	done := make(chan error, 1)
	o := &Op{Inc: inc, actor: actor, kind: "db", faults: op.Kind != "ping"}
	o.desc = op.Kind + " " + short(op.SQL)
	if op.Kind == "begin" || op.Kind == "commit" || op.Kind == "ping" {
		o.desc = op.Kind
	}
	o.ready = op.Ready
	o.step = func() bool {
		w.DBActor = actor
		fin, err := op.Step()
		if !fin {
			w.LockWaits++
			w.Logf("  %s waits for a row lock", inc.ID)
			return false
		}
		if err != nil {
			var u pgsim.Unsupported
			if errors.As(err, &u) {
				w.Failure = err
			}
			w.Logf("  -> %v", err)
		}
		done <- nil
		return true
	}
	o.pre = func() {
		op.Break()
		done <- driver.ErrBadConn
	}
	o.post = func() {
		w.DBActor = actor
		fin, err := op.Step()
		_ = err
		if !fin {
			w.Logf("  not executed: it waited for a lock")
		}
		op.Break()
		done <- pgsim.ConnReset()
	}
	w.park(o)
	select {
	case err := <-done:
		return err
	case <-ctx.Done():
		select {
		case err := <-done:
			return err
		default:
		}
		w.unpark(o)
		op.Break()
		w.Logf("db op of %s cancelled: %s", inc.ID, o.desc)
		return ctx.Err()
	}
}

func (w *World) dbNow(op *pgsim.Op) error {
	for {
		done, _ := op.Step()
		if done {
			return nil
		}
		return errors.New("simulator session would block")
	}
}

// ---------------------------------------------------------------- redis

type memListener struct {
	ch     chan net.Conn
	closed chan struct{}
}

func (l *memListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}
func (l *memListener) Close() error {
	select {
	case <-l.closed:
	default:
		close(l.closed)
	}
	return nil
}
func (l *memListener) Addr() net.Addr { return addr }

var addr = &net.TCPAddr{IP: net.IPv4(10, 0, 0, 1), Port: 6379}

type rconn struct {
	w    *World
	inc  *Inc
	id   int
	out  []byte
	op   *Op
	in   []byte
	rd   chan struct{}
	srv  *sconn
	err  error
	dl   time.Time
	lost bool
}
type redisRun struct {
	actor string
	raw   string
}

// ran reports what Redis has run since the last decision.
func (w *World) ran() {
	l := w.redisRan
	w.redisRan = nil
	for _, r := range l {
		var cmds [][]string
		for s := r.raw; len(s) > 0; {
			args, rest := respOne(s)
			if args == nil {
				break
			}
			cmds = append(cmds, args)
			s = rest
		}
		w.OnRedis(r.actor, cmds)
	}
}

// respOne parses one command.
func respOne(s string) ([]string, string) {
	if len(s) == 0 || s[0] != '*' {
		return nil, ""
	}
	i := strings.Index(s, "\r\n")
	if i < 0 {
		return nil, ""
	}
	n, _ := strconv.Atoi(s[1:i])
	s = s[i+2:]
	args := make([]string, 0, n)
	for k := 0; k < n; k++ {
		i := strings.Index(s, "\r\n")
		if i < 0 || s[0] != '$' {
			return nil, ""
		}
		l, _ := strconv.Atoi(s[1:i])
		s = s[i+2:]
		if len(s) < l+2 {
			return nil, ""
		}
		args = append(args, s[:l])
		s = s[l+2:]
	}
	return args, s
}

type sconn struct {
	c      *rconn
	in     []byte
	rd     chan struct{}
	closed bool
}

// dead is a connection of a crashed node: whoever uses it stops there. (A refused dial would be
// remembered by the client's pool, which then fails every call without dialling again.)
type dead struct{ net.Conn }

func (dead) Read([]byte) (int, error)         { forever(); return 0, io.EOF }
func (dead) Write([]byte) (int, error)        { forever(); return 0, io.EOF }
func (dead) Close() error                     { return nil }
func (dead) LocalAddr() net.Addr              { return addr }
func (dead) RemoteAddr() net.Addr             { return addr }
func (dead) SetDeadline(time.Time) error      { return nil }
func (dead) SetReadDeadline(time.Time) error  { return nil }
func (dead) SetWriteDeadline(time.Time) error { return nil }

func (w *World) dial(ctx context.Context, network, a string) (net.Conn, error) {
	inc, _ := w.me()
	if inc == nil {
		return nil, fmt.Errorf("simulator: dial %s from no node", a)
	}
	if inc.Dead {
		return dead{}, nil
	}
	if !strings.HasPrefix(a, "redis:") {
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	if time.Now().Before(w.redisDown) {
		return nil, &net.OpError{Op: "dial", Net: network, Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	}
	w.connN++
	c := &rconn{w: w, inc: inc, id: w.connN, rd: make(chan struct{}, 1)}
	c.srv = &sconn{c: c, rd: make(chan struct{}, 1)}
	inc.conns = append(inc.conns, c)
	w.listener.ch <- c.srv
	return c, nil
}

func sig(ch chan struct{}) {
	select {
	case ch <- struct{}{}:
	default:
	}
}

func reset(op string) error {
	return &net.OpError{Op: op, Net: "tcp", Err: os.NewSyscallError(op, syscall.ECONNRESET)}
}

// asynq names its servers by process id, which is the one thing that differs from
// one execution of a seed to the next.
var pidMark = fmt.Sprintf(":%d:", os.Getpid())

// respCmds summarises the commands in a client's bytes.
func respCmds(b []byte) string {
	s := string(b)
	var out []string
	for len(s) > 0 && len(out) < 4 {
		if s[0] != '*' {
			break
		}
		i := strings.Index(s, "\r\n")
		if i < 0 {
			break
		}
		var n int
		fmt.Sscan(s[1:i], &n)
		s = s[i+2:]
		var args []string
		for k := 0; k < n; k++ {
			i := strings.Index(s, "\r\n")
			if i < 0 || s[0] != '$' {
				return strings.Join(out, "; ")
			}
			var l int
			fmt.Sscan(s[1:i], &l)
			s = s[i+2:]
			if len(s) < l+2 {
				return strings.Join(out, "; ")
			}
			if len(args) < 4 {
				a := s[:l]
				a = strings.ReplaceAll(a, pidMark, ":PID:")
				if len(a) > 60 {
					a = a[:60]
				}
				a = strings.Map(func(r rune) rune {
					if r < 32 || r > 126 {
						return '.'
					}
					return r
				}, a)
				args = append(args, a)
			}
			s = s[l+2:]
		}
		out = append(out, strings.Join(args, " "))
	}
	return strings.Join(out, "; ")
}

func (c *rconn) Write(p []byte) (int, error) {
	if c.inc.Dead {
		return len(p), nil
	}
	if c.err != nil {
		return 0, c.err
	}
	c.out = append(c.out, p...)
	if c.op == nil {
		_, actor := splitLabel(rt.Node())
		o := &Op{Inc: c.inc, actor: actor, kind: "redis", faults: true}
		o.desc = respCmds(c.out)
		deliver := func() {
			c.op = nil
			if c.w.OnRedis != nil && c.w.WatchRedis(string(c.out)) {
				c.w.redisRan = append(c.w.redisRan, redisRun{actor, string(c.out)})
			}
			c.srv.in = append(c.srv.in, c.out...)
			c.out = nil
			c.w.forward()
			sig(c.srv.rd)
		}
		o.step = func() bool { deliver(); return true }
		o.pre = func() { c.break_() }
		o.post = func() {
			c.lost = true
			deliver()
			c.err = reset("read")
			sig(c.rd)
		}
		c.op = o
		c.w.park(o)
	}
	return len(p), nil
}

func (c *rconn) break_() {
	c.op = nil
	c.out = nil
	c.lost = true
	c.err = reset("read")
	sig(c.rd)
	c.srv.close()
}

func (c *rconn) Read(p []byte) (int, error) {
	for {
		if c.inc.Dead {
			forever()
		}
		if len(c.in) > 0 {
			n := copy(p, c.in)
			c.in = c.in[n:]
			return n, nil
		}
		if c.err != nil {
			return 0, c.err
		}
		if c.dl.IsZero() {
			<-c.rd
			continue
		}
		d := time.Until(c.dl)
		if d <= 0 {
			return 0, os.ErrDeadlineExceeded
		}
		t := time.NewTimer(d)
		select {
		case <-c.rd:
			t.Stop()
		case <-t.C:
			if c.inc.Dead {
				forever()
			}
			if len(c.in) == 0 && c.err == nil {
				return 0, os.ErrDeadlineExceeded
			}
		}
	}
}
func (c *rconn) Close() error {
	if c.err == nil {
		c.err = net.ErrClosed
	}
	if c.op != nil {
		// bytes already written may still reach the server: the scheduler decides
		op := c.op
		out := c.out
		op.step = func() bool {
			if c.w.OnRedis != nil && c.w.WatchRedis(string(out)) {
				c.w.redisRan = append(c.w.redisRan, redisRun{op.actor, string(out)})
			}
			c.srv.in = append(c.srv.in, out...)
			c.w.forward()
			sig(c.srv.rd)
			c.srv.closed = true
			return true
		}
		op.pre = func() { c.srv.close() }
		op.post = op.pre
		c.op = nil
		c.lost = true
	} else {
		c.srv.close()
	}
	sig(c.rd)
	return nil
}
func (c *rconn) LocalAddr() net.Addr                { return addr }
func (c *rconn) RemoteAddr() net.Addr               { return addr }
func (c *rconn) SetDeadline(t time.Time) error      { c.dl = t; sig(c.rd); return nil }
func (c *rconn) SetReadDeadline(t time.Time) error  { c.dl = t; sig(c.rd); return nil }
func (c *rconn) SetWriteDeadline(t time.Time) error { return nil }

func (s *sconn) Read(p []byte) (int, error) {
	for {
		if len(s.in) > 0 {
			n := copy(p, s.in)
			s.in = s.in[n:]
			return n, nil
		}
		if s.closed {
			return 0, io.EOF
		}
		<-s.rd
	}
}
func (s *sconn) Write(p []byte) (int, error) {
	if s.c.lost || s.c.inc.Dead {
		return len(p), nil
	}
	s.c.in = append(s.c.in, p...)
	sig(s.c.rd)
	return len(p), nil
}
func (s *sconn) close() {
	s.closed = true
	sig(s.rd)
}
func (s *sconn) Close() error {
	s.closed = true
	if s.c.err == nil {
		s.c.err = io.EOF
	}
	sig(s.c.rd)
	return nil
}
func (s *sconn) LocalAddr() net.Addr                { return addr }
func (s *sconn) RemoteAddr() net.Addr               { return addr }
func (s *sconn) SetDeadline(t time.Time) error      { return nil }
func (s *sconn) SetReadDeadline(t time.Time) error  { return nil }
func (s *sconn) SetWriteDeadline(t time.Time) error { return nil }

// forward lets Redis's keys expire according to simulated time.
func (w *World) forward() {
	now := time.Now()
	if d := now.Sub(w.lastFF); d > 0 {
		w.Mini.FastForward(d)
		w.lastFF = now
	}
}

// ---------------------------------------------------------------- outgoing HTTP

func (w *World) roundTrip(req *http.Request) (*http.Response, error) {
	inc, actor := w.me()
	if inc == nil {
		return nil, errors.New("simulator: request from no node")
	}
	if inc.Dead {
		forever()
	}
	var body []byte
	if req.Body != nil {
		body, _ = io.ReadAll(req.Body)
		req.Body.Close()
	}
	type res struct {
		status int
		body   []byte
		err    error
	}
	if w.OnHTTP != nil {
		w.OnHTTP(inc.ID+"|"+actor, req.URL.String())
	}
	done := make(chan res, 1)
	o := &Op{Inc: inc, actor: actor, kind: "http", faults: true, desc: req.Method + " " + req.URL.String()}
	refused := &net.OpError{Op: "dial", Net: "tcp", Err: os.NewSyscallError("connect", syscall.ECONNREFUSED)}
	o.step = func() bool {
		st, b := 200, []byte("{}")
		if w.HTTP != nil {
			st, b = w.HTTP(inc.ID, req, body)
		}
		if st == 0 {
			done <- res{err: refused}
		} else {
			done <- res{status: st, body: b}
		}
		return true
	}
	o.pre = func() { done <- res{err: refused} }
	o.post = func() {
		if w.HTTP != nil {
			w.HTTP(inc.ID, req, body)
		}
		done <- res{err: reset("read")}
	}
	w.park(o)
	select {
	case r := <-done:
		if inc.Dead {
			forever()
		}
		if r.err != nil {
			return nil, r.err
		}
		return &http.Response{StatusCode: r.status, Status: fmt.Sprintf("%d %s", r.status, http.StatusText(r.status)), Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1,
			Header: http.Header{"Content-Type": {"application/json"}}, Body: io.NopCloser(strings.NewReader(string(r.body))), ContentLength: int64(len(r.body)), Request: req}, nil
	case <-req.Context().Done():
		w.unpark(o)
		return nil, req.Context().Err()
	}
}

// ---------------------------------------------------------------- scheduler

// FaultRec is one injected fault.
type FaultRec struct {
	At    time.Duration
	Kind  string
	Node  string // incarnation; empty: all
	Actor string // empty: the whole node
	End   time.Duration
}

func (w *World) fault(kind, node, actor string, d time.Duration) {
	w.Used[kind]++
	w.used++
	w.FaultLog = append(w.FaultLog, FaultRec{At: w.Now(), Kind: kind, Node: node, Actor: actor, End: w.Now() + d})
}

// FaultCount is the number of faults so far.
func (w *World) FaultCount() int { return len(w.FaultLog) }

func (w *World) mayFault() bool {
	return w.FaultsOn && (w.F.Budget <= 0 || w.used < w.F.Budget)
}

func (w *World) stallFor(stream string) time.Duration {
	ds := []time.Duration{20 * time.Millisecond, 200 * time.Millisecond, time.Second, 4 * time.Second, 12 * time.Second, 35 * time.Second, 70 * time.Second}
	k := len(ds)
	if w.F.StallMax > 0 {
		k = sort.Search(len(ds), func(i int) bool { return ds[i] > w.F.StallMax })
	}
	return ds[w.C.N(stream, max(k, 1))]
}

// Run executes operations until done() holds, nothing is left to happen before the
// deadline, or the step limit is reached; it reports whether done() held.
func (w *World) Run(done func() bool, limit time.Duration) bool {
	deadline := time.Now().Add(limit)
	for {
		synctest.Wait()
		if len(w.redisRan) > 0 {
			w.ran()
		}
		w.rounds++
		if w.rounds%6000 == 0 {
			runtime.GC() // at a fixed point: automatic collection is off
		}
		rt.Step((w.C.Seed ^ uint64(w.rounds)*0xff51afd7ed558ccd) * 0xc4ceb9fe1a85ec53)
		if w.Failure != nil {
			return false
		}
		if done() {
			return true
		}
		if w.Step >= w.MaxStep {
			w.Failure = fmt.Errorf("step limit reached")
			return false
		}
		now := time.Now()
		if !now.Before(deadline) {
			return false
		}
		// restarts that are due
		for i := 0; i < len(w.restarts); i++ {
			if r := w.restarts[i]; !now.Before(r.at) {
				w.restarts = append(w.restarts[:i:i], w.restarts[i+1:]...)
				w.Restart(r.name)
				i--
			}
		}
		var cand []*Op
		next := deadline
		for _, r := range w.restarts {
			if r.at.Before(next) {
				next = r.at
			}
		}
		for _, o := range w.parked {
			nb := o.notBefore
			if o.Inc != nil && o.Inc.stall.After(nb) {
				nb = o.Inc.stall
			}
			if o.kind == "db" && w.dbDown.After(nb) {
				nb = w.dbDown
			}
			if nb.After(now) {
				if nb.Before(next) {
					next = nb
				}
				continue
			}
			if o.ready != nil && !o.ready() {
				continue
			}
			cand = append(cand, o)
		}
		if len(cand) == 0 {
			d := next.Sub(now)
			if d <= 0 {
				d = time.Microsecond
			}
			t := time.NewTimer(d)
			select {
			case <-w.arrive:
			case <-t.C:
			}
			t.Stop()
			continue
		}
		select {
		case <-w.arrive:
		default:
		}
		w.Step++
		if w.mayFault() && w.globalFault() {
			continue
		}
		o := w.choose(cand)
		if o.faults && !o.decided && w.mayFault() {
			o.decided = true
			if w.opFault(o) {
				continue
			}
		}
		w.OpKinds[o.kind]++
		w.last = o.actor
		w.Logf("%s %s %s", o.actor, o.kind, o.desc)
		if o.step() {
			w.unpark(o)
		}
		if w.OnStep != nil {
			w.OnStep()
		}
	}
}

func (w *World) choose(cand []*Op) *Op {
	if len(cand) == 1 {
		return cand[0]
	}
	if w.Step-cand[0].born > 3000 {
		return cand[0]
	}
	i := w.C.pick("sched", len(cand), func(r *prng) int {
		switch w.policy {
		case 1:
			return int(r.next() % uint64(len(cand)))
		case 2: // stay with the same actor
			if r.next()%10 < 8 {
				for i, o := range cand {
					if o.actor == w.last {
						return i
					}
				}
			}
			return int(r.next() % uint64(len(cand)))
		case 3: // random priorities with occasional changes
			best, bp := 0, -1
			for i, o := range cand {
				p, ok := w.prios[o.actor]
				if !ok || r.next()%60 == 0 {
					p = int(r.next() % 1000)
					w.prios[o.actor] = p
				}
				if p > bp {
					best, bp = i, p
				}
			}
			return best
		}
		return 0
	})
	return cand[i]
}

func (w *World) live() []*Inc {
	var out []*Inc
	for _, n := range w.names {
		if c := w.Cur[n]; c != nil && !c.Dead && c.Up {
			out = append(out, c)
		}
	}
	return out
}

// CrashNow kills the incarnation and schedules its restart.
func (w *World) CrashNow(inc *Inc) {
	w.crashes++
	w.fault("node_crash", inc.ID, "", 0)
	w.Crash(inc)
	ds := []time.Duration{50 * time.Millisecond, time.Second, 6 * time.Second, 40 * time.Second, 3 * time.Minute}
	w.restarts = append(w.restarts, restart{time.Now().Add(ds[w.C.N("fault", len(ds))]), inc.Name})
}

func (w *World) globalFault() bool {
	f := w.F
	if w.crashes < f.MaxCrash && w.C.Chance("crash", f.Crash) {
		if l := w.live(); len(l) > 0 {
			w.CrashNow(l[w.C.N("crash", len(l))])
			return true
		}
	}
	if w.C.Chance("nstall", f.NodeStall) {
		if l := w.live(); len(l) > 0 {
			inc := l[w.C.N("nstall", len(l))]
			d := w.stallFor("nstall")
			inc.stall = time.Now().Add(d)
			w.fault("node_stall", inc.ID, "", d)
			w.Logf("STALL %s %s", inc.ID, d)
			return true
		}
	}
	if w.outages < f.MaxOutage && w.C.Chance("outage", f.RedisDown) {
		w.outages++
		d := w.stallFor("outage")
		w.redisDown = time.Now().Add(d)
		w.fault("redis_outage", "", "", d)
		w.Logf("REDIS DOWN %s", d)
		for _, n := range w.names {
			if c := w.Cur[n]; c != nil && !c.Dead {
				for _, k := range c.conns {
					if k.err == nil {
						if k.op != nil {
							w.unpark(k.op)
						}
						k.break_()
					}
				}
			}
		}
		return true
	}
	if w.outages < f.MaxOutage && w.C.Chance("outage", f.DBDown) {
		w.outages++
		d := w.stallFor("outage")
		w.fault("db_outage", "", "", d)
		w.Logf("DB DOWN %s", d)
		w.Eng.AbortOwner("")
		for _, o := range append([]*Op(nil), w.parked...) {
			if o.kind == "db" {
				w.unpark(o)
				o.pre()
			}
		}
		w.dbDown = time.Now().Add(d)
		return true
	}
	if w.wipes < f.MaxWipe && w.C.Chance("wipe", f.RedisWipe) {
		w.wipes++
		w.fault("redis_data_loss", "", "", 0)
		w.Logf("REDIS WIPED")
		w.Mini.FlushAll()
		return true
	}
	return false
}

func (w *World) opFault(o *Op) bool {
	f := w.F
	var pre, post, stall int
	switch o.kind {
	case "db":
		pre, post, stall = f.DBPre, f.DBPost, f.DBStall
	case "redis":
		pre, post, stall = f.RedisPre, f.RedisPost, f.RedisStall
	case "http":
		pre, post, stall = f.HTTPPre, f.HTTPPost, f.HTTPStall
	}
	if o.kind == "db" && o.desc == "commit" && f.CommitPost+f.CommitCrash > 0 {
		crash := f.CommitCrash
		if w.crashes >= f.MaxCrash {
			crash = 0
		}
		switch w.C.W("fault", 1000000-f.CommitPost-crash, f.CommitPost, crash) {
		case 1:
			w.fault("commit_lost_reply", o.Inc.ID, o.actor, 0)
			w.Logf("%s commit  runs, its answer is LOST", o.actor)
			w.unpark(o)
			w.last = o.actor
			o.post()
			if w.OnStep != nil {
				w.OnStep()
			}
			return true
		case 2:
			w.Logf("%s commit  runs, its node DIES", o.actor)
			w.unpark(o)
			w.last = o.actor
			o.post()
			if w.OnStep != nil {
				w.OnStep()
			}
			w.CrashNow(o.Inc)
			return true
		}
	}
	tot := pre + post + stall
	if tot == 0 {
		return false
	}
	switch w.C.W("fault", 1000000-tot, stall, pre, post) {
	case 1:
		d := w.stallFor("fault")
		o.notBefore = time.Now().Add(d)
		w.fault(o.kind+"_stall", o.Inc.ID, o.actor, d)
		w.Logf("%s %s %s  DELAYED %s", o.actor, o.kind, o.desc, d)
		return true
	case 2:
		w.fault(o.kind+"_lost_request", o.Inc.ID, o.actor, 0)
		w.Logf("%s %s %s  FAILS before it runs", o.actor, o.kind, o.desc)
		w.unpark(o)
		o.pre()
		return true
	case 3:
		w.fault(o.kind+"_lost_reply", o.Inc.ID, o.actor, 0)
		w.Logf("%s %s %s  runs, its answer is LOST", o.actor, o.kind, o.desc)
		w.unpark(o)
		w.last = o.actor
		o.post()
		if w.OnStep != nil {
			w.OnStep()
		}
		return true
	}
	return false
}

// Heal ends all faults and brings every node back.
func (w *World) Heal() {
	w.FaultsOn = false
	w.dbDown, w.redisDown = time.Time{}, time.Time{}
	w.restarts = nil
	for _, n := range w.names {
		if c := w.Cur[n]; c != nil {
			c.stall = time.Time{}
			if c.Dead {
				w.Restart(n)
			}
		}
	}
	for _, o := range w.parked {
		o.notBefore = time.Time{}
	}
	w.Logf("HEAL")
}

// Parked describes the operations that are waiting (diagnosis).
func (w *World) Parked() []string {
	var out []string
	for _, o := range w.parked {
		out = append(out, fmt.Sprintf("%s %s %s ready=%v nb=%v", o.actor, o.kind, o.desc, o.ready == nil || o.ready(), o.notBefore))
	}
	return out
}
