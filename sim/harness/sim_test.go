package main

import (
	"bytes"
	"context"
	"database/sql"
	"encoding/json"
	"errors"
	"fmt"
	"math/big"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"strings"
	"time"

	"github.com/hibiken/asynq"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/api"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/cache"
	"github.com/blnkfinance/blnk/internal/zzsim/core"
	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
	"github.com/blnkfinance/blnk/internal/zzsim/rt"
)

// Sim is one simulated deployment and its history.
type Sim struct {
	W          *core.World
	C          *core.Choices
	Eng        *pgsim.Engine
	Name       string
	Cfg        *config.Configuration
	Violations []simViolation
	violated   map[string]bool
	failure    string
	Count      map[string]int
	stateHash  uint64

	Hist      []*Req
	clients   int // running
	Led       *Ledger
	Locks     *LockWatch
	onCommit  []func(owner string, ch []pgsim.Change)
	HTTPCalls []*HTTPCall
	Receiver  func(h *HTTPCall) (int, string) // answer of the webhook/hook receiver
	redisSubs []redisSub
	Ev        *Events
	NoWorkers bool
	Preload   func() // fills the database before the nodes start

	ClientPre, ClientPost int // per million: request / response lost
	ClientTimeout         time.Duration
	reqN                  int
	tick                  int
	refs                  int
}

// Node is one running process of the service.
type Node struct {
	inc    *core.Inc
	db     *sql.DB
	ds     *database.Datasource
	b      *blnk.Blnk
	inst   *blnkInstance
	router http.Handler
	chain  *blnk.ChainProcessor
}

// Req is one client request and what the client saw.
type Req struct {
	N                int
	Client           string
	Node             string
	Method, Path     string
	Body             string
	Invoked          time.Duration
	Returned         time.Duration
	InvSeq           int64 // database commits before the request
	InvTick, RetTick int   // order of sending and receiving over all clients
	RetSeq           int64
	Status           int // 0: no answer
	Resp             string
	JSON             map[string]any
	Done             bool
	Executed         bool // reached a node
}

// HTTPCall is one outgoing request of the service.
type HTTPCall struct {
	Node   string
	At     time.Duration
	Method string
	URL    string
	Header http.Header
	Body   []byte
	Seq    int64 // database commits before it
	Status int
	OK     bool // answered as a success
}

var theSim *Sim

type redisSub struct {
	part string
	f    func(actor string, cmds [][]string)
}

// watchRedis has f told of every group of commands whose text contains part.
func (s *Sim) watchRedis(part string, f func(actor string, cmds [][]string)) {
	s.redisSubs = append(s.redisSubs, redisSub{part, f})
	s.W.WatchRedis = func(raw string) bool {
		for _, x := range s.redisSubs {
			if strings.Contains(raw, x.part) {
				return true
			}
		}
		return false
	}
	s.W.OnRedis = func(actor string, cmds [][]string) {
		for _, x := range s.redisSubs {
			hit := false
			for _, c := range cmds {
				for _, a := range c {
					hit = hit || strings.Contains(a, x.part)
				}
			}
			if hit {
				x.f(actor, cmds)
			}
		}
	}
}

// dbHook stands in for the process-wide database handle: each simulated node has its own.
func dbHook(*config.Configuration) (*database.Datasource, error) {
	id, _, _ := strings.Cut(rt.Node(), "|")
	for _, n := range theSim.W.Names() {
		if c := theSim.W.Cur[n]; c != nil && c.ID == id && c.Data != nil {
			return theSim.node(c).ds, nil
		}
	}
	return nil, errors.New("simulator: no database handle for " + id)
}

func newSim(name string, c *core.Choices) *Sim {
	s := &Sim{C: c, Name: name, violated: map[string]bool{}, Count: map[string]int{}, ClientTimeout: 40 * time.Second}
	s.W = core.NewWorld(c)
	theSim = s
	if err := rt.Patch(database.GetDBConnection, dbHook); err != nil {
		panic(err)
	}
	s.Eng = s.W.Eng
	return s
}

// Boot migrates the database, installs the configuration and starts the nodes.
func (s *Sim) Boot(nodes []string, tweak func(c *config.Configuration)) {
	dir := os.Getenv("SIM_MIGRATIONS")
	if dir == "" {
		dir = filepath.Join("..", "sql")
	}
	if err := s.Eng.Migrate(dir); err != nil {
		s.Fail("migrations: %v", err)
		panic(simStop)
	}
	if s.Preload != nil {
		s.Preload()
	}
	cfg := &config.Configuration{
		ProjectName: "sim",
		DataSource:  config.DataSourceConfig{Dns: "postgres://sim"},
		Redis:       config.RedisConfig{Dns: "redis:6379", PoolSize: 12, MinIdleConns: 1},
		Queue: config.QueueConfig{NumberOfQueues: 2, WebhookConcurrency: 3, TransactionWorkerConcurrency: 3,
			MonitoringPort: "1"},
		Transaction: config.TransactionConfig{MaxWorkers: 2, BatchSize: 100, MaxQueueSize: 100, LockDuration: 30 * time.Second},
	}
	cfg.Server.SecretKey = "sim-master-key"
	if tweak != nil {
		tweak(cfg)
	}
	config.MockConfig(cfg)
	s.Cfg = cfg
	s.Led = newLedger(s)
	s.Locks = watchLocks(s)
	s.Eng.OnCommit = func(tx *pgsim.Tx, ch []pgsim.Change) {
		s.W.Logf("  commit #%d by %s: %s", s.Eng.Seq(), tx.Owner, summarise(ch))
		s.Led.commit(tx.Owner, ch)
		for _, f := range s.onCommit {
			f(tx.Owner, ch)
		}
	}
	s.W.HTTP = s.serveHTTP
	s.W.StartNode = s.startNode
	for _, n := range nodes {
		s.W.AddNode(n)
	}
	ok := s.W.Run(func() bool {
		for _, n := range nodes {
			if !s.W.Cur[n].Up {
				return false
			}
		}
		return true
	}, 5*time.Minute)
	if !ok {
		s.Fail("the nodes did not start: %v", s.W.Parked())
		panic(simStop)
	}
}

func summarise(ch []pgsim.Change) string {
	var out []string
	for _, c := range ch {
		op := "u"
		if c.Old == nil {
			op = "i"
		} else if c.New == nil {
			op = "d"
		}
		d := ""
		r := Row{c.Table, c.New}
		if c.New == nil {
			r.d = c.Old
		}
		switch c.Table.Name() {
		case "transactions":
			d = fmt.Sprintf("(%s %s %s->%s %s parent=%s id=%s)", r.S("reference"), r.S("status"), r.S("source"), r.S("destination"), r.S("precise_amount"), r.S("parent_transaction"), r.S("transaction_id"))
		case "balances":
			d = fmt.Sprintf("(%s b=%s i=%s v=%s)", r.S("balance_id"), r.S("balance"), r.S("inflight_balance"), r.S("version"))
		case "lineage_outbox":
			d = fmt.Sprintf("(%s %s n=%s %s)", r.S("transaction_id"), r.S("status"), r.S("attempts"), r.S("lineage_type"))
		}
		out = append(out, op+":"+c.Table.Name()+d)
	}
	return strings.Join(out, " ")
}

// ---------------------------------------------------------------- nodes

// startNode is the service's start-up: "a…" nodes serve the API, "w…" nodes run the workers.
func (s *Sim) startNode(inc *core.Inc) {
	n := &Node{inc: inc}
	for {
		err := s.bootNode(n)
		if err == nil {
			break
		}
		if inc.Dead {
			return
		}
		s.W.Logf("%s cannot start: %v", inc.ID, err)
		time.Sleep(2 * time.Second) // the process manager starts it again
	}
	if inc.Dead {
		return
	}
	inc.Data = n
	inc.Up = true
	s.W.Logf("up %s", inc.ID)
}

func (s *Sim) bootNode(n *Node) error {
	inc := n.inc
	cfg := s.Cfg
	db := sql.OpenDB(&pgsim.Connector{Eng: s.Eng, Node: inc.ID, Sched: s.W})
	db.SetMaxOpenConns(cfg.DataSource.MaxOpenConns)
	db.SetMaxIdleConns(cfg.DataSource.MaxIdleConns)
	db.SetConnMaxLifetime(cfg.DataSource.ConnMaxLifetime)
	db.SetConnMaxIdleTime(cfg.DataSource.ConnMaxIdleTime)
	if _, err := db.ExecContext(context.Background(), "SET search_path TO blnk"); err != nil {
		return err
	}
	ca, err := cache.NewCache()
	if err != nil {
		return err
	}
	n.db = db
	n.ds = &database.Datasource{Conn: db, Cache: ca}
	b, err := blnk.NewBlnk(n.ds)
	if err != nil {
		return err
	}
	n.b = b
	n.inst = &blnkInstance{blnk: b, cnf: cfg}
	n.router = api.NewAPI(b).Router()
	ctx := context.Background()
	if inc.Name[0] == 'w' {
		if s.NoWorkers {
			return nil
		}
		srv, hotSrv, webhookSrv, mux, webhookMux, err := setupWorkerServers(n.inst, cfg)
		if err != nil {
			return err
		}
		for _, x := range []struct {
			srv *asynq.Server
			mux *asynq.ServeMux
		}{{srv, mux}, {hotSrv, mux}, {webhookSrv, webhookMux}} {
			if x.srv == nil {
				continue
			}
			if err := x.srv.Start(x.mux); err != nil {
				return err
			}
		}
		blnk.NewQueuedTransactionRecoveryProcessor(b).Start(ctx)
		return nil
	}
	blnk.NewLineageOutboxProcessor(b).Start(ctx)
	if cfg.Transaction.HashChain.Enabled {
		n.chain = blnk.NewChainProcessor(b)
		n.chain.Start(ctx)
	}
	return nil
}

func (s *Sim) node(inc *core.Inc) *Node {
	n, _ := inc.Data.(*Node)
	return n
}

// upNodes lists the running nodes whose name starts with the prefix.
func (s *Sim) upNodes(prefix string) []*core.Inc {
	var out []*core.Inc
	for _, n := range s.W.Names() {
		c := s.W.Cur[n]
		if strings.HasPrefix(n, prefix) && c != nil && c.Up && !c.Dead {
			out = append(out, c)
		}
	}
	return out
}

// ---------------------------------------------------------------- clients

// Client is a user of the service.
type Client struct {
	s    *Sim
	name string
	stop bool
	Pin  string                                   // talk to this node only
	Key  string                                   // API key
	Type string                                   // content type of the next request
	Via  func(method, path string, body any) *Req // replaces Do while it is set
}

// Go starts a client.
func (s *Sim) Go(name string, f func(c *Client)) {
	s.clients++
	c := &Client{s: s, name: name}
	go func() {
		defer func() {
			if r := recover(); r != nil && r != simStop {
				s.Fail("client %s: panic: %v", name, r)
			}
			s.clients--
		}()
		f(c)
	}()
}

func (c *Client) pick() *core.Inc {
	for i := 0; i < 4000; i++ {
		if c.Pin != "" {
			if n := c.s.W.Cur[c.Pin]; n != nil && n.Up && !n.Dead {
				return n
			}
		} else if l := c.s.upNodes("a"); len(l) > 0 {
			return l[c.s.C.N("node", len(l))]
		}
		time.Sleep(200 * time.Millisecond)
	}
	return nil
}

// Upload sends a file.
func (c *Client) Upload(path, name, content string) *Req {
	c.Type = "multipart/form-data; boundary=zzpart"
	return c.Do("POST", path, "--zzpart\r\nContent-Disposition: form-data; name=\"source\"\r\n\r\nbank\r\n--zzpart\r\nContent-Disposition: form-data; name=\"file\"; filename=\""+name+"\"\r\nContent-Type: application/octet-stream\r\n\r\n"+content+"\r\n--zzpart--\r\n")
}

// Do sends one request and waits for the answer, a timeout or the node's death.
func (c *Client) Do(method, path string, body any) *Req {
	s := c.s
	if v := c.Via; v != nil {
		c.Via = nil
		defer func() { c.Via = v }()
		return v(method, path, body)
	}
	s.reqN++
	r := &Req{N: s.reqN, Client: c.name, Method: method, Path: path}
	switch b := body.(type) {
	case nil:
	case string:
		r.Body = b
	case []byte:
		r.Body = string(b)
	default:
		j, err := json.Marshal(b)
		if err != nil {
			panic(err)
		}
		r.Body = string(j)
	}
	s.Hist = append(s.Hist, r)
	r.Invoked = s.W.Now()
	r.InvSeq = s.Eng.Seq()
	s.tick++
	r.InvTick = s.tick
	inc := c.pick()
	if inc == nil {
		s.Fail("no node came up")
		return r
	}
	s.W.Yield(c.name, fmt.Sprintf("request %d %s %s %s", r.N, method, path, clip(r.Body, 160)))
	finish := func() *Req {
		r.Returned = s.W.Now()
		r.RetSeq = s.Eng.Seq()
		s.tick++
		r.RetTick = s.tick
		r.Done = true
		s.Count[fmt.Sprintf("answers_%d", r.Status)]++
		return r
	}
	lose := s.W.FaultsOn
	if lose && s.C.Chance("client", s.ClientPre) {
		s.W.Used["client_lost_request"]++
		s.W.Logf("%s: request %d is lost", c.name, r.N)
		time.Sleep(time.Second)
		return finish()
	}
	if inc.Dead {
		return finish() // connection refused
	}
	n := s.node(inc)
	r.Node = inc.ID
	r.Executed = true
	ct := c.Type
	c.Type = ""
	if ct == "" {
		ct = "application/json"
	}
	ctx, cancel := context.WithCancel(context.Background())
	ch := make(chan *httptest.ResponseRecorder, 1)
	s.W.Go(inc, fmt.Sprintf("%s#%d", c.name, r.N), func() {
		req := httptest.NewRequest(method, path, strings.NewReader(r.Body)).WithContext(ctx)
		if method != "GET" {
			req.Header.Set("Content-Type", ct)
		}
		if s.Cfg.Server.Secure || c.Key != "" {
			k := c.Key
			if k == "" {
				k = s.Cfg.Server.SecretKey
			}
			if k != "none" {
				req.Header.Set("X-Blnk-Key", k)
			}
		}
		rec := httptest.NewRecorder()
		n.router.ServeHTTP(rec, req)
		ch <- rec
	})
	t := time.NewTimer(s.ClientTimeout)
	defer t.Stop()
	var rec *httptest.ResponseRecorder
	select {
	case rec = <-ch:
	case <-inc.DiedCh:
		s.W.Logf("%s: request %d: connection to %s lost", c.name, r.N, inc.ID)
	case <-t.C:
		s.W.Logf("%s: request %d: timeout", c.name, r.N)
		s.Count["client_timeouts"]++
	}
	cancel()
	if rec == nil || inc.Dead {
		return finish()
	}
	resp := rec.Body.String()
	s.W.Yield(c.name, fmt.Sprintf("answer %d %d %s", r.N, rec.Code, clip(resp, 200)))
	if inc.Dead {
		return finish()
	}
	if lose && s.C.Chance("client", s.ClientPost) {
		s.W.Used["client_lost_reply"]++
		s.W.Logf("%s: answer %d is lost", c.name, r.N)
		return finish()
	}
	r.Status = rec.Code
	r.Resp = resp
	dec := json.NewDecoder(bytes.NewReader([]byte(resp)))
	dec.UseNumber()
	_ = dec.Decode(&r.JSON)
	return finish()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// S reads a string field of the answer.
func (r *Req) S(key string) string {
	if r.JSON == nil {
		return ""
	}
	switch v := r.JSON[key].(type) {
	case string:
		return v
	case json.Number:
		return v.String()
	}
	return ""
}

func (r *Req) OK() bool { return r.Status >= 200 && r.Status < 300 }

// Big reads an integer field of the answer.
func (r *Req) Big(key string) *big.Int {
	n, ok := new(big.Int).SetString(r.S(key), 10)
	if !ok {
		return nil
	}
	return n
}

func (r *Req) String() string {
	return fmt.Sprintf("request %d by %s (%s %s %s) answered %d %s", r.N, r.Client, r.Method, r.Path, clip(r.Body, 200), r.Status, clip(r.Resp, 200))
}

// why classifies what happened to the processing of some requests: the node died,
// an operation of the request failed or was delayed, or nothing of the sort.
func (s *Sim) why(reqs ...*Req) string {
	out := ""
	for _, q := range reqs {
		if q == nil || q.Node == "" {
			continue
		}
		me := fmt.Sprintf("%s|%s#%d", q.Node, q.Client, q.N)
		for _, f := range s.W.FaultLog {
			if f.End < q.Invoked {
				continue
			}
			switch {
			case f.Kind == "node_crash" && f.Node == q.Node:
				return "node crash"
			case f.Actor == me, f.Actor == "" && (f.Node == "" || f.Node == q.Node):
				out = "infrastructure fault"
			}
		}
	}
	return out
}

// whyAround is why, but it also blames faults elsewhere that may have left locks behind:
// what a saga needs to finish or to take back its steps.
func (s *Sim) whyAround(reqs ...*Req) string {
	out := s.why(reqs...)
	for _, q := range reqs {
		if q == nil || q.Node == "" || out != "" {
			continue
		}
		for _, f := range s.W.FaultLog {
			if f.End+s.Cfg.Transaction.LockDuration+time.Minute >= q.Invoked && (q.Status == 0 || f.At <= q.Returned+5*time.Minute) {
				out = "infrastructure fault"
			}
		}
	}
	return out
}

// with appends the class of the cause to a violation's key.
func with(key, why string) string {
	if why == "" {
		return key
	}
	return key + " after " + why
}

// Setup runs a client to completion without faults.
func (s *Sim) Setup(f func(c *Client)) {
	on := s.W.FaultsOn
	s.W.FaultsOn = false
	done := false
	s.Go("setup", func(c *Client) { f(c); done = true })
	if !s.W.Run(func() bool { return done || s.failure != "" }, 3*time.Hour) || s.failure != "" {
		s.Fail("setup did not finish: %v", s.W.Parked())
		panic(simStop)
	}
	s.W.FaultsOn = on
}

// On runs f as a part of the running node; false: it did not come to an end.
func (c *Client) On(actor string, f func(n *Node)) bool {
	s := c.s
	inc := c.pick()
	if inc == nil {
		return false
	}
	s.W.Yield(c.name, actor)
	if inc.Dead {
		return false
	}
	n := s.node(inc)
	ch := make(chan bool, 1)
	s.reqN++
	s.W.Go(inc, fmt.Sprintf("%s#%d", c.name, s.reqN), func() {
		f(n)
		ch <- true
	})
	t := time.NewTimer(5 * time.Minute)
	defer t.Stop()
	select {
	case <-ch:
		return !inc.Dead
	case <-inc.DiedCh:
	case <-t.C:
	}
	return false
}

// Must is Do for requests that have to succeed.
func (c *Client) Must(method, path string, body any) *Req {
	for i := 0; ; i++ {
		r := c.Do(method, path, body)
		if r.OK() {
			return r
		}
		if i > 3 {
			c.s.Fail("setup request failed: %v", r)
			panic(simStop)
		}
		time.Sleep(time.Second)
	}
}

// Clients waits until every client is done.
func (s *Sim) Clients(limit time.Duration) {
	if !s.W.Run(func() bool { return s.clients == 0 || s.failure != "" }, limit) || s.failure != "" {
		s.Fail("clients did not finish: %v", s.W.Parked())
		panic(simStop)
	}
}

// serveHTTP is the outside world: the webhook receiver and the hooks' endpoints.
func (s *Sim) serveHTTP(node string, req *http.Request, body []byte) (int, []byte) {
	reply := "{}"
	h := &HTTPCall{Node: node, At: s.W.Now(), Method: req.Method, URL: req.URL.String(), Header: req.Header.Clone(), Body: body, Seq: s.Eng.Seq(), Status: 200}
	s.HTTPCalls = append(s.HTTPCalls, h)
	if s.Receiver != nil {
		h.Status, reply = s.Receiver(h)
	}
	h.OK = h.Status >= 200 && h.Status < 300 && !strings.Contains(reply, `"success":false`)
	s.W.Logf("  %s receives %s", h.URL, clip(string(body), 160))
	return h.Status, []byte(reply)
}

// ---------------------------------------------------------------- settling

// queueState counts the tasks waiting in Redis: due (or running) ones and later ones.
// Expiries of holds are left out: they wait for their time and are repeated in vain
// when the hold was resolved in the meantime.
func (s *Sim) queueState(settling bool) (due, later int) {
	db := s.W.Mini.DB(0)
	now := float64(time.Now().Add(2 * time.Second).Unix())
	for _, k := range db.Keys() {
		if !strings.HasPrefix(k, "asynq:{") || strings.Contains(k, "inflight-expiry") {
			continue
		}
		switch {
		case strings.HasSuffix(k, ":pending"), strings.HasSuffix(k, ":active"):
			l, _ := db.List(k)
			due += len(l)
		case strings.HasSuffix(k, ":retry"), strings.HasSuffix(k, ":scheduled"):
			if settling && strings.Contains(k, "inflight-commit") {
				continue // waitDated; the hold may be one that only the recovery records
			}
			z, _ := db.SortedSet(k)
			for _, sc := range z {
				if sc <= now || strings.HasSuffix(k, ":retry") {
					due++
				} else {
					later++
				}
			}
		}
	}
	return
}

// logQueues says what the queues hold.
func (s *Sim) logQueues() {
	db := s.W.Mini.DB(0)
	for _, k := range db.Keys() {
		if !strings.HasPrefix(k, "asynq:{") || strings.HasSuffix(k, ":completed") {
			continue
		}
		if l, err := db.List(k); err == nil && len(l) > 0 {
			s.W.Logf("queue %s: %v", k, l)
		} else if z, err := db.SortedSet(k); err == nil && len(z) > 0 {
			s.W.Logf("queue %s: %v", k, z)
		}
	}
}

// Settle lets the system run without faults until nothing is left to do.
func (s *Sim) Settle(limit time.Duration) bool {
	end := s.W.Now() + limit
	quiet := 0
	for s.W.Now() < end {
		s.W.Run(func() bool { return false }, time.Second)
		if s.W.Failure != nil || s.failure != "" {
			panic(simStop)
		}
		due, later := s.queueState(true)
		if due+later == 0 && s.clients == 0 && s.Eng.ActiveTx() == 0 && s.outboxOpen() == 0 {
			quiet++
			if quiet >= 4 {
				return true
			}
		} else {
			quiet = 0
		}
	}
	return false
}

// stuck lists the queued transactions without any outcome.
func (s *Sim) stuck() (out []*LTxn) {
	for _, t := range s.Led.All {
		if (t.Status == "QUEUED" || t.Status == "SCHEDULED") && len(s.Led.Kids[t.ID]) == 0 && len(s.Led.Refs[t.Ref+"_q"]) == 0 {
			out = append(out, t)
		}
	}
	return
}

// SettleAll settles and lets the operator's recovery sweep run as long as it finds work.
func (s *Sim) SettleAll(limit time.Duration) bool {
	ok := s.Settle(limit)
	if ok && s.W.FaultCount() == 0 {
		for _, t := range s.stuck() {
			prop := "P09"
			if t.Status == "SCHEDULED" {
				prop = "P13"
			}
			s.Violate(prop, "left to recovery without any fault", "no task is left and nothing went wrong, but %s has no outcome", s.Led.describe([]*LTxn{t}))
			if s.Cfg.Transaction.EnableCoalescing {
				s.Violate("P10", "left to recovery without any fault", "no task is left and nothing went wrong, but %s has no outcome", s.Led.describe([]*LTxn{t}))
			}
		}
	}
	for i := 0; i < 5 && ok; i++ {
		st := s.stuck()
		if len(st) == 0 {
			break
		}
		// the sweep only takes transactions that are due for two minutes
		wait := time.Duration(0)
		for _, t := range st {
			if d := 2*time.Minute - (s.W.Now() - t.At); d > wait {
				wait = d
			}
			if d := 2*time.Minute - time.Since(t.Scheduled); t.Status == "SCHEDULED" && d > wait {
				wait = d
			}
		}
		if i > 0 {
			wait = max(wait, 2*time.Minute)
		}
		if wait > 0 {
			s.Pass(wait + time.Second)
		}
		s.Count["recovery_sweeps"]++
		s.Setup(func(c *Client) { c.Do("POST", "/transactions/recover?threshold=2m", nil) })
		ok = s.Settle(limit)
	}
	return ok
}

func (s *Sim) outboxOpen() int {
	n := 0
	t := s.Eng.Table("lineage_outbox")
	t.EachCommitted(func(_ int64, d []any) {
		switch (Row{t, d}).S("status") {
		case "pending", "processing":
			n++
		}
	})
	return n
}

// Pass lets simulated time go by.
func (s *Sim) Pass(d time.Duration) {
	s.W.Run(func() bool { return false }, d)
	if s.W.Failure != nil || s.failure != "" {
		panic(simStop)
	}
}
