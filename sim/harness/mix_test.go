package main

import (
	"fmt"
	"math/big"
	"net/url"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzsim/core"
)

// Mix describes a workload of many clients on a few accounts.
type Mix struct {
	LongLocks bool           // no lock expires while its holder is only slow
	Coalesce  bool           // coalescing is always on
	W         map[string]int // weights of the operations
	Accounts  int            // funded accounts
	Ops       int            // operations over all clients
	Clients   int
	Nodes     []string
	Config    func(c *config.Configuration)
	Faults    func(s *Sim) // sets the fault rates; nil: the usual ones
	Fund      int64        // initial minor units per account
	Tight     bool         // large amounts relative to the funds
	Think     time.Duration
	Horizon   time.Duration // settling time
	Extra     func(m *MixRun)
	After     func(m *MixRun)
	Custom    func(m *MixRun, c *Client) // the operation "custom"
	Events    bool                       // follow the queued webhooks and hook calls
	Secure    bool
	Effective bool // some postings have an effective date of their own
	Plain     bool // amounts are small and of two decimals
	Fits      bool // no amount is beyond 64 bits
}

// Post is one logical posting a client wants.
type Post struct {
	Ref      string
	Amount   *big.Int
	Src, Dst string // as named in the request
	Currency string
	Queue    bool
	Inflight bool
	Over     *big.Int // how far the source may go below zero; nil: any
	NoLimit  bool
	Sched    time.Time
	Body     map[string]any
	Reqs     []*Req
	ID       string // transaction id, once known
	Parts    []Part // split
	Atomic   bool
	Acts     []*Act // commits and voids
	Refunds  []*Req
	Bulk     *Bulk
	Expiry   time.Time
	AutoAt   time.Time
	Prec     int64 // minor units of one unit
}

type Part struct {
	Acct  string
	Fixed *big.Int // an amount, if not nil
	Perc  *big.Rat // and a share of the total, if not nil; without both it is what is left
}

// Act is a commit or void of a hold.
type Act struct {
	Kind   string
	ID     string
	Amount *big.Int // nil: all that is left
	Queue  bool
	Bulk   bool // one item of a bulk request
	Req    *Req
}

// said is what the answer promised: "" nothing, "done", or "queued".
func (a *Act) said() string {
	if !a.Req.OK() {
		return ""
	}
	if a.Bulk {
		l, _ := a.Req.JSON["results"].([]any)
		for _, e := range l {
			m, _ := e.(map[string]any)
			if m["transaction_id"] != a.ID {
				continue
			}
			if m["status"] == "succeeded" {
				return "done"
			}
			if m["code"] == "QUEUED" {
				return "queued"
			}
		}
		return ""
	}
	if a.Queue {
		return "queued"
	}
	return "done"
}

type Bulk struct {
	Posts                           []*Post
	Atomic, Inflight, Async, Queued bool
	Req                             *Req
	ID                              string
}

type MixRun struct {
	*Sim
	M      Mix
	Accts  []string
	Posts  []*Post
	Holds  []*Post
	Dated  []*Post // holds with an expiry or an automatic commit
	Bulks  []*Bulk
	byRef  map[string]*Post
	Reads  []*Read
	n      int
	ledger string
	from   time.Duration // when the traffic started
	Scale  *big.Int      // of all amounts: 1, or beyond 64 bits
	made   []madeThing
	batch  int // of pages of rows
	x      any // of the scenario
}

type Read struct {
	Bal string
	Req *Req
}

const minorUnits = 100

func dec(a *big.Int, prec int64) float64 {
	x, _ := new(big.Rat).SetFrac(a, big.NewInt(prec)).Float64()
	return x
}

// exact: a decimal of 15 digits says it.
func exact(a *big.Int) bool {
	return len(strings.TrimRight(a.String(), "0")) <= 15
}

// say writes an amount into a request, as a decimal or in minor units.
func (r *MixRun) say(b map[string]any, a *big.Int, prec int64) {
	delete(b, "amount")
	delete(b, "precise_amount")
	if r.C.N("op", 2) == 0 && exact(a) {
		b["amount"] = dec(a, prec)
	} else {
		b["precise_amount"] = a
	}
}

func usualFaults(s *Sim, long bool) {
	f := &s.W.F
	c := s.C
	lvl := c.W("cfg", 2, 4, 3) // none, few, many
	if lvl == 0 {
		return
	}
	if c.N("cfg", 6) == 0 {
		// everything is slow at times, longer than the locks last
		f.DBStall, f.RedisStall, f.NodeStall = 12000*lvl, 6000*lvl, 1500*lvl
		f.Budget = 30 * lvl
		f.StallMax = []time.Duration{4 * time.Second, 12 * time.Second}[c.N("cfg", 2)]
		if !long {
			s.Cfg.Transaction.LockDuration = 3 * time.Second
		}
		return
	}
	if c.N("cfg", 6) == 0 {
		// what matters goes wrong right after it is done
		f.CommitPost, f.CommitCrash = 50000*lvl, 30000*lvl
		f.MaxCrash = 3 * lvl
		f.Budget = 30 * lvl
		return
	}
	k := []int{0, 1, 4}[lvl]
	rate := func(base int) int {
		if c.N("cfg", 3) == 0 {
			return 0
		}
		return base * k
	}
	f.DBPre, f.DBPost, f.DBStall = rate(2500), rate(2500), rate(4000)
	f.RedisPre, f.RedisPost, f.RedisStall = rate(1500), rate(1500), rate(2500)
	f.HTTPPre, f.HTTPPost, f.HTTPStall = rate(20000), rate(20000), rate(10000)
	f.Crash, f.NodeStall = rate(400), rate(300)
	f.DBDown, f.RedisDown = rate(80), rate(80)
	f.MaxCrash, f.MaxOutage = 1+lvl*2, lvl
	f.Budget = 30 * lvl
	s.ClientPre, s.ClientPost = rate(8000), rate(8000)
	f.StallMax = []time.Duration{time.Second, 12 * time.Second, 70 * time.Second}[c.N("cfg", 3)]
}

func newMix(s *Sim, m Mix) *MixRun {
	r := &MixRun{Sim: s, M: m, byRef: map[string]*Post{}}
	if m.Nodes == nil {
		r.M.Nodes = []string{"a1", "a2", "w1", "w2"}
	}
	if m.Accounts == 0 {
		r.M.Accounts = 4
	}
	if m.Fund == 0 {
		r.M.Fund = 10000
	}
	if m.Clients == 0 {
		r.M.Clients = 4
	}
	if m.Horizon == 0 {
		r.M.Horizon = 40 * time.Minute
	}
	if m.Ops == 0 {
		r.M.Ops = 30
	}
	r.Scale = big.NewInt(1)
	if !m.Plain && s.C.W("cfg", 4, 1) == 1 {
		r.Scale.SetInt64(1e17)
		if m.Fits {
			r.Scale.SetInt64(1e13)
		}
		s.Count["scaled_runs"]++
	}
	return r
}

// runMix is the usual run: boot, fund, faults with clients, heal, settle, checks.
func runMix(s *Sim, m Mix) {
	r := newMix(s, m)
	r.boot()
	r.setup()
	r.traffic()
	r.finish()
}

func (r *MixRun) boot() {
	s := r.Sim
	s.Boot(r.M.Nodes, func(c *config.Configuration) {
		c.Queue.NumberOfQueues = 1 + s.C.N("cfg", 3)
		c.Queue.TransactionWorkerConcurrency = 1 + s.C.N("cfg", 4)
		c.Queue.EnableHotLane = s.C.N("cfg", 3) == 1
		c.Queue.HotPairLockContentionThreshold = 1
		c.Queue.InsufficientFundRetries = s.C.N("cfg", 4) == 1
		c.Queue.RejectLockContentionImmediately = s.C.N("cfg", 6) == 1
		c.Transaction.LockDuration = []time.Duration{30 * time.Second, 5 * time.Minute, 3 * time.Second}[s.C.W("cfg", 4, 2, 2)]
		if r.M.LongLocks {
			c.Transaction.LockDuration = 5 * time.Minute
		}
		c.Transaction.BatchSize = []int{100, 2, 1000}[s.C.N("cfg", 3)]
		c.Queue.MaxRetryAttempts = 5 - 2*s.C.N("cfg", 2)
		c.Transaction.DisableBatchReferenceCheck = s.C.N("cfg", 4) == 1
		if r.M.Config != nil {
			r.M.Config(c)
		}
		r.batch = c.Transaction.BatchSize
	})
	if r.M.Events {
		s.Ev = watchEvents(s)
	}
	if s.C.N("cfg", 4) == 1 && !r.M.Coalesce {
		s.Cfg.Transaction.EnableCoalescing = false
	}
}

func (r *MixRun) setup() {
	s := r.Sim
	s.Setup(func(c *Client) {
		l := c.Must("POST", "/ledgers", map[string]any{"name": "main"})
		r.ledger = l.S("ledger_id")
		for i := 0; i < r.M.Accounts; i++ {
			b := c.Must("POST", "/balances", map[string]any{"ledger_id": r.ledger, "currency": "USD"})
			id := b.S("balance_id")
			r.Accts = append(r.Accts, id)
			if r.M.Fund > 0 {
				ref := fmt.Sprintf("fund%d", i)
				c.Must("POST", "/transactions", map[string]any{"precise_amount": r.scaled(r.M.Fund), "precision": minorUnits, "currency": "USD", "source": "@world", "destination": id,
					"reference": ref, "description": "fund", "allow_overdraft": true, "skip_queue": true})
			}
		}
	})
}

func (r *MixRun) traffic() {
	s := r.Sim
	if r.M.Extra != nil {
		r.M.Extra(r)
	}
	if r.M.Faults != nil {
		r.M.Faults(s)
	} else {
		usualFaults(s, r.M.LongLocks)
	}
	s.W.FaultsOn = true
	r.from = s.W.Now()
	per := (r.M.Ops + r.M.Clients - 1) / r.M.Clients
	for i := 0; i < r.M.Clients; i++ {
		s.Go(fmt.Sprintf("c%d", i+1), func(c *Client) {
			for k := 0; k < per; k++ {
				r.op(c)
				if r.M.Think > 0 {
					time.Sleep(time.Duration(s.C.N("think", 4)) * r.M.Think)
				} else if s.C.N("think", 3) == 1 {
					time.Sleep([]time.Duration{5 * time.Millisecond, 300 * time.Millisecond, 2 * time.Second, 20 * time.Second}[s.C.N("think", 4)])
				}
			}
		})
	}
	s.Clients(4 * time.Hour)
}

func (r *MixRun) finish() {
	s := r.Sim
	s.W.Heal()
	if !s.SettleAll(r.M.Horizon) {
		due, later := s.queueState(false)
		s.Count["unsettled"]++
		s.W.Logf("not settled: %d tasks due, %d later", due, later)
		s.logQueues()
	}
	if len(r.Dated) > 0 {
		r.waitDated()
	}
	r.waitActs()
	if s.W.FaultCount() == 0 && s.clients == 0 {
		if l := s.Locks.leaked(); len(l) > 0 && s.Count["unsettled"] == 0 {
			s.Violate("P14", "left held", "nothing runs any more, but these locks are still held: %v", l)
		}
	}
	r.checkAll()
	if r.M.After != nil {
		r.M.After(r)
	}
	s.stateHash = r.state()
}

// state summarises the final state of the run.
func (r *MixRun) state() uint64 {
	h := uint64(14695981039346656037)
	add := func(s string) {
		for i := 0; i < len(s); i++ {
			h = (h ^ uint64(s[i])) * 1099511628211
		}
	}
	for _, t := range r.Led.All {
		add(t.Status + BaseRef(t.Ref) + t.Amount.String())
	}
	return h
}

func (r *MixRun) amount() *big.Int {
	if r.M.Tight {
		return r.scaled(int64(r.M.Fund)*int64(1+r.C.N("op", 9))/10 + int64(r.C.N("op", 7)))
	}
	a := r.scaled(int64(1 + r.C.N("op", 900)))
	if r.Scale.BitLen() > 1 && r.C.N("op", 2) == 1 {
		a.Add(a, big.NewInt(int64(r.C.N("op", 1000))))
	}
	return a
}

func (r *MixRun) scaled(n int64) *big.Int {
	return new(big.Int).Mul(big.NewInt(n), r.Scale)
}

func (r *MixRun) newPost(kind string) *Post {
	r.n++
	p := &Post{Ref: fmt.Sprintf("ref%dx", r.n), Currency: "USD", Amount: r.amount(), Over: new(big.Int), Prec: minorUnits}
	if !r.M.Plain {
		p.Prec = []int64{minorUnits, 1, 1e6, 1e18}[r.C.W("op", 6, 1, 1, 1)]
	}
	k := r.C.W("op", 6, 2, 2)
	n := len(r.Accts)
	switch k {
	case 0:
		i := r.C.N("op", n)
		j := r.C.N("op", n-1)
		if j >= i {
			j++
		}
		p.Src, p.Dst = r.Accts[i], r.Accts[j]
	case 1:
		p.Src, p.Dst = "@world", r.Accts[r.C.N("op", n)]
		p.NoLimit = true
	case 2:
		p.Src, p.Dst = r.Accts[r.C.N("op", n)], fmt.Sprintf("@sink%d", r.C.N("op", 2))
	}
	if !p.NoLimit {
		switch r.C.W("op", 6, 1, 1) {
		case 1:
			p.NoLimit = true
		case 2:
			p.Over = r.scaled(int64(minorUnits * (1 + r.C.N("op", 20))))
		}
	}
	p.Body = map[string]any{"precision": p.Prec, "currency": "USD", "source": p.Src, "destination": p.Dst, "reference": p.Ref, "description": fmt.Sprintf("op %d", r.n), "meta_data": map[string]any{"n": r.n}}
	r.say(p.Body, p.Amount, p.Prec)
	r.finishPost(p)
	return p
}

func (r *MixRun) finishPost(p *Post) {
	if r.M.Effective {
		r.effective(p)
	}
	if p.NoLimit {
		p.Over = nil
		p.Body["allow_overdraft"] = true
	} else if p.Over.Sign() > 0 {
		p.Body["overdraft_limit"] = dec(p.Over, p.Prec)
		p.Body["allow_overdraft"] = true
	}
	r.Led.Limit[p.Ref] = p.Over
	r.Posts = append(r.Posts, p)
	r.byRef[p.Ref] = p
}

func (r *MixRun) submit(c *Client, p *Post) *Req {
	p.Body["skip_queue"] = !p.Queue
	q := c.Do("POST", "/transactions", p.Body)
	p.Reqs = append(p.Reqs, q)
	if q.OK() {
		p.ID = q.S("transaction_id")
	}
	return q
}

// retry is a careful client: it submits again while the outcome is unknown.
func (r *MixRun) submitRetry(c *Client, p *Post) {
	for i := 0; i < 4; i++ {
		q := r.submit(c, p)
		if q.Status != 0 || r.C.N("op", 3) == 2 {
			return
		}
		time.Sleep(time.Second)
	}
}

var opOrder = []string{"post", "queue", "hold", "qhold", "commit", "void", "partial", "refund", "dup", "read", "sched", "split", "qsplit", "bulk", "meta", "bulkact", "acthold", "dry", "exphold", "expsplit", "custom", "rush"}

func (r *MixRun) op(c *Client) {
	w := make([]int, len(opOrder))
	for i, k := range opOrder {
		w[i] = r.M.W[k]
	}
	k := opOrder[r.C.W("op", w...)]
	r.Count["op_"+k]++
	switch k {
	case "post", "queue", "hold", "qhold":
		p := r.newPost(k)
		p.Queue = k[0] == 'q'
		if strings.HasSuffix(k, "hold") {
			p.Inflight = true
			p.Body["inflight"] = true
			r.Holds = append(r.Holds, p)
		}
		r.submitRetry(c, p)
	case "sched":
		p := r.newPost(k)
		p.Queue = true
		p.Sched = time.Now().Add(time.Duration(5+r.C.N("op", 240)) * time.Second).Truncate(time.Second)
		p.Body["scheduled_for"] = p.Sched.UTC().Format("2006-01-02T15:04:05Z07:00")
		r.submitRetry(c, p)
	case "dup":
		if len(r.Posts) == 0 {
			return
		}
		p := r.Posts[r.C.N("op", len(r.Posts))]
		if p.Bulk != nil {
			return
		}
		r.submit(c, p)
	case "acthold":
		p := r.newPost(k)
		p.Inflight = true
		p.Body["inflight"] = true
		r.Holds = append(r.Holds, p)
		r.submitRetry(c, p)
		if p.ID != "" {
			r.act(c, p)
		}
	case "commit", "void", "partial":
		var l []*Post
		for _, p := range r.Holds {
			if p.ID != "" && p.Bulk == nil {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return
		}
		p := l[r.C.N("op", len(l))]
		r.actKind(c, p, k)
	case "refund":
		var l []*Post
		for _, p := range r.Posts {
			if p.ID != "" && len(p.Parts) == 0 && p.Bulk == nil {
				l = append(l, p)
			}
		}
		if len(l) == 0 {
			return
		}
		p := l[len(l)-1-r.C.N("op", min(len(l), 6))]
		q := c.Do("POST", "/refund-transaction/"+p.ID, map[string]any{"skip_queue": r.C.N("op", 2) == 0})
		p.Refunds = append(p.Refunds, q)
	case "read":
		id := r.Accts[r.C.N("op", len(r.Accts))]
		q := c.Do("GET", "/balances/"+id, nil)
		r.Reads = append(r.Reads, &Read{id, q})
	case "split", "qsplit":
		r.split(c, k == "qsplit")
	case "exphold":
		p := r.newPost(k)
		p.Queue = r.C.N("op", 2) == 1
		p.Inflight = true
		p.Body["inflight"] = true
		r.dates(p)
		r.Holds = append(r.Holds, p)
		r.submitRetry(c, p)
	case "expsplit":
		r.split(c, r.C.N("op", 2) == 1, func(p *Post) {
			p.Inflight = true
			p.Body["inflight"] = true
			r.dates(p)
		})
	case "bulk":
		r.bulk(c)
	case "meta":
		if len(r.Posts) == 0 {
			return
		}
		p := r.Posts[r.C.N("op", len(r.Posts))]
		if p.ID != "" {
			c.Do("POST", "/"+p.ID+"/metadata", map[string]any{"meta_data": map[string]any{fmt.Sprintf("k%d", r.C.N("op", 5)): r.n}})
		}
	case "bulkact":
		r.bulkact(c)
	case "custom":
		r.M.Custom(r, c)
	case "rush":
		r.rush(c)
	case "dry":
		p := r.newPost(k)
		r.Posts = r.Posts[:len(r.Posts)-1]
		p.Body["dry_run"] = true
		c.Do("POST", "/transactions", p.Body)
	}
}

// rush: several requests for the same thing at the same time.
func (r *MixRun) rush(c *Client) {
	n := 2 + r.C.N("op", 3)
	same := func(f func(c *Client)) {
		for i := 0; i < n; i++ {
			r.Go(fmt.Sprintf("%s.%d", c.name, i), f)
		}
	}
	weight := func(ks ...string) (w int) {
		for _, k := range ks {
			w += r.M.W[k]
		}
		return
	}
	switch r.C.W("op", weight("commit", "void", "partial", "hold", "qhold", "exphold"), weight("refund"), weight("dup")) {
	case 0:
		p := r.newPost("hold")
		p.Inflight = true
		p.Body["inflight"] = true
		r.Holds = append(r.Holds, p)
		r.submitRetry(c, p)
		if p.ID == "" {
			return
		}
		k := []string{"", "void", "commit", "partial"}[r.C.W("op", 3, 2, 1, 1)]
		same(func(c *Client) {
			k := k
			if k == "" {
				k = []string{"commit", "partial", "void"}[r.C.N("op", 3)]
			}
			r.actKind(c, p, k)
		})
	case 1:
		p := r.newPost("post")
		r.submitRetry(c, p)
		if p.ID == "" {
			return
		}
		same(func(c *Client) {
			q := c.Do("POST", "/refund-transaction/"+p.ID, map[string]any{"skip_queue": r.C.N("op", 2) == 0})
			p.Refunds = append(p.Refunds, q)
		})
	case 2:
		p := r.newPost("post")
		p.Queue = r.C.N("op", 2) == 1
		same(func(c *Client) { r.submit(c, p) })
	}
}

func (r *MixRun) act(c *Client, p *Post) {
	for i := 0; i < 1+r.C.N("op", 3); i++ {
		r.actKind(c, p, []string{"commit", "partial", "void"}[r.C.W("op", 3, 4, 2)])
	}
}

func (r *MixRun) actKind(c *Client, p *Post, k string) {
	a := &Act{Kind: k, ID: p.ID}
	body := map[string]any{"status": "commit"}
	switch k {
	case "void":
		body["status"] = "void"
	case "partial":
		a.Kind = "commit"
		a.Amount = new(big.Int).Div(new(big.Int).Mul(p.Amount, big.NewInt(int64(1+r.C.N("op", 10)))), big.NewInt(10))
		if a.Amount.Sign() == 0 {
			a.Amount = big.NewInt(1)
		}
		r.say(body, a.Amount, p.Prec)
	}
	a.Queue = r.C.N("op", 2) == 0
	body["skip_queue"] = !a.Queue
	p.Acts = append(p.Acts, a)
	a.Req = c.Do("PUT", "/transactions/inflight/"+p.ID, body)
}

func (r *MixRun) bulkact(c *Client) {
	var ids []string
	var ps []*Post
	for _, p := range r.Holds {
		if p.ID != "" && p.Bulk == nil && r.C.N("op", 3) == 0 {
			ids = append(ids, p.ID)
			ps = append(ps, p)
		}
	}
	if len(ids) == 0 {
		return
	}
	sq := r.C.N("op", 2) == 0
	var as []*Act
	add := func(p *Post, a *Act) {
		a.ID, a.Bulk, a.Queue = p.ID, true, !sq
		a.Req = &Req{InvSeq: r.Eng.Seq()}
		p.Acts = append(p.Acts, a)
		as = append(as, a)
	}
	if r.C.N("op", 2) == 0 {
		for _, p := range ps {
			add(p, &Act{Kind: "void"})
		}
		q := c.Do("POST", "/transactions/inflight/bulk/void", map[string]any{"transaction_ids": ids, "skip_queue": sq})
		for _, a := range as {
			a.Req = q
		}
		return
	}
	var items []map[string]any
	for i, p := range ps {
		it := map[string]any{"transaction_id": ids[i]}
		a := &Act{Kind: "commit"}
		if r.C.N("op", 2) == 0 {
			a.Amount = new(big.Int).Add(new(big.Int).Div(p.Amount, big.NewInt(2)), big.NewInt(1))
			r.say(it, a.Amount, p.Prec)
		}
		items = append(items, it)
		add(p, a)
	}
	q := c.Do("POST", "/transactions/inflight/bulk/commit", map[string]any{"transactions": items, "skip_queue": sq})
	for _, a := range as {
		a.Req = q
	}
}

// dates gives a hold an expiry, an automatic commit, or both.
func (r *MixRun) dates(p *Post) {
	k := r.C.W("op", 3, 3, 1)
	pick := func(field string) time.Time {
		t := time.Now().Add(time.Duration(1+r.C.N("op", 100)) * time.Second).Truncate(time.Second)
		p.Body[field] = t.In(time.FixedZone("", []int{0, 3600, -5 * 3600, 5*3600 + 1800}[r.C.N("op", 4)])).Format("2006-01-02T15:04:05Z07:00")
		return t
	}
	if k != 1 {
		p.Expiry = pick("inflight_expiry_date")
	}
	if k != 0 {
		p.AutoAt = pick("inflight_commit_date")
	}
	r.Dated = append(r.Dated, p)
}

func (r *MixRun) split(c *Client, queued bool, opt ...func(p *Post)) {
	p := r.newPost("split")
	p.Queue = queued
	r.distribute(p)
	if len(opt) > 0 {
		opt[0](p)
	} else if r.C.N("op", 4) == 1 {
		p.Inflight = true
		p.Body["inflight"] = true
	}
	r.submitRetry(c, p)
}

// distribute makes a split of a posting.
func (r *MixRun) distribute(p *Post) {
	n := 2 + r.C.N("op", 3)
	toSources := r.C.N("op", 2) == 1
	var ds []map[string]any
	left := new(big.Int).Set(p.Amount)
	perm := r.perm(len(r.Accts))
	mode := r.C.N("op", 4)
	for i := 0; i < n && i < len(perm); i++ {
		a := r.Accts[perm[i]]
		last := i == n-1 || i == len(perm)-1
		part := func(x Part) { p.Parts = append(p.Parts, x) }
		if !last && i > 0 && r.C.N("op", 6) == 0 {
			// the account named before is named again
			a = p.Parts[len(p.Parts)-1].Acct
			part = func(x Part) {
				y := &p.Parts[len(p.Parts)-1]
				if x.Fixed != nil && y.Fixed != nil {
					x.Fixed = new(big.Int).Add(x.Fixed, y.Fixed)
				}
				if x.Perc != nil && y.Perc != nil {
					x.Perc = new(big.Rat).Add(x.Perc, y.Perc)
				}
				if x.Fixed != nil {
					y.Fixed = x.Fixed
				}
				if x.Perc != nil {
					y.Perc = x.Perc
				}
			}
		}
		switch {
		case last:
			ds = append(ds, map[string]any{"identifier": a, "distribution": "left"})
			part(Part{Acct: a})
		case mode == 0 || mode == 3 && i%2 == 0 && left.Cmp(big.NewInt(10)) > 0:
			x := new(big.Int).Rsh(left, 1)
			if x.IsInt64() && x.Int64() < 1<<30 {
				x.SetInt64(int64(1 + r.C.N("op", int(x.Int64()))))
			} else {
				x.Mul(x, big.NewInt(int64(1+r.C.N("op", 100)))).Div(x, big.NewInt(100))
			}
			left.Sub(left, x)
			if !x.IsInt64() || r.C.N("op", 3) == 0 { // as a decimal (a precise_distribution has 64 bits)
				ds = append(ds, map[string]any{"identifier": a, "distribution": new(big.Rat).SetFrac(x, big.NewInt(p.Prec)).FloatString(len(fmt.Sprint(p.Prec)) - 1)})
			} else {
				ds = append(ds, map[string]any{"identifier": a, "precise_distribution": x.String()})
			}
			part(Part{Acct: a, Fixed: x})
		default:
			pc := []string{"10", "33.33", "20", "7.5"}[r.C.N("op", 4)]
			ds = append(ds, map[string]any{"identifier": a, "distribution": pc + "%"})
			x, _ := new(big.Rat).SetString(pc)
			part(Part{Acct: a, Perc: x.Mul(x, big.NewRat(1, 100))})
		}
	}
	if toSources {
		delete(p.Body, "source")
		p.Src = ""
		p.Body["sources"] = ds
		if p.Dst[0] != '@' {
			p.Dst = "@sink0"
			p.Body["destination"] = p.Dst
		}
	} else {
		delete(p.Body, "destination")
		p.Dst = ""
		p.Body["destinations"] = ds
		if p.Src[0] != '@' {
			in := false
			for _, x := range p.Parts {
				in = in || x.Acct == p.Src
			}
			if in {
				p.Src = "@world"
				p.Body["source"] = p.Src
				p.NoLimit = true
				r.Posts = r.Posts[:len(r.Posts)-1]
				r.finishPost(p)
			}
		}
	}
	if r.C.N("op", 3) != 0 {
		p.Atomic = true
		p.Body["atomic"] = true
	}
}

func (r *MixRun) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + r.C.N("op", n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func (r *MixRun) bulk(c *Client) {
	b := &Bulk{Atomic: r.C.N("op", 4) != 1, Inflight: r.C.N("op", 3) == 1, Async: r.C.N("op", 3) == 1, Queued: r.C.N("op", 3) == 1}
	n := 2 + r.C.N("op", 4)
	var txs []map[string]any
	for i := 0; i < n; i++ {
		p := r.newPost("bulk")
		p.Bulk = b
		p.Inflight = b.Inflight
		p.Queue = b.Queued
		if r.C.N("op", 6) == 1 { // a member that cannot be paid
			p.Amount = r.scaled(1 << 40)
			delete(p.Body, "amount")
			p.Body["precise_amount"] = p.Amount
			delete(p.Body, "allow_overdraft")
			delete(p.Body, "overdraft_limit")
			p.NoLimit, p.Over = false, new(big.Int)
			if p.Src == "@world" {
				p.Src = r.Accts[0]
				p.Body["source"] = p.Src
				if p.Dst == p.Src {
					p.Dst = r.Accts[1]
					p.Body["destination"] = p.Dst
				}
			}
			r.Led.Limit[p.Ref] = p.Over
		} else if r.C.N("op", 6) == 1 {
			r.distribute(p)
		}
		b.Posts = append(b.Posts, p)
		txs = append(txs, p.Body)
	}
	r.Bulks = append(r.Bulks, b)
	b.Req = c.Do("POST", "/transactions/bulk", map[string]any{"transactions": txs, "atomic": b.Atomic, "inflight": b.Inflight, "run_async": b.Async, "skip_queue": !b.Queued})
	b.ID = b.Req.S("batch_id")
}

// ---------------------------------------------------------------- resolving names

// balID is the balance a name stands for, once it exists.
func (r *MixRun) balID(name, cur string) string {
	if !strings.HasPrefix(name, "@") {
		return name
	}
	for _, id := range sortedKeys(r.Led.Bal) {
		if b := r.Led.Bal[id]; b.Indicator == name && b.Currency == cur {
			return id
		}
	}
	return ""
}

var _ = url.QueryEscape
var _ = core.NewChoices
