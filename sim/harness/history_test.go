package main

import (
	"fmt"
	"math/big"
	"net/url"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P16 historical balances

type past struct {
	bal    string
	at     time.Time
	source bool
	req    *Req
}

type snapshot struct {
	at   time.Time
	seq  int64
	c, d *big.Int
}

type history struct {
	asks  []*past
	snaps map[string][]snapshot
	days  map[string]bool
}

// effective makes some postings take effect at another date than now.
func (r *MixRun) effective(p *Post) {
	if r.C.N("op", 3) != 1 {
		return
	}
	d := time.Duration(r.C.N("op", 3000)-1500) * time.Minute
	p.Body["effective_date"] = time.Now().UTC().Add(d).Truncate(time.Second).Format(time.RFC3339)
	r.Count["dated_posts"]++
}

func (r *MixRun) watchSnapshots() {
	x := &history{snaps: map[string][]snapshot{}, days: map[string]bool{}}
	r.x = x
	r.onCommit = append(r.onCommit, func(owner string, ch []pgsim.Change) {
		bals := 0
		snaps := 0
		for _, c := range ch {
			switch c.Table.Name() {
			case "balances", "transactions":
				bals++
			case "balance_snapshots":
				snaps++
				if c.Old != nil {
					r.Violate("P16", "a snapshot was changed", "commit #%d by %s", r.Eng.Seq(), owner)
					continue
				}
				s := Row{c.Table, c.New}
				id := s.S("balance_id")
				at := s.T("snapshot_time")
				b := r.Led.Bal[id]
				want := map[string]*big.Int{"credit_balance": new(big.Int), "debit_balance": new(big.Int), "inflight_credit_balance": new(big.Int), "inflight_debit_balance": new(big.Int)}
				if b != nil {
					want["credit_balance"], want["debit_balance"], want["inflight_credit_balance"], want["inflight_debit_balance"] = b.C, b.D, b.IC, b.ID_
				}
				want["balance"] = new(big.Int).Sub(want["credit_balance"], want["debit_balance"])
				want["inflight_balance"] = new(big.Int).Sub(want["inflight_credit_balance"], want["inflight_debit_balance"])
				for k, v := range want {
					if g := s.Big(k); g == nil || g.Cmp(v) != 0 {
						r.Violate("P16", "a snapshot differs from the balance in "+k, "snapshot of %s at %v: %s=%v, the recorded transactions make %v", id, at, k, g, v)
					}
				}
				if d := time.Since(at); d < -time.Second || d > 10*time.Minute {
					r.Violate("P16", "a snapshot is dated wrongly", "snapshot of %s dated %v is stored at %v", id, at, time.Now())
				}
				day := id + at.UTC().Format(" 2006-01-02")
				if x.days[day] {
					r.Violate("P16", "more than one snapshot of a balance and day", "another snapshot of %s", day)
				}
				x.days[day] = true
				x.snaps[id] = append(x.snaps[id], snapshot{at, r.Eng.Seq(), s.Big("credit_balance"), s.Big("debit_balance")})
				r.Count["snapshots"]++
			}
		}
		if snaps > 0 && bals > 0 {
			r.Violate("P16", "taking snapshots changed balances", "commit #%d by %s", r.Eng.Seq(), owner)
		}
	})
}

func historyOp(r *MixRun, c *Client) {
	if r.C.N("op", 4) == 1 {
		path := "/balances-snapshots"
		if b := []string{"", "?batch_size=1", "?batch_size=2", "?batch_size=1000"}[r.C.N("op", 4)]; b != "" {
			path += b
		}
		c.Do("POST", path, nil)
		return
	}
	r.ask(c)
}

// moments are the times worth asking for: around commits and snapshots.
func (r *MixRun) moment(bal string) time.Time {
	x := r.x.(*history)
	var l []time.Time
	for _, t := range r.Led.All {
		if t.Src == bal || t.Dst == bal {
			l = append(l, t.Effective)
		}
	}
	for _, s := range x.snaps[bal] {
		l = append(l, s.at)
	}
	now := time.Now().UTC()
	if len(l) == 0 || r.C.N("op", 4) == 1 {
		return now.Add(-time.Duration(r.C.N("op", 2000)) * time.Minute * time.Duration(r.C.N("op", 2)))
	}
	t := l[len(l)-1-r.C.N("op", min(len(l), 12))]
	return t.Add([]time.Duration{0, 0, -time.Microsecond, time.Microsecond, time.Second, -time.Second, time.Hour}[r.C.N("op", 7)]).UTC()
}

func (r *MixRun) ask(c *Client) {
	x := r.x.(*history)
	bal := r.Accts[r.C.N("op", len(r.Accts))]
	p := &past{bal: bal, at: r.moment(bal).Truncate(time.Microsecond), source: r.C.N("op", 3) == 1}
	path := "/balances/" + bal + "/at?timestamp=" + url.QueryEscape(p.at.Format(time.RFC3339Nano))
	if p.source {
		path += "&from_source=true"
	}
	p.req = c.Do("GET", path, nil)
	x.asks = append(x.asks, p)
}

// checkHistory asks for more and compares all answers with the recorded transactions.
func (r *MixRun) checkHistory() {
	r.Setup(func(c *Client) {
		for i := 0; i < 40; i++ {
			r.ask(c)
		}
	})
	r.judgeHistory()
}

func (r *MixRun) judgeHistory() {
	x := r.x.(*history)
	for _, p := range x.asks {
		q := p.req
		if !q.OK() {
			if q.Status >= 400 && r.W.FaultCount() == 0 {
				r.Violate("P16", "no answer", "%s", q)
			}
			continue
		}
		b, _ := q.JSON["balance"].(map[string]any)
		gc, _ := new(big.Int).SetString(str(b["credit_balance"]), 10)
		gd, _ := new(big.Int).SetString(str(b["debit_balance"]), 10)
		gb, _ := new(big.Int).SetString(str(b["balance"]), 10)
		if gc == nil || gd == nil || gb == nil {
			r.Fail("no balance in %s", q)
			return
		}
		// the points between which the answer was made
		var points []int64
		points = append(points, q.InvSeq)
		for _, t := range r.Led.All {
			if t.Seq > q.InvSeq && t.Seq <= q.RetSeq {
				points = append(points, t.Seq)
			}
		}
		for _, s := range x.snaps[p.bal] {
			if s.seq > q.InvSeq && s.seq <= q.RetSeq {
				points = append(points, s.seq)
			}
		}
		ok, how := false, ""
		var made []string
		for _, k := range points {
			wc, wd := r.past(p, k, nil)
			if wc.Cmp(gc) == 0 && wd.Cmp(gd) == 0 {
				ok = true
				break
			}
			made = append(made, fmt.Sprintf("credit %v debit %v at #%d", wc, wd, k))
		}
		r.Count["history_checked"]++
		if ok {
			if gb.Cmp(new(big.Int).Sub(gc, gd)) != 0 {
				r.Violate("P16", "balance is not credits less debits", "%s", q)
			}
			continue
		}
		what := fmt.Sprintf("%s at %s (from source: %v): the recorded transactions make %v; %s", p.bal, p.at.Format(time.RFC3339Nano), p.source, made, q)
		if p.source {
			r.Violate("P16", "differs from the recorded transactions", "%s", what)
			continue
		}
		// A snapshot counts what was recorded before it, and the rest is told apart by date.
		// An answer that is exactly that and wrong has a transaction whose date is on the other side.
		for _, k := range points {
			var s *snapshot
			for i := range x.snaps[p.bal] {
				if v := &x.snaps[p.bal][i]; !v.at.After(p.at) && v.seq <= k && (s == nil || v.at.After(s.at)) {
					s = v
				}
			}
			if s == nil {
				continue
			}
			wc, wd := r.past(p, k, s)
			if wc.Cmp(gc) != 0 || wd.Cmp(gd) != 0 {
				continue
			}
			for _, t := range r.Led.All {
				if t.Status != "APPLIED" || t.Src != p.bal && t.Dst != p.bal || t.Seq > k {
					continue
				}
				late := t.Seq > s.seq && !t.Effective.After(s.at)
				early := t.Seq < s.seq && t.Effective.After(s.at)
				if !late && !early {
					continue
				}
				what += fmt.Sprintf("; %s effective %v recorded as #%d; snapshot #%d %v", r.Led.describe([]*LTxn{t}), t.Effective, t.Seq, s.seq, s.at)
				switch {
				case r.M.Effective && !t.Effective.Equal(t.Created):
					how = "a transaction dated to the other side of a snapshot"
				case how == "":
					how = "a transaction created before a snapshot and committed after it"
				}
			}
			break
		}
		if how == "" {
			how = "differs from the recorded transactions by a snapshot"
		}
		r.Count["history_snapshot_wrong"]++
		r.Violate("P16", how, "%s", what)
	}
}

// past is the balance at a moment according to what was recorded up to commit k; with s, taking
// what a snapshot says and adding what is dated after it.
func (r *MixRun) past(p *past, k int64, s *snapshot) (wc, wd *big.Int) {
	wc, wd = new(big.Int), new(big.Int)
	if s != nil {
		wc.Set(s.c)
		wd.Set(s.d)
	}
	for _, t := range r.Led.All {
		if t.Seq > k || t.Status != "APPLIED" || t.Effective.After(p.at) || s != nil && !t.Effective.After(s.at) {
			continue
		}
		if t.Src == p.bal {
			wd.Add(wd, t.Amount)
		}
		if t.Dst == p.bal {
			wc.Add(wc, t.Amount)
		}
	}
	return wc, wd
}

// runHistory is a run over several days: the service is down in between.
func runHistory(s *Sim, m Mix) {
	r := newMix(s, m)
	start := 24*time.Hour - time.Duration(s.C.N("cfg", 240))*time.Second
	if s.C.N("cfg", 3) == 1 {
		start = time.Duration(s.C.N("cfg", 86400)) * time.Second
	}
	s.W.Run(func() bool { return false }, start)
	r.boot()
	r.setup()
	r.watchSnapshots()
	for day := 0; ; day++ {
		r.traffic()
		if day == 2 || s.C.N("cfg", 3) == 0 {
			break
		}
		s.W.Heal()
		s.SettleAll(r.M.Horizon)
		r.night(time.Duration(1+s.C.N("cfg", 3000)) * time.Minute)
	}
	r.finish()
}

// night has the service down for a while.
func (r *MixRun) night(d time.Duration) {
	s := r.Sim
	for _, n := range r.M.Nodes {
		s.W.Crash(s.W.Cur[n])
	}
	s.Pass(d)
	for _, n := range r.M.Nodes {
		s.W.Restart(n)
	}
	if !s.W.Run(func() bool { return len(s.upNodes("")) == len(r.M.Nodes) }, 10*time.Minute) {
		s.Fail("the nodes did not come back: %v", s.W.Parked())
		panic(simStop)
	}
	s.Count["nights"]++
}
