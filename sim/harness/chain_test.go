package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P21 the hash chain

type chainWatch struct {
	last int64
	head string
}

var sealed = []string{"transaction_id", "source", "destination", "amount", "precise_amount", "currency", "status", "reference", "created_at"}

func chainConfig(c *config.Configuration) {
	n := theSim.C
	h := &c.Transaction.HashChain
	h.Enabled = true
	h.PollInterval = []time.Duration{time.Second, 300 * time.Millisecond, 5 * time.Second}[n.N("cfg", 3)]
	h.BatchSize = []int{3, 1, 7, 1000}[n.N("cfg", 4)]
	h.TrailingDelay = []time.Duration{time.Second, 10 * time.Millisecond, 30 * time.Second}[n.N("cfg", 3)]
}

func (r *MixRun) watchChain() {
	w := &chainWatch{head: strings.Repeat("0", 64)}
	r.x = w
	s := r.Sim
	s.onCommit = append(s.onCommit, func(owner string, ch []pgsim.Change) {
		type link struct {
			seq        int64
			prev, hash string
			id         string
		}
		var links []link
		var state *Row
		for _, c := range ch {
			switch c.Table.Name() {
			case "chain_state":
				if c.New == nil {
					s.Violate("P21", "the chain state was removed", "by %s", owner)
					continue
				}
				state = &Row{c.Table, c.New}
			case "transactions":
				var o, n *Row
				if c.Old != nil {
					o = &Row{c.Table, c.Old}
				}
				if c.New != nil {
					n = &Row{c.Table, c.New}
				}
				if o != nil && !o.Null("chain_seq") {
					if n == nil {
						s.Violate("P21", "a chained transaction was removed", "%s by %s", o.S("transaction_id"), owner)
						continue
					}
					for _, f := range append([]string{"chain_seq", "chain_prev_hash", "chain_hash"}, sealed...) {
						if o.S(f) != n.S(f) {
							s.Violate("P21", "a chained transaction changed", "%s of %s from %q to %q by %s", f, o.S("transaction_id"), o.S(f), n.S(f), owner)
						}
					}
				} else if n != nil && !n.Null("chain_seq") {
					links = append(links, link{n.I("chain_seq"), n.S("chain_prev_hash"), n.S("chain_hash"), n.S("transaction_id")})
				}
			}
		}
		sort.Slice(links, func(i, j int) bool { return links[i].seq < links[j].seq })
		if len(links) > 0 {
			s.Count["chain_batches"]++
			s.Count["chained"] += len(links)
		}
		for _, l := range links {
			if l.seq != w.last+1 {
				s.Violate("P21", "a gap in the chain", "commit #%d by %s chains %s as %d after %d", s.Eng.Seq(), owner, l.id, l.seq, w.last)
			}
			if l.prev != w.head {
				s.Violate("P21", "not linked to its predecessor", "commit #%d by %s chains %s as %d on %s, the head is %s", s.Eng.Seq(), owner, l.id, l.seq, l.prev, w.head)
			}
			w.last, w.head = l.seq, l.hash
		}
		if (len(links) > 0 || state != nil) && (state == nil || state.I("last_seq") != w.last || state.S("head_hash") != w.head) {
			s.Violate("P21", "the recorded head is not the end of the chain", "commit #%d by %s leaves the chain at %d %s", s.Eng.Seq(), owner, w.last, w.head)
		}
	})
}

// verify runs the verification on some node.
func (r *MixRun) verify(c *Client) (res blnk.ChainVerifyResult, err error, done bool) {
	done = c.On("verify", func(n *Node) { res, err = n.b.VerifyChain(context.Background(), nil) })
	return
}

func verifyOp(r *MixRun, c *Client) {
	f := r.W.FaultCount()
	from := r.W.Now()
	res, err, done := r.verify(c)
	if !done {
		return
	}
	if err != nil {
		if f == r.W.FaultCount() && r.cleanSince(from-2*time.Minute) {
			r.Violate("P21", "the verification fails", "%v", err)
		}
		return
	}
	r.Count["verified"]++
	if !res.Verified {
		r.Violate("P21", "an untouched chain is called broken", "%+v", res)
	}
}

func (r *MixRun) checkChain() {
	w := r.x.(*chainWatch)
	s := r.Sim
	h := s.Cfg.Transaction.HashChain
	rows := s.Eng.Table("transactions").CountCommitted()
	s.Pass(h.TrailingDelay + time.Duration(3+rows/h.BatchSize/40)*h.PollInterval + 20*time.Second)
	open := 0
	for _, t := range s.Rows("transactions", nil) {
		if t.Null("chain_seq") && t.T("created_at").Before(time.Now().Add(-h.TrailingDelay-4*h.PollInterval-10*time.Second)) {
			open++
			if open == 1 {
				s.Violate("P21", "never chained", "%s created %v is not in the chain at %v (batches of %d every %v after %v)", t.S("transaction_id"), t.T("created_at"), time.Now(), h.BatchSize, h.PollInterval, h.TrailingDelay)
			}
		}
	}
	s.Setup(func(c *Client) {
		c.On("verify-chain", func(n *Node) {
			cmd := verifyChainCommands(n.inst)
			cmd.SetArgs([]string{})
			if err := cmd.Execute(); err != nil {
				s.Violate("P21", "verify-chain refuses an untouched chain", "%v", err)
			}
		})
		for _, inc := range s.upNodes("a") {
			c.Pin = inc.Name
			c.On("stop", func(n *Node) { n.chain.Stop() })
		}
		c.Pin = ""
		if w.last == 0 {
			return
		}
		for i := 0; i < 8; i++ {
			r.tamper(c, w)
		}
		if res, err, _ := r.verify(c); err != nil || !res.Verified || res.LastSeq != w.last || res.HeadHash != w.head {
			s.Violate("P21", "an untouched chain is called broken", "%+v %v; the chain ends at %d %s", res, err, w.last, w.head)
		}
	})
}

// tamper changes what is stored behind the service's back, has it verified and puts it back.
func (r *MixRun) tamper(c *Client, w *chainWatch) {
	s := r.Sim
	t := s.Eng.Table("transactions")
	ids := map[int64]int64{} // by place in the chain
	data := map[int64][]any{}
	t.EachCommitted(func(id int64, d []any) {
		if x := (Row{t, d}); !x.Null("chain_seq") {
			ids[x.I("chain_seq")] = id
			data[id] = d
		}
	})
	var undo []func()
	edit := func(id int64, f func(set func(col string, v any))) {
		d := data[id]
		f(func(col string, v any) {
			if !s.Eng.Tamper("transactions", id, col, v, false) {
				panic("tamper")
			}
		})
		undo = append(undo, func() { s.Eng.Put("transactions", id, d) })
	}
	remove := func(id int64) {
		d := data[id]
		s.Eng.Put("transactions", id, nil)
		undo = append(undo, func() { s.Eng.Put("transactions", id, d) })
	}
	at := 1 + int64(s.C.N("tamper", int(w.last)))
	if s.C.N("tamper", 4) == 1 {
		at = w.last - int64(s.C.N("tamper", int(min(w.last, 3))))
	}
	id := ids[at]
	row := Row{t, data[id]}
	what := ""
	switch s.C.W("tamper", 8, 2, 3, 3, 2, 2, 1) {
	case 0:
		col := sealed[s.C.N("tamper", len(sealed))]
		what = fmt.Sprintf("changed %s of entry %d", col, at)
		edit(id, func(set func(string, any)) {
			switch col {
			case "amount", "precise_amount":
				v := row.S(col)
				if strings.HasPrefix(v, "1") {
					v = "2" + v[1:]
				} else {
					v = "1" + v
				}
				set(col, v)
			case "created_at":
				set(col, row.T(col).Add([]time.Duration{time.Microsecond, -time.Hour}[s.C.N("tamper", 2)]).UTC().Format("2006-01-02 15:04:05.999999"))
			case "status":
				v := "REJECTED"
				if row.S(col) == v {
					v = "APPLIED"
				}
				set(col, v)
			default:
				v := row.S(col)
				if v == "" {
					v = "x"
				} else {
					l := "a"
					if strings.HasSuffix(v, l) {
						l = "b"
					}
					v = v[:len(v)-1] + l
				}
				set(col, v)
			}
		})
	case 1:
		what = fmt.Sprintf("removed entry %d", at)
		remove(id)
	case 2:
		what = fmt.Sprintf("removed the entries from %d on", at)
		for i := at; i <= w.last; i++ {
			remove(ids[i])
		}
	case 3:
		what = fmt.Sprintf("took the entries from %d on out of the chain", at)
		for i := at; i <= w.last; i++ {
			edit(ids[i], func(set func(string, any)) {
				set("chain_seq", nil)
				set("chain_prev_hash", nil)
				set("chain_hash", nil)
			})
		}
	case 4:
		if w.last < 2 {
			return
		}
		o := 1 + int64(s.C.N("tamper", int(w.last)))
		if o == at {
			o = at%w.last + 1
		}
		what = fmt.Sprintf("swapped entries %d and %d", at, o)
		other := Row{t, data[ids[o]]}
		full := s.C.N("tamper", 2) == 1
		edit(id, func(set func(string, any)) {
			set("chain_seq", o)
			if full {
				set("chain_prev_hash", other.S("chain_prev_hash"))
				set("chain_hash", other.S("chain_hash"))
			}
		})
		edit(ids[o], func(set func(string, any)) {
			set("chain_seq", at)
			if full {
				set("chain_prev_hash", row.S("chain_prev_hash"))
				set("chain_hash", row.S("chain_hash"))
			}
		})
	case 5:
		col := []string{"chain_hash", "chain_prev_hash"}[s.C.N("tamper", 2)]
		what = fmt.Sprintf("changed %s of entry %d", col, at)
		edit(id, func(set func(string, any)) { set(col, strings.Repeat("ab", 32)) })
	case 6:
		what = "changed the recorded head"
		st := s.Eng.Table("chain_state")
		var sid int64
		var sd []any
		st.EachCommitted(func(id int64, d []any) { sid, sd = id, d })
		s.Eng.Tamper("chain_state", sid, "head_hash", strings.Repeat("cd", 32), false)
		undo = append(undo, func() { s.Eng.Put("chain_state", sid, sd) })
	}
	kind, _, _ := strings.Cut(what, " entr")
	kind, _, _ = strings.Cut(kind, " of")
	if strings.Contains(what, "from") || strings.HasSuffix(what, fmt.Sprintf("removed entry %d", w.last)) {
		kind = "the last entries " + strings.Fields(kind)[0]
	}
	res, err, _ := r.verify(c)
	s.Count["tampered"]++
	if err == nil && res.Verified {
		s.Violate("P21", "undetected: "+kind, "somebody %s (the chain ends at %d), yet %+v", what, w.last, res)
	}
	for i := len(undo) - 1; i >= 0; i-- {
		undo[i]()
	}
}

// backfill is an installation that has transactions from before the chain.
func backfill(s *Sim) {
	n := []int{1003, 1000, 2300, 60}[s.C.N("cfg", 4)]
	ses := s.Eng.NewSession("import")
	for i := 0; i < n; i++ {
		if _, _, err := ses.Exec(`INSERT INTO blnk.transactions (transaction_id, source, destination, description, reference, amount, precise_amount, precision, currency, status, hash, created_at, effective_date, meta_data)
			VALUES ($1, NULL, NULL, 'old', $2, 1, 100, 100, 'USD', 'APPLIED', 'h', CAST($3 AS timestamp), CAST($3 AS timestamp), '{}')`,
			[]any{fmt.Sprintf("txn_old%d", i), fmt.Sprintf("old%d", i), time.Now().Add(-time.Hour).UTC().Format("2006-01-02 15:04:05.999999")}); err != nil {
			panic(err)
		}
	}
}
