package main

import (
	"fmt"
	"math/big"
	"strings"
	"time"
)

// ---------------------------------------------------------------- P17 balance monitors

type Monitor struct {
	ID, Bal, Field, Op string
	V                  *big.Int
	From               int64 // commits after this one count
	Seen               int   // events before From
	Gone               bool
}

type monitors struct{ all []*Monitor }

// monitorCache is how long a node may act on monitors that have changed since.
const monitorCache = 6*time.Minute + 10*time.Second

var monFields = []string{"balance", "credit_balance", "debit_balance", "inflight_balance", "inflight_credit_balance", "inflight_debit_balance"}
var monOps = []string{">", "<", ">=", "<=", "!=", "="}

func (m *Monitor) met(v LVer) bool {
	var x *big.Int
	switch m.Field {
	case "balance":
		x = new(big.Int).Sub(v.C, v.D)
	case "credit_balance":
		x = v.C
	case "debit_balance":
		x = v.D
	case "inflight_balance":
		x = new(big.Int).Sub(v.IC, v.IDb)
	case "inflight_credit_balance":
		x = v.IC
	case "inflight_debit_balance":
		x = v.IDb
	}
	c := x.Cmp(m.V)
	switch m.Op {
	case ">":
		return c > 0
	case "<":
		return c < 0
	case ">=":
		return c >= 0
	case "<=":
		return c <= 0
	case "!=":
		return c != 0
	}
	return c == 0
}

func (r *MixRun) randomMonitor(bal string) (*Monitor, map[string]any) {
	m := &Monitor{Bal: bal, Field: monFields[r.C.W("op", 3, 2, 2, 1, 1, 1)], Op: monOps[r.C.N("op", 6)]}
	top := int(r.M.Fund)
	if m.Field[0] == 'i' {
		top = 600
	}
	if m.Field[0] == 'd' {
		top = 2000
	}
	v := 1 + r.C.N("op", top)
	prec := 1
	if r.C.N("op", 2) == 1 { // whole units
		prec = minorUnits
		v = v/minorUnits + 1
	}
	if (m.Op == "=" || m.Op == "!=") && r.C.N("op", 3) > 0 { // a value the balance really has
		m.Field, v, prec = monFields[r.C.N("op", 2)], int(r.M.Fund), 1
	}
	m.V = r.scaled(int64(v * prec))
	return m, map[string]any{"balance_id": bal, "condition": map[string]any{"field": m.Field, "operator": m.Op, "value": r.scaled(int64(v)), "precision": prec}}
}

// makeMonitors opens the accounts anew, with monitors before any posting, and funds them.
func (r *MixRun) makeMonitors() {
	x := &monitors{}
	r.x = x
	r.Setup(func(c *Client) {
		for i := range r.Accts {
			a := c.Must("POST", "/balances", map[string]any{"ledger_id": r.ledger, "currency": "USD"}).S("balance_id")
			r.Accts[i] = a
			for k := 0; k < 3; k++ {
				m, body := r.randomMonitor(a)
				m.ID = c.Must("POST", "/balance-monitors", body).S("monitor_id")
				x.all = append(x.all, m)
			}
			c.Must("POST", "/transactions", map[string]any{"precise_amount": r.scaled(r.M.Fund), "precision": minorUnits, "currency": "USD", "source": "@world", "destination": a,
				"reference": fmt.Sprintf("refund%d", i), "description": "fund", "allow_overdraft": true, "skip_queue": true})
		}
	})
}

// fired counts the notifications of a monitor.
func (r *MixRun) fired(id string) (n int) {
	for _, e := range r.Ev.All {
		if e.Name == "balance.monitor" && e.Str("monitor_id") == id {
			n++
		}
	}
	return
}

func (r *MixRun) delivered(id string) (n int) {
	for _, h := range r.HTTPCalls {
		if h.Status < 200 || h.Status > 299 {
			continue
		}
		m := decode(h.Body)
		d, _ := m["data"].(map[string]any)
		if str(m["event"]) == "balance.monitor" && str(d["monitor_id"]) == id {
			n++
		}
	}
	return
}

func (r *MixRun) judgeMonitors(when string, calm bool) {
	x := r.x.(*monitors)
	posting := map[int64]bool{}
	for _, t := range r.Led.All {
		if t.Effect != "" {
			posting[t.Seq] = true
		}
	}
	for _, m := range x.all {
		want := 0
		for _, v := range r.Led.Bal[m.Bal].Hist {
			if v.Seq > m.From && posting[v.Seq] && !m.Gone && m.met(v) {
				want++
			}
		}
		got := r.fired(m.ID) - m.Seen
		r.Count["monitor_fires"] += got
		what := fmt.Sprintf("monitor %s (%s %s %s of %s)%s: %d postings left the balance so, %d notifications", m.ID, m.Field, m.Op, m.V, m.Bal, when, want, got)
		switch {
		case got > want && want == 0:
			r.Violate("P17", "fired for a condition never met"+when, "%s", what)
		case got > want:
			r.Violate("P17", "fired more often than met"+when, "%s", what)
		case got < want && calm:
			r.Violate("P17", "did not fire"+when, "%s", what)
		}
	}
}

// checkMonitors judges the run, then changes monitors and judges them once more.
func (r *MixRun) checkMonitors() {
	x := r.x.(*monitors)
	r.judgeMonitors("", r.W.FaultCount() == 0)
	if r.W.FaultCount() == 0 {
		for _, m := range x.all {
			if d := r.delivered(m.ID); d != r.fired(m.ID) {
				r.Violate("P17", "notification not delivered", "monitor %s: %d notifications queued, %d delivered", m.ID, r.fired(m.ID), d)
			}
		}
	}
	if r.C.N("op", 3) == 0 {
		return
	}
	// Half the time one node makes the changes and acts on them at once, as only other
	// nodes may go on with what they read before.
	node := ""
	if l := r.upNodes("a"); len(l) > 0 && r.C.N("op", 2) == 0 {
		node, _, _ = strings.Cut(l[r.C.N("op", len(l))].ID, "/")
	}
	var next []*Monitor
	r.Setup(func(c *Client) {
		c.Pin = node
		for _, m := range x.all {
			switch r.C.N("op", 3) {
			case 1:
				n, body := r.randomMonitor(m.Bal)
				c.Must("PUT", "/balance-monitors/"+m.ID, body)
				n.ID = m.ID
				m = n
			case 2:
				c.Must("DELETE", "/balance-monitors/"+m.ID, nil)
				m.Gone = true
			}
			next = append(next, m)
		}
		for _, a := range r.Accts {
			if r.C.N("op", 2) == 0 {
				continue
			}
			m, body := r.randomMonitor(a)
			m.ID = c.Must("POST", "/balance-monitors", body).S("monitor_id")
			next = append(next, m)
		}
	})
	if node == "" {
		r.Pass(monitorCache)
	}
	for _, m := range next {
		m.From = r.Eng.Seq()
		m.Seen = r.fired(m.ID)
	}
	x.all = next
	r.Setup(func(c *Client) {
		c.Pin = node
		for i := 0; i < 8; i++ {
			a := r.Accts[r.C.N("op", len(r.Accts))]
			p := map[string]any{"precision": minorUnits, "currency": "USD", "source": "@world", "destination": a, "reference": fmt.Sprintf("mon%d", i), "description": "m", "allow_overdraft": true, "skip_queue": true,
				"precise_amount": r.amount()}
			if r.C.N("op", 2) == 1 {
				p["source"], p["destination"] = a, "@sink0"
			}
			if r.C.N("op", 4) == 1 {
				p["inflight"] = true
			}
			c.Do("POST", "/transactions", p)
		}
	})
	r.Pass(20 * time.Second)
	r.judgeMonitors(" after a change", true)
}
