package main

import (
	"fmt"
	"math/big"
	"strings"
)

// ---------------------------------------------------------------- P15 first uses of indicators

type firsts struct {
	looks []*look
	mk    []*look
}

type look struct {
	name, cur string
	req       *Req
}

// firstOp uses an indicator that several clients meet at about the same time, in some way.
func firstOp(r *MixRun, c *Client) {
	f, _ := r.x.(*firsts)
	if f == nil {
		f = &firsts{}
		r.x = f
	}
	r.n++
	name := fmt.Sprintf("@n%d", r.n/6)
	cur := []string{"USD", "EUR", "USD", "GBP"}[(r.n/2)%4]
	if r.C.N("op", 4) == 1 {
		cur = []string{"USD", "EUR", "GBP"}[r.C.N("op", 3)]
	}
	switch r.C.W("op", 8, 2, 1) {
	case 1:
		q := c.Do("POST", "/balances", map[string]any{"ledger_id": "general_ledger_id", "currency": cur, "indicator": name})
		f.mk = append(f.mk, &look{name, cur, q})
		return
	case 2:
		q := c.Do("GET", "/balances/indicator/"+name+"/currency/"+cur, nil)
		f.looks = append(f.looks, &look{name, cur, q})
		return
	}
	p := &Post{Ref: fmt.Sprintf("ref%dx", r.n), Currency: cur, Amount: big.NewInt(int64(1 + r.C.N("op", 900))), NoLimit: true, Prec: minorUnits}
	p.Src, p.Dst = "@world", name
	switch r.C.N("op", 4) {
	case 1:
		p.Src, p.Dst = name, "@sink"
	case 2:
		p.Src, p.Dst = name, fmt.Sprintf("@n%d", r.n/6+1)
	case 3:
		if cur == "USD" {
			p.Src = r.Accts[r.C.N("op", len(r.Accts))]
		}
	}
	p.Queue = r.C.N("op", 2) == 1
	p.Body = map[string]any{"precision": minorUnits, "currency": cur, "source": p.Src, "destination": p.Dst, "reference": p.Ref, "description": "first", "precise_amount": p.Amount}
	if r.C.N("op", 5) == 1 {
		p.Inflight = true
		p.Body["inflight"] = true
		r.Holds = append(r.Holds, p)
	}
	r.finishPost(p)
	r.submitRetry(c, p)
}

func (r *MixRun) checkFirsts() {
	f, _ := r.x.(*firsts)
	if f == nil {
		return
	}
	calm := r.W.FaultCount() == 0
	for _, p := range r.Posts {
		if len(p.Parts) > 0 || p.Bulk != nil {
			continue
		}
		eff, rej := r.terminal(p.Ref)
		for _, t := range eff {
			r.Count["firsts_checked"]++
			for _, e := range [][2]string{{p.Src, t.Src}, {p.Dst, t.Dst}} {
				if strings.HasPrefix(e[0], "@") && r.balID(e[0], p.Currency) != e[1] {
					r.Violate("P15", "posted elsewhere", "%v names %s in %s, which is balance %q; recorded is %s", p.Body, e[0], p.Currency, r.balID(e[0], p.Currency), r.Led.describe([]*LTxn{t}))
				}
			}
		}
		if !calm || !p.NoLimit || len(eff) > 0 {
			continue
		}
		why := ""
		for _, t := range rej {
			why, _ = t.Meta["blnk_rejection_reason"].(string)
		}
		for _, q := range p.Reqs {
			if !q.OK() {
				why = q.Resp
			}
		}
		if strings.Contains(why, "lock") && !strings.Contains(why, "deadlock") {
			continue // contention on the lock is its own answer
		}
		r.Violate("P15", "first use lost", "%v was refused (%s) without any fault", p.Body, clip(why, 200))
	}
	for _, x := range f.looks {
		if x.req.Status != 200 {
			continue
		}
		if id := x.req.S("balance_id"); id != r.balID(x.name, x.cur) {
			r.Violate("P15", "found another balance", "%s; %s in %s is %s", x.req, x.name, x.cur, r.balID(x.name, x.cur))
		}
	}
	for _, x := range f.mk {
		if x.req.OK() && x.req.S("balance_id") != r.balID(x.name, x.cur) {
			r.Violate("P15", "created another balance", "%s; %s in %s is %s", x.req, x.name, x.cur, r.balID(x.name, x.cur))
		}
		if calm && !x.req.OK() && r.balID(x.name, x.cur) == "" {
			r.Violate("P15", "first use lost", "%s, and no such balance exists", x.req)
		}
	}
	for _, p := range r.Posts {
		for _, q := range p.Reqs {
			if q.OK() {
				continue
			}
			r.Count[fmt.Sprintf("first_refused_%s", clip(strings.Map(keepWord, q.Resp), 60))]++
		}
	}
}

func keepWord(c rune) rune {
	if c >= 'a' && c <= 'z' || c == ' ' {
		return c
	}
	return -1
}
