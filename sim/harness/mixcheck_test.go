package main

import (
	"math/big"
	"strings"
	"time"
)

// checkAll is the final check of a mixed run, over the recorded history.
func (r *MixRun) checkAll() {
	r.Led.final()
	for _, p := range r.Posts {
		switch {
		case p.Bulk != nil:
		case len(p.Parts) > 0:
			r.checkSplit(p, true)
		case p.Queue:
			r.checkQueued(p)
		default:
			r.checkSync(p)
		}
		r.checkActs(p)
	}
	for _, p := range r.Dated {
		r.checkDated(p)
	}
	r.checkRefunds()
	r.checkReads()
	for _, b := range r.Bulks {
		r.checkBulk(b)
	}
}

// final compares the tables with the model once more.
func (l *Ledger) final() {
	s := l.s
	n := 0
	s.Eng.Table("transactions").EachCommitted(func(_ int64, d []any) {
		row := Row{s.Eng.Table("transactions"), d}
		if strings.HasPrefix(row.S("transaction_id"), "txn_old") {
			return // from before the run
		}
		n++
		if l.Txns[row.S("transaction_id")] == nil {
			s.Fail("a row the model has not seen: %s", row.S("transaction_id"))
		}
	})
	if n != len(l.Txns) {
		s.Violate("P25", "lost", "%d transactions were recorded, %d are stored", len(l.Txns), n)
	}
	// every hold's remainder is still reserved: the inflight totals are the open holds
	open := map[string]*big.Int{}
	for _, t := range l.All {
		if t.Effect != "hold" {
			continue
		}
		c, v, _ := l.Used(t.ID)
		rest := new(big.Int).Sub(t.Amount, c)
		rest.Sub(rest, v)
		if q := l.Txns[t.Parent]; q != nil && q.Inflight {
			c, v, _ := l.Used(q.ID)
			rest.Sub(rest, c)
			rest.Sub(rest, v)
		}
		if open[t.Src] == nil {
			open[t.Src] = new(big.Int)
		}
		open[t.Src].Add(open[t.Src], rest)
	}
	for _, row := range s.Rows("balances", nil) {
		o := open[row.S("balance_id")]
		if o == nil {
			o = new(big.Int)
		}
		if d := row.Big("inflight_debit_balance"); d.Cmp(o) != 0 {
			s.Violate("P06", "reserved funds differ from the open holds", "balance %s has %s reserved, its open holds add up to %s", row.S("balance_id"), d, o)
		}
	}
}

func definite(q *Req) bool {
	if q.Status < 400 || q.Status >= 500 {
		return false
	}
	m := strings.ToLower(q.Resp)
	return strings.Contains(m, "insufficient funds") || strings.Contains(m, "exceeds overdraft limit") || strings.Contains(m, "already been used") || strings.Contains(m, "validation_error\",\"message\":\"either")
}

func (r *MixRun) matches(p *Post, t *LTxn) bool {
	if d, _ := p.Body["description"].(string); p.Bulk == nil && d != t.Desc {
		return false
	}
	if d, ok := p.Body["effective_date"].(string); ok {
		if at, err := time.Parse(time.RFC3339, d); err != nil || !t.Effective.Equal(at) {
			return false
		}
	}
	if m, ok := p.Body["meta_data"].(map[string]any); ok && p.Bulk == nil {
		for k, v := range m {
			if !sameJSON(v, t.Meta[k]) {
				return false
			}
		}
	}
	return t.Amount.Cmp(p.Amount) == 0 && t.Src == r.balID(p.Src, p.Currency) && t.Dst == r.balID(p.Dst, p.Currency) && t.Currency == p.Currency && (t.Effect == "hold") == p.Inflight
}

func (r *MixRun) checkSync(p *Post) {
	eff := r.Led.effectsOf(p.Ref)
	for _, t := range eff {
		if !r.matches(p, t) {
			r.Violate("P03", "posted differently", "%s was requested as %v and recorded as %s", p.Ref, p.Body, r.Led.describe([]*LTxn{t}))
		}
	}
	ok, allDefinite := 0, true
	var acked *Req
	for _, q := range p.Reqs {
		if q.OK() {
			ok++
			acked = q
			if len(eff) == 0 {
				r.Violate("P03", "acknowledged posting is not recorded", "%s; nothing is recorded for reference %s", q, p.Ref)
			} else if t := r.Led.Txns[q.S("transaction_id")]; t == nil || t != eff[0] {
				r.Violate("P03", "acknowledged posting is not recorded", "%s; recorded is %s", q, r.Led.describe(eff))
			} else if want := map[bool]string{false: "APPLIED", true: "INFLIGHT"}[p.Inflight]; q.S("status") != want || t.Status != want {
				r.Violate("P03", "acknowledged with another status", "%s; recorded is %s", q, r.Led.describe(eff))
			} else if t.Seq > q.RetSeq || t.Seq <= q.InvSeq {
				r.Violate("P05", "took effect outside its request", "%s took effect at commit %d, the request lasted from %d to %d", q, t.Seq, q.InvSeq, q.RetSeq)
			}
		}
		if !definite(q) {
			allDefinite = false
		}
		if q.Status >= 400 && q.Status < 500 && strings.Contains(q.Resp, "already been used") && len(r.Led.Refs[p.Ref]) == 0 {
			r.Violate("P03", "reported as duplicate but not recorded", "%s; nothing is recorded for reference %s", q, p.Ref)
		}
		r.checkInsufficient(p, q)
	}
	if ok > 1 {
		r.Violate("P03", "acknowledged twice", "reference %s was acknowledged %d times, last by %s", p.Ref, ok, acked)
	}
	if ok == 0 && allDefinite && len(p.Reqs) > 0 && len(eff) > 0 {
		r.Violate("P05", "refused posting took effect", "%s; recorded is %s", p.Reqs[0], r.Led.describe(eff))
	}
	for _, t := range eff {
		in := false
		for _, q := range p.Reqs {
			if t.Seq > q.InvSeq && (q.Status == 0 || t.Seq <= q.RetSeq || q.Status >= 400) {
				in = true
			}
		}
		if !in {
			r.Violate("P05", "took effect outside its request", "%s took effect at commit %d", r.Led.describe(eff), t.Seq)
		}
	}
}

// checkInsufficient: a refusal for lack of funds was true at some instant of the request.
func (r *MixRun) checkInsufficient(p *Post, q *Req) {
	m := strings.ToLower(q.Resp)
	if q.Status < 400 || !(strings.Contains(m, "insufficient funds") || strings.Contains(m, "exceeds overdraft limit")) || p.Bulk != nil || len(p.Parts) > 0 {
		return
	}
	if p.NoLimit {
		r.Violate("P05", "refused though unlimited", "%s", q)
		return
	}
	src := r.balID(p.Src, p.Currency)
	b := r.Led.Bal[src]
	if b == nil {
		return
	}
	lim := new(big.Int).Neg(p.Over)
	low := func(v LVer) bool {
		a := new(big.Int).Sub(v.C, v.D)
		a.Sub(a, v.IDb)
		a.Sub(a, p.Amount)
		return a.Cmp(lim) < 0
	}
	ok := false
	seen := false
	for i, v := range b.Hist {
		if v.Seq <= q.InvSeq {
			// current when the request arrived, if the next one came later
			if i == len(b.Hist)-1 || b.Hist[i+1].Seq > q.InvSeq {
				ok = ok || low(v)
				seen = true
			}
			continue
		}
		if v.Seq > q.RetSeq {
			break
		}
		ok = ok || low(v)
		seen = true
	}
	if !seen {
		ok = true // nothing yet on the balance
	}
	if !ok {
		r.Violate("P05", "refused though funds sufficed", "%s; the balance %s had enough at every instant of the request", q, src)
	}
}

// terminal lists the final outcomes recorded for a queued reference.
func (r *MixRun) terminal(ref string) (eff, rej []*LTxn) {
	eff = r.Led.effectsOf(ref)
	for _, x := range []string{ref, ref + "_q"} {
		for _, t := range r.Led.Refs[x] {
			if t.Status == "REJECTED" {
				rej = append(rej, t)
			}
		}
	}
	return
}

func (r *MixRun) checkQueued(p *Post) {
	prop := "P09"
	if !p.Sched.IsZero() {
		prop = "P13"
	}
	eff, rej := r.terminal(p.Ref)
	acked := 0
	var ack *Req
	for _, q := range p.Reqs {
		if q.OK() {
			acked++
			ack = q
		}
	}
	var parents []*LTxn
	for _, t := range r.Led.Refs[p.Ref] {
		if t.Status == "QUEUED" || t.Status == "SCHEDULED" {
			parents = append(parents, t)
		}
	}
	for _, t := range eff {
		if !r.matches(p, t) {
			r.Violate(prop, "outcome differs from the request", "%s was requested as %v and recorded as %s", p.Ref, p.Body, r.Led.describe([]*LTxn{t}))
		}
	}
	for _, t := range rej {
		if reason, _ := t.Meta["blnk_rejection_reason"].(string); reason == "" {
			r.Violate(prop, "rejected without a reason", "%s", r.Led.describe(rej))
		} else if p.NoLimit && (strings.Contains(reason, "insufficient funds") || strings.Contains(reason, "overdraft limit")) {
			r.Violate(prop, "rejected for funds though unlimited", "%s was requested as %v and rejected: %s", p.Ref, p.Body, reason)
		}
	}
	for _, t := range eff {
		if t.Batch && len(eff)+len(rej) > 1 {
			r.Violate("P10", "a member of a batch has another outcome", "reference %s: %s", p.Ref, r.Led.describe(append(append([]*LTxn{}, eff...), rej...)))
		}
	}
	if len(parents) == 1 && len(rej) == 1 && len(eff) == 0 {
		r.checkRefusal(p, parents[0], rej[0])
	}
	if len(eff) > 1 || len(rej) > 1 || (len(eff) > 0 && len(rej) > 0) {
		r.Violate(prop, "more than one outcome", "reference %s: %s", p.Ref, r.Led.describe(append(append([]*LTxn{}, eff...), rej...)))
	}
	if len(eff)+len(rej) == 0 {
		if len(parents) > 0 {
			r.Violate(prop, "recorded but no outcome", "%s is recorded as %s and never got an outcome", p.Ref, r.Led.describe(parents))
		} else if acked > 0 {
			r.Violate(prop, with("accepted but never recorded", r.why(p.Reqs...)), "%s; nothing is recorded for reference %s", ack, p.Ref)
		}
	}
	// scheduled: no effect before its time, whatever the rows say
	if !p.Sched.IsZero() {
		for _, t := range eff {
			if at := r.W.Epoch.Add(t.At); at.Before(p.Sched.Add(-1e9)) {
				r.Violate("P13", "early", "%s is scheduled for %s and took effect at %s", p.Ref, p.Sched.UTC(), at.UTC())
			}
		}
	}
}

// parts lists what took effect of a split, how many parts were rejected, how many queued.
func (r *MixRun) parts(p *Post) (eff []*LTxn, rej, queued int) {
	for _, t := range r.Led.All {
		if t.Ref == p.Ref || BaseRef(t.Ref) != p.Ref {
			continue
		}
		switch {
		case t.Status == "REJECTED":
			rej++
		case t.Status == "QUEUED":
			queued++
		}
		if t.Effect == "hold" || t.Effect == "plain" {
			eff = append(eff, t)
		}
	}
	return
}

// checkSplit checks the parts of a split. whole is false for a member of a queued bulk,
// which is taken back, in whatever state it is, when another member is rejected: whether
// the members stand or fall together is the bulk's property.
func (r *MixRun) checkSplit(p *Post, whole bool) {
	want := map[string]bool{}
	for _, x := range p.Parts {
		want[x.Acct] = true
	}
	byAcct := map[string][]*LTxn{}
	sum := new(big.Int)
	var eff []*LTxn
	var rej, queued int
	for _, t := range r.Led.All {
		if t.Ref == p.Ref || BaseRef(t.Ref) != p.Ref {
			continue
		}
		if t.Status == "REJECTED" {
			rej++
		}
		if t.Status == "QUEUED" {
			queued++
		}
		if t.Effect != "hold" && t.Effect != "plain" {
			continue
		}
		eff = append(eff, t)
		a := t.Dst
		if p.Src == "" {
			a = t.Src
		}
		byAcct[a] = append(byAcct[a], t)
		sum.Add(sum, t.Amount)
		other, name := t.Src, p.Src
		if p.Src == "" {
			other, name = t.Dst, p.Dst
		}
		if !want[a] || other != r.balID(name, p.Currency) {
			r.Violate("P11", "part of no account", "%s belongs to no part of %v", r.Led.describe([]*LTxn{t}), p.Body)
		}
	}
	for _, a := range sortedKeys(byAcct) {
		if len(byAcct[a]) > 1 {
			r.Violate("P11", "part twice", "account %s has %d parts of %s: %s", a, len(byAcct[a]), p.Ref, r.Led.describe(byAcct[a]))
		}
	}
	if len(eff) == 0 {
		for _, q := range p.Reqs {
			if q.OK() && !p.Queue {
				r.Violate("P11", "acknowledged split is not recorded", "%s; no part is recorded", q)
			}
		}
		if p.Queue && rej == 0 && queued == 0 {
			for _, q := range p.Reqs {
				if q.OK() {
					r.Violate("P09", with("accepted but never recorded", r.why(q)), "%s; no part is recorded", q)
				}
			}
		}
		return
	}
	// parts whose share is less than one minor unit may be left out
	missing := 0
	for _, x := range p.Parts {
		if len(byAcct[x.Acct]) > 0 {
			continue
		}
		tiny := x.Fixed == nil && x.Perc == nil && sum.Cmp(p.Amount) == 0 || p.Amount.Cmp(big.NewInt(1)) <= 0
		if x.Perc != nil && new(big.Rat).Mul(x.Perc, new(big.Rat).SetInt(p.Amount)).Cmp(big.NewRat(1, 1)) < 0 {
			tiny = true
		}
		if !tiny {
			missing++
		}
	}
	complete := missing == 0 && sum.Sign() > 0
	if complete {
		if sum.Cmp(p.Amount) != 0 {
			r.Violate("P11", "parts do not add up", "the parts of %s add up to %s: %s", p.Ref, sum, r.Led.describe(eff))
		}
		// fixed parts are exact; shares of a percentage are exact but for the rounding,
		// which is given to one of the parts
		perc := 0
		for _, x := range p.Parts {
			if x.Perc != nil {
				perc++
			}
		}
		slack := new(big.Rat).SetInt64(int64(perc))
		for _, x := range p.Parts {
			if x.Fixed == nil && x.Perc == nil {
				continue
			}
			want := new(big.Rat)
			if x.Fixed != nil {
				want.SetInt(x.Fixed)
			}
			if x.Perc != nil {
				want.Add(want, new(big.Rat).Mul(x.Perc, new(big.Rat).SetInt(p.Amount)))
			}
			for _, t := range byAcct[x.Acct] {
				d := new(big.Rat).Sub(new(big.Rat).SetInt(t.Amount), want)
				if d.Abs(d).Cmp(slack) > 0 {
					r.Violate("P11", "part differs", "account %s gets %s of %s, requested is %s of %s", x.Acct, t.Amount, p.Ref, want.FloatString(2), p.Amount)
				}
			}
		}
	}
	for _, t := range eff {
		if t.Amount.Sign() < 0 {
			r.Violate("P11", "part is negative", "%s", r.Led.describe(eff))
		}
	}
	// the parts named in the answer are the parts' transactions
	for _, q := range p.Reqs {
		if !q.OK() || p.Queue {
			continue
		}
		for _, side := range []string{"sources", "destinations"} {
			l, _ := q.JSON[side].([]any)
			for _, e := range l {
				m, _ := e.(map[string]any)
				id, _ := m["transaction_id"].(string)
				acct, _ := m["identifier"].(string)
				t := r.Led.Txns[id]
				if id == "" || t == nil {
					continue
				}
				got := t.Src
				if side == "destinations" {
					got = t.Dst
				}
				if got != acct {
					r.Violate("P11", "answer names another part's transaction", "%s names %s for %s; that is %s", q, id, acct, r.Led.describe([]*LTxn{t}))
				}
			}
		}
	}
	if p.Inflight {
		// reversed parts are voided ones
	}
	net := r.undone(eff)
	if net == len(eff) || !whole {
		return // everything was taken back
	}
	dated := !p.Expiry.IsZero() || !p.AutoAt.IsZero()
	if net > 0 && p.Atomic && !dated {
		r.Violate("P11", with("partly reversed", r.whyAround(p.Reqs...)), "%d of %d parts of %s were reversed: %s", net, len(eff), p.Ref, r.Led.describe(eff))
	}
	if complete {
		return
	}
	ackedSync := false
	for _, q := range p.Reqs {
		if q.OK() && !p.Queue {
			ackedSync = true
		}
	}
	switch {
	case ackedSync:
		r.Violate("P11", "acknowledged split is incomplete", "%s was acknowledged with %d of %d parts: %s", p.Ref, len(byAcct), len(want), r.Led.describe(eff))
	case p.Atomic:
		r.Violate("P11", with(map[bool]string{true: "atomic queued split left incomplete", false: "atomic split left incomplete"}[p.Queue], r.whyAround(p.Reqs...)), "%s has %d of %d parts: %s", p.Ref, len(byAcct), len(want), r.Led.describe(eff))
	case p.Queue && rej == 0 && len(eff) < queued:
		r.Violate("P09", "recorded but no outcome", "%d of %d parts of %s never got an outcome", queued-len(eff), queued, p.Ref)
	}
}

// undone counts the effects that were refunded or voided completely.
func (r *MixRun) undone(eff []*LTxn) int {
	n := 0
	for _, t := range eff {
		if t.Effect == "hold" {
			c, _, v := r.Led.Used(t.ID)
			if v > 0 && c.Sign() == 0 {
				n++
			}
			continue
		}
		if len(r.Led.effectsOf(t.ID+"_refund")) > 0 {
			n++
		}
	}
	return n
}

func (r *MixRun) checkActs(p *Post) {
	if len(p.Parts) > 0 || p.Bulk != nil {
		return
	}
	// consumption of the hold, whichever id it was addressed by
	ids := map[string]bool{}
	for _, a := range p.Acts {
		ids[a.ID] = true
	}
	holds := r.Led.effectsOf(p.Ref)
	for _, t := range holds {
		ids[t.ID] = true
	}
	com, gone := new(big.Int), new(big.Int)
	var used []*LTxn
	for _, id := range sortedKeys(ids) {
		c, v, _ := r.Led.Used(id)
		com.Add(com, c)
		gone.Add(gone, c)
		gone.Add(gone, v)
		used = append(used, r.Led.Kids[id]...)
	}
	held := new(big.Int)
	for _, t := range holds {
		if t.Effect == "hold" {
			held.Add(held, t.Amount)
		}
	}
	min, times := new(big.Int), map[string]int{}
	asked := map[string]bool{"commit": !p.AutoAt.IsZero(), "void": !p.Expiry.IsZero()}
	full := 0 // requests for all that is left
	if asked["commit"] {
		full++
	}
	for _, a := range p.Acts {
		asked[a.Kind] = true
		if a.Kind == "commit" && a.Amount == nil {
			full++
		}
		if a.Kind == "commit" && a.Amount != nil {
			times[a.Amount.String()]++
		}
		said := a.said()
		if said == "" {
			continue
		}
		if said == "done" && a.Amount != nil {
			min.Add(min, a.Amount)
		}
		if said == "done" && !a.Bulk {
			id := a.Req.S("transaction_id")
			t := r.Led.Txns[id]
			switch {
			case t == nil:
				r.Violate("P06", "acknowledged but not recorded", "%s; transaction %s is not recorded", a.Req, id)
			case a.Kind == "void" && t.Effect != "void", a.Kind == "commit" && t.Effect != "commit":
				r.Violate("P06", "acknowledged as something else", "%s; recorded is %s", a.Req, r.Led.describe([]*LTxn{t}))
			case a.Amount != nil && t.Amount.Cmp(a.Amount) != 0:
				r.Violate("P06", "committed another amount", "%s asked for %s; recorded is %s", a.Req, a.Amount, r.Led.describe([]*LTxn{t}))
			}
		}
		// a void, or a commit of all that is left, leaves nothing
		if a.Amount == nil && gone.Cmp(held) < 0 && !(said == "queued" && r.gaveUp(a)) {
			key := "acknowledged " + a.Kind + " left a part"
			if said == "queued" {
				key = "queued " + a.Kind + " left a part"
			}
			r.Violate("P06", key, "%s; %s of %s is used: %s", a.Req, gone, held, r.Led.describe(append(holds, used...)))
		}
	}
	if com.Cmp(min) < 0 {
		r.Violate("P06", "acknowledged commits are missing", "hold %s: %s acknowledged, %s committed", p.Ref, min, com)
	}
	for _, k := range used {
		if (k.Effect == "commit" || k.Effect == "void") && !asked[k.Effect] && (p.Expiry.IsZero() && p.AutoAt.IsZero()) {
			r.Violate("P06", k.Effect+" that nobody asked for", "%s", r.Led.describe(append(holds, k)))
		}
	}
	// a commit of a stated amount takes that amount or nothing, and every commit is
	// one request's
	var other []*LTxn
	again := false
	for _, k := range used {
		if k.Effect != "commit" {
			continue
		}
		n := k.Amount.String()
		if _, ok := times[n]; !ok {
			other = append(other, k)
		} else if times[n]--; times[n] < 0 {
			other = append(other, k)
			again = true
		}
	}
	switch {
	case len(other) <= full:
	case again:
		r.Violate("P06", "committed again", "%s: more commits than requests (%d for all that was left): %s", p.Ref, full, r.Led.describe(append(holds, used...)))
	case full == 0:
		r.Violate("P06", "committed another amount", "%s was never asked for: requested were %v", r.Led.describe(other), sortedKeys(times))
	default:
		r.Violate("P06", "committed again", "%s: more commits than requests (%d for all that was left): %s", p.Ref, full, r.Led.describe(append(holds, used...)))
	}
}

// waitActs lets time pass until no queued action waits for its next attempt: one that
// came before its hold was recorded is tried again much later.
func (r *MixRun) waitActs() {
	db := r.W.Mini.DB(0)
	passed := false
	for i := 0; i < 60; i++ {
		open := false
		for _, k := range db.Keys() {
			if strings.HasPrefix(k, "asynq:{"+r.Cfg.Queue.InflightCommitQueue+"}:t:inflight-action:") {
				st := db.HGet(k, "state")
				open = open || st != "archived" && st != "completed"
			}
		}
		if !open {
			break
		}
		passed = true
		r.Pass(time.Minute)
	}
	if passed {
		r.Settle(r.M.Horizon)
	}
}

// gaveUp: the task of a queued action used up its attempts.
func (r *MixRun) gaveUp(a *Act) bool {
	k := "asynq:{" + r.Cfg.Queue.InflightCommitQueue + "}:t:inflight-action:" + a.ID
	db := r.W.Mini.DB(0)
	return db.Exists(k) && db.HGet(k, "state") == "archived"
}

func (r *MixRun) checkRefunds() {
	asked := map[string]bool{}
	for _, p := range r.Posts {
		for _, q := range p.Refunds {
			asked[strings.TrimPrefix(q.Path, "/refund-transaction/")] = true
		}
		for _, q := range p.Refunds {
			if !q.OK() {
				continue
			}
			id := q.S("transaction_id")
			ref := q.S("reference")
			if q.S("status") == "QUEUED" {
				eff, rej := r.terminal(ref)
				if len(eff)+len(rej) == 0 {
					if len(r.Led.Refs[ref]) == 0 {
						r.Violate("P09", with("accepted but never recorded", r.why(q)), "%s; nothing is recorded for reference %s", q, ref)
					} else {
						r.Violate("P09", "recorded but no outcome", "refund %s never got an outcome", ref)
					}
				}
				continue
			}
			t := r.Led.Txns[id]
			if t == nil || (t.Effect != "plain" && t.Effect != "hold") {
				r.Violate("P08", "acknowledged refund is not recorded", "%s", q)
			}
		}
	}
	bulk := map[string]bool{}
	for _, b := range r.Bulks {
		for _, p := range b.Posts {
			for _, t := range r.Led.effectsOf(p.Ref) {
				bulk[t.ID] = true
			}
		}
	}
	for _, t := range r.Led.All {
		ref := strings.TrimSuffix(t.Ref, "_q")
		if (t.Effect != "plain" && t.Effect != "hold") || !strings.HasSuffix(ref, "_refund") {
			continue
		}
		id := strings.TrimSuffix(ref, "_refund")
		o := r.Led.Txns[id]
		if o == nil || asked[id] || asked[o.Parent] && !strings.HasSuffix(strings.TrimSuffix(o.Ref, "_q"), "_refund") || bulk[id] {
			continue
		}
		if qp, _ := o.Meta["QUEUED_PARENT_TRANSACTION"].(string); asked[qp] && !strings.HasSuffix(strings.TrimSuffix(o.Ref, "_q"), "_refund") {
			continue
		}
		if p := r.byRef[BaseRef(o.Ref)]; p != nil && len(p.Parts) > 0 {
			continue
		}
		r.Violate("P08", "refunded without a request", "%s refunds %s, which nobody asked for", r.Led.describe([]*LTxn{t}), r.Led.describe([]*LTxn{o}))
	}
}

func (r *MixRun) checkReads() {
	for _, x := range r.Reads {
		q := x.Req
		if q.Status != 200 {
			continue
		}
		b := r.Led.Bal[x.Bal]
		get := func(k string) string { return q.S(k) }
		match := func(v LVer) bool {
			return get("credit_balance") == v.C.String() && get("debit_balance") == v.D.String() && get("inflight_credit_balance") == v.IC.String() && get("inflight_debit_balance") == v.IDb.String() &&
				get("balance") == new(big.Int).Sub(v.C, v.D).String() && get("inflight_balance") == new(big.Int).Sub(v.IC, v.IDb).String()
		}
		ok, seen := false, false
		for i, v := range b.Hist {
			if v.Seq > q.RetSeq {
				break
			}
			if v.Seq > q.InvSeq || i == len(b.Hist)-1 || b.Hist[i+1].Seq > q.InvSeq {
				seen = true
				ok = ok || match(v)
			}
		}
		r.Count["reads_checked"]++
		if seen && !ok {
			r.Violate("P05", "read a state that never was", "%s (commits %d to %d) matches no state of the balance during the request", q, q.InvSeq, q.RetSeq)
		}
	}
}

func (r *MixRun) checkBulk(b *Bulk) {
	var eff []*LTxn
	members, rej, pending := 0, 0, 0
	for _, p := range b.Posts {
		if len(p.Parts) > 0 {
			if r.whyAround(b.Req) == "" {
				r.checkSplit(p, !b.Queued)
			}
			e, j, k := r.parts(p)
			sum := new(big.Int)
			for _, t := range e {
				sum.Add(sum, t.Amount)
			}
			if sum.Cmp(p.Amount) == 0 {
				members++
			}
			eff = append(eff, e...)
			rej += min(j, 1)
			if len(e)+j == 0 && k > 0 {
				pending++
			}
			continue
		}
		e, j := r.terminal(p.Ref)
		if len(e) > 0 {
			members++
			if !r.matches(p, e[0]) {
				r.Violate("P12", "member differs", "%v recorded as %s", p.Body, r.Led.describe(e))
			}
		}
		if len(e) > 1 {
			r.Violate("P12", "member twice", "%s", r.Led.describe(e))
		}
		eff = append(eff, e...)
		rej += len(j)
		if len(e)+len(j) == 0 && len(r.Led.Refs[p.Ref]) > 0 {
			pending++
		}
	}
	n := len(b.Posts)
	und := r.undone(eff)
	if b.Req.Status == 201 && !b.Queued && !b.Async && (members < n || und > 0) {
		r.Violate("P12", "reported applied but incomplete", "%s; %d of %d members are recorded, %d reversed", b.Req, members, n, und)
	}
	if b.Req.Status == 201 && b.Queued && members+rej < n {
		for _, p := range b.Posts {
			e, j := r.terminal(p.Ref)
			if len(e)+len(j) > 0 || len(p.Parts) > 0 {
				continue
			}
			if len(r.Led.Refs[p.Ref]) > 0 {
				r.Violate("P09", "recorded but no outcome", "bulk member %s is recorded as %s and never got an outcome", p.Ref, r.Led.describe(r.Led.Refs[p.Ref]))
			} else {
				r.Violate("P09", with("accepted but never recorded", r.why(b.Req)), "bulk member %s of %s", p.Ref, b.Req)
			}
		}
	}
	if !b.Atomic {
		return
	}
	if members == n && und == 0 {
		return
	}
	if und == len(eff) {
		return
	}
	// something failed and not everything was taken back
	key := "atomic bulk left partly in effect"
	if b.Queued {
		split := false // the rejection of a part of an atomic split takes back what the bulk has applied so far
		for _, p := range b.Posts {
			split = split || len(p.Parts) > 0 && p.Atomic
		}
		if rej > 0 && (und == 0 || split) {
			// a member was accepted, queued, and turned down by the worker later on
			r.Violate("P12", "a queued member was rejected by its worker", "%s: %d of %d members took effect, %d were rejected: %s", b.Req, members, n, rej, r.Led.describe(eff))
			return
		}
		key = "atomic queued bulk left partly in effect"
	}
	if b.Async {
		key += " (async)"
	}
	if b.Req.Status == 0 {
		key += " (no answer)"
	}
	key = with(key, r.whyAround(b.Req))
	r.Violate("P12", key, "%s: %d of %d members took effect, %d were reversed, %d rejected: %s", b.Req, members, n, und, rej, r.Led.describe(eff))
}

// checkRefusal: a queued transaction is rejected for lack of funds only if, at some instant
// since it was queued, its source could not have paid it.
func (r *MixRun) checkRefusal(p *Post, queued, rej *LTxn) {
	reason, _ := rej.Meta["blnk_rejection_reason"].(string)
	if !strings.Contains(reason, "insufficient funds") && !strings.Contains(reason, "overdraft limit") || p.NoLimit || len(p.Parts) > 0 {
		return
	}
	b := r.Led.Bal[r.balID(p.Src, p.Currency)]
	if b == nil {
		return
	}
	lim := new(big.Int).Neg(p.Over)
	seen := false
	for i, v := range b.Hist {
		if v.Seq > rej.Seq {
			break
		}
		if v.Seq <= queued.Seq && i+1 < len(b.Hist) && b.Hist[i+1].Seq <= queued.Seq {
			continue
		}
		seen = true
		a := new(big.Int).Sub(v.C, v.D)
		a.Sub(a, v.IDb)
		a.Sub(a, p.Amount)
		if a.Cmp(lim) < 0 {
			return
		}
	}
	if seen {
		r.Violate("P09", "rejected though funds sufficed", "%s was rejected (%s) though its source had enough at every instant since it was queued", r.Led.describe([]*LTxn{queued}), reason)
		r.Violate("P10", "rejected though funds sufficed", "%s was rejected (%s) though its source had enough at every instant since it was queued", r.Led.describe([]*LTxn{queued}), reason)
	}
}

// holdsOf lists the holds of a posting and what is left of each.
func (r *MixRun) holdsOf(p *Post) (holds []*LTxn, left []*big.Int) {
	for _, t := range r.Led.All {
		if t.Effect != "hold" || t.Ref != p.Ref && BaseRef(t.Ref) != p.Ref {
			continue
		}
		rest := new(big.Int).Set(t.Amount)
		for _, id := range []string{t.ID, t.Parent} {
			if id == t.Parent {
				if q := r.Led.Txns[id]; q == nil || q.Status != "QUEUED" && q.Status != "SCHEDULED" {
					continue
				}
			}
			c, v, _ := r.Led.Used(id)
			rest.Sub(rest, c)
			rest.Sub(rest, v)
		}
		holds = append(holds, t)
		left = append(left, rest)
	}
	return
}

// waitDated lets time pass until every hold with an expiry or an automatic commit is
// resolved, or the longest of a reasonable number of retries has gone by.
func (r *MixRun) waitDated() {
	end := time.Duration(0)
	for _, p := range r.Dated {
		for _, d := range []time.Time{p.Expiry, p.AutoAt} {
			if w := d.Sub(time.Now()); !d.IsZero() && w > end {
				end = w
			}
		}
	}
	r.Pass(end + 5*time.Second)
	for i := 0; i < 60; i++ {
		open := false
		for _, p := range r.Dated {
			_, left := r.holdsOf(p)
			for _, x := range left {
				open = open || x.Sign() != 0 && r.datedTasks(p)
			}
		}
		if !open {
			break
		}
		r.Pass(time.Minute)
	}
	r.Settle(r.M.Horizon)
}

// datedTasks tells whether a task of the hold's dates is still waiting.
func (r *MixRun) datedTasks(p *Post) bool {
	db := r.W.Mini.DB(0)
	for _, q := range p.Reqs {
		for _, n := range []string{r.Cfg.Queue.InflightExpiryQueue, r.Cfg.Queue.InflightCommitQueue} {
			k := "asynq:{" + n + "}:t:" + q.S("transaction_id")
			if db.Exists(k) && db.HGet(k, "state") != "archived" {
				return true
			}
		}
	}
	return false
}

// checkDated: expiries and automatic commits happen, at their time.
func (r *MixRun) checkDated(p *Post) {
	r.Count["dated_holds"]++
	holds, left := r.holdsOf(p)
	if len(p.Parts) > 0 && r.undone(holds) > 0 && p.Expiry.IsZero() {
		return // an atomic split that was taken back
	}
	kind := "hold"
	if len(p.Parts) > 0 {
		kind = "split hold"
	}
	for i, h := range holds {
		ids := []string{h.ID}
		if q := r.Led.Txns[h.Parent]; q != nil && q.Inflight {
			ids = append(ids, q.ID)
		}
		for _, id := range ids {
			for _, t := range r.Led.Kids[id] {
				if t.Effect != "commit" && t.Effect != "void" {
					continue
				}
				date, what := p.Expiry, "void"
				if t.Effect == "commit" {
					date, what = p.AutoAt, "commit"
				}
				asked := len(p.Parts) > 0 && what == "void" // the roll-back of a split
				for _, a := range p.Acts {
					if a.Req.InvSeq < t.Seq && a.Kind == what {
						asked = true
					}
				}
				if asked {
					continue
				}
				if date.IsZero() {
					r.Violate("P07", what+" that nobody asked for", "%s has no date for a %s and nobody asked for it: %s", p.Ref, what, r.Led.describe([]*LTxn{h, t}))
				} else if at := r.W.Epoch.Add(t.At); at.Before(date.Add(-time.Second)) {
					r.Violate("P07", what+" before its time", "%s was to %s at %s, it did at %s: %s", p.Ref, what, date.UTC(), at.UTC(), r.Led.describe([]*LTxn{h, t}))
				} else {
					r.Count["dated_"+what]++
				}
			}
		}
		if left[i].Sign() == 0 {
			continue
		}
		for _, q := range p.Reqs {
			if !q.OK() {
				continue
			}
			what := "did not expire"
			if p.Expiry.IsZero() {
				what = "was not committed"
			}
			key := kind + " " + what
			for _, d := range []time.Time{p.Expiry, p.AutoAt} {
				if !d.IsZero() && len(p.Parts) > 0 && r.W.Epoch.Add(h.At).After(d.Add(-2*time.Second)) {
					key = "part recorded after the date " + what
				}
			}
			q0 := r.Led.Txns[h.Parent] // the first row of a queued hold
			if q0 == nil || !q0.Inflight {
				q0 = h
			}
			if p.Queue && len(p.Parts) == 0 && p.Expiry.IsZero() && r.W.Epoch.Add(q0.At).After(p.AutoAt.Add(-2*time.Second)) {
				key = "queued hold recorded after the date was not committed"
			}
			if id := q.S("transaction_id"); id != h.ID && id != h.Parent && id != q0.Parent {
				key = "hold acknowledged under another id " + what
			}
			r.Violate("P07", key, "%s %s (expiry %s, commit %s); %s of it is still reserved: %s", p.Ref, what, p.Expiry.UTC(), p.AutoAt.UTC(), left[i], r.Led.describe(append([]*LTxn{h}, r.Led.Kids[h.ID]...)))
		}
	}
}
