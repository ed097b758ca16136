package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P19, P20 fund lineage

const providerKey = "BLNK_LINEAGE_PROVIDER"

var fundProviders = []string{"stripe", "paypal", "bank"}

type tracked struct {
	id, ident, strategy string
}

// outEntry is what is known of one row of the lineage outbox.
type outEntry struct {
	id                 int64
	txn, src, dst      string
	provider, typ      string
	made               time.Time
	claims             []time.Time
	status             string
	attempts, maxAtt   int64
	done               time.Time
	pendingSince       time.Time
	releasedAtDone     *big.Int
	hadFailures, taken bool
}

type lmap struct {
	bal, provider, shadow, agg string
	created, committed         time.Time
}

type lineage struct {
	bal   map[string]*tracked
	order []*tracked
	out   map[int64]*outEntry
	byTxn map[string]*outEntry
	maps  map[string][]*lmap     // by balance
	roots map[string][]*LTxn     // shadow transactions by parent
	loose map[string][]time.Time // changes of a balance outside the lineage locks
	asks  []*Req
	quiet bool
}

func (r *MixRun) setupLineage() {
	x := &lineage{bal: map[string]*tracked{}, out: map[int64]*outEntry{}, byTxn: map[string]*outEntry{}, maps: map[string][]*lmap{}, roots: map[string][]*LTxn{}, loose: map[string][]time.Time{}}
	r.x = x
	n := 2 + r.C.N("cfg", 2)
	r.Setup(func(c *Client) {
		for i := 0; i < n; i++ {
			b := identityBody()
			name := [][2]string{{"Ada", "Moss"}, {"Bo", "Reed"}, {"Cy", "Dunn"}}[i]
			b["first_name"], b["last_name"] = name[0], name[1]
			id := c.Must("POST", "/identities", b).S("identity_id")
			t := &tracked{strategy: []string{"FIFO", "LIFO", "PROPORTIONAL"}[(i+r.C.N("cfg", 3))%3]}
			t.ident = strings.ToLower(name[0]+"_"+name[1]) + "_" + id[:8]
			q := c.Must("POST", "/balances", map[string]any{"ledger_id": r.ledger, "identity_id": id, "currency": "USD", "track_fund_lineage": true, "allocation_strategy": t.strategy})
			t.id = q.S("balance_id")
			x.bal[t.id] = t
			x.order = append(x.order, t)
		}
	})
	r.onCommit = append(r.onCommit, x.watch(r))
}

func (x *lineage) shadowName(t *tracked, provider string) string {
	return fmt.Sprintf("@%s_%s_lineage", provider, t.ident)
}
func (x *lineage) aggName(t *tracked) string { return fmt.Sprintf("@%s_lineage", t.ident) }

func (x *lineage) isShadow(name string) bool {
	for _, t := range x.order {
		for _, p := range fundProviders {
			if name == x.shadowName(t, p) {
				return true
			}
		}
	}
	return false
}

func metaS(m map[string]any, k string) string {
	v, _ := m[k].(string)
	return v
}

// watch follows the outbox, the mappings and the shadow transactions commit by commit.
func (x *lineage) watch(r *MixRun) func(string, []pgsim.Change) {
	return func(owner string, ch []pgsim.Change) {
		now := time.Now()
		var fresh []*outEntry
		var news []*LTxn
		for _, c := range ch {
			switch c.Table.Name() {
			case "lineage_outbox":
				if c.New == nil {
					r.Violate("P20", "an outbox entry was removed", "commit #%d by %s", r.Eng.Seq(), owner)
					continue
				}
				x.entry(r, owner, c, &fresh, now)
			case "lineage_mappings":
				if c.New == nil {
					r.Violate("P19", "a mapping was removed", "commit #%d by %s", r.Eng.Seq(), owner)
					continue
				}
				m := Row{c.Table, c.New}
				x.mapping(r, m, c.Old == nil, now)
			case "transactions":
				if c.Old == nil && c.New != nil {
					if t := r.Led.Txns[Row{c.Table, c.New}.S("transaction_id")]; t != nil {
						news = append(news, t)
					}
				}
			}
		}
		for _, t := range news {
			if metaS(t.Meta, "_shadow_for") != "" {
				x.shadow(r, owner, t, now)
				continue
			}
			if t.Effect != "plain" && t.Effect != "hold" {
				continue
			}
			prov := metaS(t.Meta, providerKey)
			cr, db := x.bal[t.Dst] != nil && prov != "", x.bal[t.Src] != nil
			var e *outEntry
			for _, f := range fresh {
				if f.txn == t.ID {
					e = f
				}
			}
			if (cr || db) && e == nil {
				r.Violate("P19", "a posting of tracked funds left no lineage work", "commit #%d by %s records %s", r.Eng.Seq(), owner, r.Led.describe([]*LTxn{t}))
			}
			if cr || db {
				r.Count["lineage_parents"]++
			}
		}
	}
}

func (x *lineage) entry(r *MixRun, owner string, c pgsim.Change, fresh *[]*outEntry, now time.Time) {
	n := Row{c.Table, c.New}
	id := n.I("id")
	st := n.S("status")
	e := x.out[id]
	if c.Old == nil {
		if e != nil {
			r.Violate("P20", "an outbox entry was made twice", "entry %d", id)
		}
		e = &outEntry{id: id, txn: n.S("transaction_id"), src: n.S("source_balance_id"), dst: n.S("destination_balance_id"), provider: n.S("provider"), typ: n.S("lineage_type"), made: now, pendingSince: now}
		x.out[id] = e
		*fresh = append(*fresh, e)
		if o := x.byTxn[e.txn]; o != nil && !strings.HasPrefix(e.typ, "shadow") {
			r.Violate("P19", "a posting has lineage work twice", "entries %d and %d for %s", o.id, e.id, e.txn)
		}
		x.byTxn[e.txn] = e
		if st != "pending" || n.I("attempts") != 0 {
			r.Violate("P20", "a new entry is not pending", "entry %d starts as %s with %d attempts", id, st, n.I("attempts"))
		}
		r.Count["outbox_"+e.typ]++
	} else if e == nil {
		return
	}
	was := e.status
	att := n.I("attempts")
	e.maxAtt = n.I("max_attempts")
	if c.Old != nil {
		o := Row{c.Table, c.Old}
		if (was == "completed" || was == "failed") && st != "completed" && st != was {
			r.Violate("P20", "a finished entry is taken up again", "commit #%d by %s turns entry %d (%s of %s) from %s to %s", r.Eng.Seq(), owner, id, e.typ, e.txn, was, st)
		}
		if st == "processing" {
			r.Count["outbox_claims"]++
			if !o.Null("locked_until") && o.S("status") == "processing" && now.Before(o.T("locked_until")) {
				r.Violate("P20", "claimed within another worker's lease", "commit #%d by %s claims entry %d at %v, its lease runs until %v", r.Eng.Seq(), owner, id, now.UTC(), o.T("locked_until"))
			}
			if n.Null("locked_until") || !n.T("locked_until").After(now.Add(-time.Minute)) {
				r.Violate("P20", "a claim without a lease", "commit #%d by %s claims entry %d", r.Eng.Seq(), owner, id)
			}
			if att >= e.maxAtt {
				r.Violate("P20", "claimed after the last attempt", "commit #%d by %s claims entry %d after %d attempts of %d", r.Eng.Seq(), owner, id, att, e.maxAtt)
			}
			e.claims = append(e.claims, now)
		}
		if att < e.attempts {
			r.Violate("P20", "attempts were forgotten", "entry %d goes from %d to %d attempts", id, e.attempts, att)
		}
		if st == "failed" && att < e.maxAtt {
			r.Violate("P20", "given up before the last attempt", "entry %d failed after %d attempts of %d", id, att, e.maxAtt)
		}
		if att > e.maxAtt {
			r.Violate("P20", "more attempts than allowed", "entry %d: %d attempts of %d", id, att, e.maxAtt)
		}
		if st == "completed" && len(e.claims) == 0 {
			r.Violate("P20", "completed without being claimed", "entry %d", id)
		}
	}
	e.status, e.attempts = st, att
	if was != st && st == "failed" {
		r.Count["outbox_failed"]++
		r.W.Logf("outbox entry %d (%s of %s) failed for good: %s", id, e.typ, e.txn, n.S("last_error"))
	}
	if was != st && st == "completed" {
		e.done = now
		r.Count["outbox_completed"]++
		if len(e.claims) > 1 {
			r.Count["outbox_retried"]++
		}
		x.completed(r, e)
	}
}

func (x *lineage) mapping(r *MixRun, m Row, fresh bool, now time.Time) {
	b, p := m.S("balance_id"), m.S("provider")
	t := x.bal[b]
	if t == nil {
		r.Violate("P19", "a mapping of an untracked balance", "%s", b)
		return
	}
	sh, ag := r.Led.Bal[m.S("shadow_balance_id")], r.Led.Bal[m.S("aggregate_balance_id")]
	if sh == nil || ag == nil || sh.Indicator != x.shadowName(t, p) || ag.Indicator != x.aggName(t) {
		r.Violate("P19", "a mapping to other balances", "%s of %s", p, t.ident)
	}
	if fresh {
		x.maps[b] = append(x.maps[b], &lmap{bal: b, provider: p, shadow: m.S("shadow_balance_id"), agg: m.S("aggregate_balance_id"), created: m.T("created_at"), committed: now})
		sort.SliceStable(x.maps[b], func(i, j int) bool { return x.maps[b][i].created.Before(x.maps[b][j].created) })
	}
}

func avail(v LVer) *big.Int { // what a shadow balance has to give
	a := new(big.Int).Sub(v.D, v.C)
	return a.Sub(a, v.IC)
}

// least is the least a shadow balance had to give from some time on.
func (x *lineage) least(r *MixRun, shadow string, from time.Time) *big.Int {
	b := r.Led.Bal[shadow]
	if b == nil {
		return new(big.Int)
	}
	var m *big.Int
	for i := len(b.Hist) - 1; i >= 0; i-- {
		if a := avail(b.Hist[i]); m == nil || a.Cmp(m) < 0 {
			m = a
		}
		if b.Hist[i].At.Before(from) {
			return m
		}
	}
	return new(big.Int)
}

// steady: the shadow balance did not change outside the lineage locks since from.
func (x *lineage) steady(r *MixRun, shadow string, from time.Time) bool {
	for _, t := range x.loose[shadow] {
		if !t.Before(from) {
			return false
		}
	}
	return true
}

func (x *lineage) root(parent, kind, provider string) *LTxn {
	for _, t := range x.roots[parent] {
		if metaS(t.Meta, "_lineage_type") == kind && metaS(t.Meta, "_provider") == provider {
			return t
		}
	}
	return nil
}

func (x *lineage) released(parent string) (*big.Int, []*LTxn) {
	sum := new(big.Int)
	var l []*LTxn
	for _, t := range x.roots[parent] {
		if metaS(t.Meta, "_lineage_type") == "release" {
			sum.Add(sum, t.Amount)
			l = append(l, t)
		}
	}
	return sum, l
}

// shadow judges one recorded shadow transaction.
func (x *lineage) shadow(r *MixRun, owner string, t *LTxn, now time.Time) {
	say := func(key, f string, a ...any) {
		r.Violate("P19", key, "commit #%d by %s records %s: %s", r.Eng.Seq(), owner, r.Led.describe([]*LTxn{t}), fmt.Sprintf(f, a...))
	}
	for _, id := range []string{t.Src, t.Dst} {
		if b := r.Led.Bal[id]; b != nil && x.isShadow(b.Indicator) && len(b.Hist) > 0 {
			v := b.Hist[len(b.Hist)-1]
			if avail(v).Sign() < 0 {
				say("more released than received", "shadow balance %s has debit %s, credit %s, inflight credit %s", b.Indicator, v.D, v.C, v.IC)
			}
		}
	}
	if t.Effect != "plain" && t.Effect != "hold" {
		x.loose[t.Src] = append(x.loose[t.Src], now)
		x.loose[t.Dst] = append(x.loose[t.Dst], now)
		return
	}
	pid, kind, prov := metaS(t.Meta, "_shadow_for"), metaS(t.Meta, "_lineage_type"), metaS(t.Meta, "_provider")
	r.Count["shadow_"+kind]++
	p := r.Led.Txns[pid]
	if p == nil || p.Effect != "plain" && p.Effect != "hold" {
		say("a shadow of nothing", "parent %s", pid)
		return
	}
	if x.root(pid, kind, prov) != nil {
		say("accounted for twice", "there already is a %s from %s for %s", kind, prov, pid)
	}
	x.roots[pid] = append(x.roots[pid], t)
	side := p.Dst
	if kind == "release" {
		side = p.Src
	}
	b := x.bal[side]
	if b == nil {
		say("a shadow of untracked funds", "parent %s", r.Led.describe([]*LTxn{p}))
		return
	}
	from, to := r.Led.bal(t.Src).Indicator, r.Led.bal(t.Dst).Indicator
	if kind == "release" {
		from, to = to, from
	}
	if from != x.shadowName(b, prov) || to != x.aggName(b) {
		say("between the wrong balances", "%s of %s runs between %s and %s", kind, b.ident, from, to)
	}
	if (t.Effect == "hold") != (p.Effect == "hold") {
		say("not held as its parent is", "parent %s", r.Led.describe([]*LTxn{p}))
	}
	switch kind {
	case "credit":
		if t.Amount.Cmp(p.Amount) != 0 || prov != metaS(p.Meta, providerKey) {
			say("a credit of another amount or provider", "parent %s", r.Led.describe([]*LTxn{p}))
		}
		if x.bal[p.Src] != nil {
			say("a transfer of tracked funds is credited besides", "parent %s", r.Led.describe([]*LTxn{p}))
		}
	case "receive":
		rel := x.root(pid, "release", prov)
		if rel == nil || rel.Amount.Cmp(t.Amount) != 0 {
			say("received other than released", "parent %s", r.Led.describe([]*LTxn{p}))
		}
	case "release":
		sum, _ := x.released(pid)
		if sum.Cmp(p.Amount) > 0 {
			say("more released than spent", "%s of %s", sum, p.Amount)
		}
		x.orderly(r, say, b, p, t)
	default:
		say("an unknown kind of shadow", "%q", kind)
	}
}

// orderly: a release respects the order the balance asks for.
func (x *lineage) orderly(r *MixRun, say func(string, string, ...any), b *tracked, p, t *LTxn) {
	e := x.byTxn[p.ID]
	if e == nil || len(e.claims) == 0 || b.strategy == "PROPORTIONAL" {
		return
	}
	from := e.claims[0]
	prov := metaS(t.Meta, "_provider")
	var me *lmap
	for _, m := range x.maps[b.id] {
		if m.provider == prov {
			me = m
		}
	}
	if me == nil {
		say("released from a provider without a mapping", "%s", prov)
		return
	}
	for _, m := range x.maps[b.id] {
		if m == me || !m.committed.Before(from) || m.created.Equal(me.created) || m.created.Before(me.created) != (b.strategy == "FIFO") || !x.steady(r, m.shadow, from) {
			continue
		}
		r.Count["lineage_orders"]++
		if a := x.least(r, m.shadow, from); a.Sign() > 0 {
			say("out of order", "%s has %s, provider %s still has %s and comes first", b.strategy, b.ident, m.provider, a)
		}
	}
}

// completed judges what is recorded when an entry is reported completed.
func (x *lineage) completed(r *MixRun, e *outEntry) {
	if strings.HasPrefix(e.typ, "shadow") {
		return
	}
	p := r.Led.Txns[e.txn]
	if p == nil {
		return
	}
	say := func(key, f string, a ...any) {
		r.Violate("P19", key, "entry %d of %s completed at commit #%d: %s", e.id, r.Led.describe([]*LTxn{p}), r.Eng.Seq(), fmt.Sprintf(f, a...))
	}
	prov := metaS(p.Meta, providerKey)
	src, dst := x.bal[p.Src], x.bal[p.Dst]
	if dst != nil && src == nil && prov != "" {
		if x.root(p.ID, "credit", prov) == nil {
			say("a credit is not accounted for", "no shadow credit")
		}
		ok := false
		for _, m := range x.maps[dst.id] {
			ok = ok || m.provider == prov
		}
		if !ok {
			say("a provider is not mapped", "balance %s has no mapping of %s", dst.ident, prov)
		}
	}
	if src == nil {
		return
	}
	from := e.claims[0]
	sum, rels := x.released(p.ID)
	if dst != nil {
		for _, t := range rels {
			q := metaS(t.Meta, "_provider")
			if x.root(p.ID, "receive", q) == nil {
				say("released and not received", "%s released %s from %s, the destination received nothing", src.ident, t.Amount, q)
			}
			ok := false
			for _, m := range x.maps[dst.id] {
				ok = ok || m.provider == q
			}
			if !ok {
				say("a provider is not mapped", "balance %s has no mapping of %s", dst.ident, q)
			}
		}
	}
	if sum.Cmp(p.Amount) < 0 {
		r.Count["lineage_short"]++
		for _, m := range x.maps[src.id] {
			if !m.committed.Before(from) || !x.steady(r, m.shadow, from) {
				continue
			}
			if len(e.claims) > 1 && x.root(p.ID, "release", m.provider) != nil {
				continue // released what it had on an earlier attempt; a provider releases once
			}
			if a := x.least(r, m.shadow, from); a.Sign() > 0 {
				say("a spend is not allocated as far as funds reach", "%s of %s released, provider %s of %s always had %s", sum, p.Amount, m.provider, src.ident, a)
			}
		}
		if len(x.maps[src.id]) == 0 {
			for _, id := range sortedIDs(x.out) {
				o := x.out[id]
				if o != e && o.dst == src.id && o.typ == "credit" && (o.status == "pending" || o.status == "processing") && o.made.Before(from) {
					say("a spend does not wait for the credit before it", "entry %d of %s is still %s", o.id, o.txn, o.status)
				}
			}
		}
	}
	if src.strategy == "PROPORTIONAL" && len(e.claims) == 1 && len(rels) > 0 {
		x.proportional(r, say, src, p, e, rels)
	}
}

func (x *lineage) proportional(r *MixRun, say func(string, string, ...any), src *tracked, p *LTxn, e *outEntry, rels []*LTxn) {
	total := new(big.Int)
	had := map[string]*big.Int{}
	for _, m := range x.maps[src.id] {
		if !m.committed.Before(e.claims[0]) {
			return
		}
		if !x.steady(r, m.shadow, e.claims[0]) {
			return
		}
		b := r.Led.Bal[m.shadow]
		var v *LVer
		for i := range b.Hist {
			if b.Hist[i].Seq < rels[0].Seq {
				v = &b.Hist[i]
			}
		}
		if v == nil {
			return
		}
		if a := avail(*v); a.Sign() > 0 {
			had[m.provider] = a
			total.Add(total, a)
		}
	}
	eff := p.Amount
	if total.Cmp(eff) < 0 {
		eff = total
	}
	if total.Sign() == 0 {
		return
	}
	r.Count["lineage_orders"]++
	for _, prov := range sortedKeys(had) {
		got := new(big.Int)
		for _, t := range rels {
			if metaS(t.Meta, "_provider") == prov {
				got = t.Amount
			}
		}
		d := new(big.Rat).SetFrac(new(big.Int).Mul(eff, had[prov]), total)
		d.Sub(d, new(big.Rat).SetInt(got))
		if d.Abs(d).Cmp(big.NewRat(int64(len(had)), 1)) > 0 {
			say("not proportional", "%s had %s of %s, spending %s released %s", prov, had[prov], total, eff, got)
		}
	}
}

type provFunds struct {
	prov string
	a    *big.Int
}

func show(l []provFunds) string {
	var o []string
	for _, x := range l {
		o = append(o, x.prov+" "+x.a.String())
	}
	return strings.Join(o, ", ")
}

func sortedIDs[V any](m map[int64]V) []int64 {
	var l []int64
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// lineageOp moves tracked funds.
func lineageOp(r *MixRun, c *Client) {
	x := r.x.(*lineage)
	pick := func() *tracked { return x.order[r.C.N("op", len(x.order))] }
	r.n++
	p := &Post{Ref: fmt.Sprintf("ref%dx", r.n), Currency: "USD", Amount: r.amount(), Over: new(big.Int)}
	meta := map[string]any{"n": r.n}
	switch r.C.W("op", 6, 6, 3, 2) {
	case 0: // funds arrive
		p.Src, p.Dst, p.NoLimit = []string{"@world", "@ext", r.Accts[0]}[r.C.N("op", 3)], pick().id, true
		if r.C.N("op", 6) != 1 {
			meta[providerKey] = fundProviders[r.C.N("op", len(fundProviders))]
		}
	case 1:
		p.Src, p.Dst = pick().id, []string{"@sink0", r.Accts[0]}[r.C.N("op", 2)]
	case 2:
		i := r.C.N("op", len(x.order))
		p.Src, p.Dst = x.order[i].id, x.order[(i+1)%len(x.order)].id
		if r.C.N("op", 5) == 1 {
			meta[providerKey] = fundProviders[r.C.N("op", len(fundProviders))]
		}
	case 3:
		t := x.order[r.C.N("op", len(x.order))]
		q := c.Do("GET", "/balances/"+t.id+"/lineage", nil)
		x.asks = append(x.asks, q)
		return
	}
	if p.Src[0] != '@' && r.C.N("op", 4) == 1 {
		p.NoLimit = true
	}
	p.Prec = []int64{minorUnits, 1, 1e6, 1e18}[r.C.W("op", 6, 1, 1, 1)]
	p.Body = map[string]any{"precision": p.Prec, "currency": "USD", "source": p.Src, "destination": p.Dst, "reference": p.Ref, "description": "op", "meta_data": meta}
	r.say(p.Body, p.Amount, p.Prec)
	r.finishPost(p)
	p.Queue = r.C.N("op", 3) == 1
	if r.C.N("op", 5) == 1 {
		p.Inflight = true
		p.Body["inflight"] = true
		r.Holds = append(r.Holds, p)
	}
	r.submitRetry(c, p)
}

// checkLineage judges the end of the run.
func (r *MixRun) checkLineage() {
	x := r.x.(*lineage)
	if r.Count["unsettled"] > 0 {
		for _, id := range sortedIDs(x.out) {
			if e := x.out[id]; e.status == "pending" || e.status == "processing" {
				r.Violate("P20", "an entry does not finish", "entry %d (%s of %s) still is %s after %d attempts, %d claims", id, e.typ, e.txn, e.status, e.attempts, len(e.claims))
			}
		}
	}
	for _, id := range sortedIDs(x.out) {
		e := x.out[id]
		p := r.Led.Txns[e.txn]
		if p == nil || p.Effect != "hold" || e.status != "completed" {
			continue
		}
		if f := x.byTxn[p.ID+"_shadow_commit"]; f != nil && f.status != "completed" {
			continue
		}
		if f := x.byTxn[p.ID+"_shadow_void"]; f != nil && f.status != "completed" {
			continue
		}
		pc, pv := r.settled(p)
		for _, t := range x.roots[p.ID] {
			c, v := r.settled(t)
			why := ""
			if r.faultAround(p, t) {
				why = "infrastructure fault"
			}
			desc := fmt.Sprintf("parent %s: committed %s, voided %s; shadow %s: committed %s, voided %s", r.Led.describe([]*LTxn{p}), pc, pv, r.Led.describe([]*LTxn{t}), c, v)
			switch {
			case pc.Cmp(p.Amount) == 0 && c.Cmp(t.Amount) != 0:
				r.Violate("P19", with("the shadow of a committed hold is not committed", why), "%s", desc)
			case pv.Cmp(p.Amount) == 0 && v.Cmp(t.Amount) != 0:
				r.Violate("P19", with("the shadow of a voided hold is not voided", why), "%s", desc)
			case pc.Sign() == 0 && pv.Sign() == 0 && (c.Sign() != 0 || v.Sign() != 0):
				r.Violate("P19", "the shadow of an open hold is settled", "%s", desc)
			case pc.Sign() > 0 && pc.Cmp(p.Amount) < 0 && c.Cmp(pc) > 0:
				r.Violate("P19", "a partial commit commits more of the shadow", "%s", desc)
			}
		}
	}
	r.sequel()
}

// faultAround tells whether a fault came between the settlement of a hold and that of its shadows.
func (r *MixRun) faultAround(p, t *LTxn) bool {
	for _, k := range r.Led.Kids[p.ID] {
		for _, f := range r.W.FaultLog {
			if (k.Effect == "commit" || k.Effect == "void") && f.End+5*time.Second >= k.At && f.At <= max(k.At, t.At)+2*time.Minute {
				return true
			}
		}
	}
	return false
}

// settled is what was committed and voided of a hold.
func (r *MixRun) settled(p *LTxn) (c, v *big.Int) {
	c, v = new(big.Int), new(big.Int)
	for _, k := range r.Led.Kids[p.ID] {
		switch k.Effect {
		case "commit":
			c.Add(c, k.Amount)
		case "void":
			v.Add(v, k.Amount)
		}
	}
	return
}

// sequel spends step by step after the traffic and compares with the model exactly.
func (r *MixRun) sequel() {
	x := r.x.(*lineage)
	if r.Count["unsettled"] > 0 || r.clients > 0 {
		return
	}
	r.Pass(6 * time.Minute) // a lock whose release was lost to a fault runs out
	drain := func() bool {
		for i := 0; i < 60; i++ {
			if r.outboxOpen() == 0 {
				return true
			}
			r.Pass(time.Second)
		}
		return false
	}
	for k := 0; k < 5; k++ {
		t := x.order[k%len(x.order)]
		var body map[string]any
		r.n++
		ref := fmt.Sprintf("ref%dx", r.n)
		amt := r.scaled(int64(1 + r.C.N("op", 1200)))
		var prov string
		if r.C.N("op", 3) == 1 {
			prov = fundProviders[r.C.N("op", 3)]
			body = map[string]any{"source": "@world", "destination": t.id, "meta_data": map[string]any{providerKey: prov}}
		} else {
			body = map[string]any{"source": t.id, "destination": "@sink0"}
		}
		body["precise_amount"], body["precision"], body["currency"], body["reference"], body["description"], body["allow_overdraft"], body["skip_queue"] = amt, minorUnits, "USD", ref, "op", true, true
		var before []provFunds
		total := new(big.Int)
		tie := false
		for i, m := range x.maps[t.id] {
			tie = tie || i > 0 && m.created.Equal(x.maps[t.id][i-1].created)
			b := r.Led.Bal[m.shadow]
			a := new(big.Int)
			if len(b.Hist) > 0 {
				a = avail(b.Hist[len(b.Hist)-1])
			}
			before = append(before, provFunds{m.provider, a})
			total.Add(total, a)
		}
		var q, lin *Req
		r.Setup(func(c *Client) { q = c.Do("POST", "/transactions", body) })
		if r.W.FaultCount() > 0 && (q.Status == 423 || q.Status >= 500) {
			continue // a pooled connection lost earlier may only show now
		}
		if !q.OK() {
			r.Violate("P19", "a quiet posting is refused", "%d %s", q.Status, q.Resp)
			return
		}
		id := q.S("transaction_id")
		e := x.byTxn[id]
		if e == nil || !drain() || e.status != "completed" {
			r.Violate("P20", "a quiet entry does not complete", "lineage work of %s: %+v", id, e)
			return
		}
		want := map[string]*big.Int{}
		if prov == "" {
			left := new(big.Int).Set(amt)
			if total.Cmp(left) < 0 {
				left.Set(total)
			}
			eff := new(big.Int).Set(left)
			if t.strategy == "LIFO" {
				for i, j := 0, len(before)-1; i < j; i, j = i+1, j-1 {
					before[i], before[j] = before[j], before[i]
				}
			}
			if t.strategy != "PROPORTIONAL" {
				for _, b := range before {
					a := b.a
					if a.Cmp(left) > 0 {
						a = left
					}
					if a.Sign() > 0 {
						want[b.prov] = new(big.Int).Set(a)
						left.Sub(left, a)
					}
				}
			}
			sum, rels := x.released(id)
			if sum.Cmp(eff) != 0 {
				r.Violate("P19", "a quiet spend is not allocated as far as funds reach", "spending %s of %s (%s) released %s, the providers had %v", amt, t.ident, t.strategy, sum, show(before))
			}
			if t.strategy != "PROPORTIONAL" && !tie {
				for _, l := range rels {
					pr := metaS(l.Meta, "_provider")
					if want[pr] == nil || want[pr].Cmp(l.Amount) != 0 {
						r.Violate("P19", "a quiet spend is allocated otherwise", "spending %s of %s (%s) released %s from %s, the providers had %v", amt, t.ident, t.strategy, l.Amount, pr, show(before))
					}
				}
			}
			r.Setup(func(c *Client) { lin = c.Do("GET", "/transactions/"+id+"/lineage", nil) })
			got := map[string]string{}
			if l, ok := lin.JSON["fund_allocation"].([]any); ok {
				for _, a := range l {
					m, _ := a.(map[string]any)
					got[fmt.Sprint(m["provider"])] = fmt.Sprint(m["amount"])
				}
			}
			if !lin.OK() || len(got) != len(rels) {
				r.Violate("P19", "the reported allocation differs", "GET lineage of %s: %s", id, lin.Resp)
			}
			for _, l := range rels {
				g := got[metaS(l.Meta, "_provider")]
				if x, ok := new(big.Rat).SetString(g); ok && !exact(l.Amount) {
					f, _ := x.Float64()
					if w, _ := new(big.Rat).SetInt(l.Amount).Float64(); f == w {
						if g != l.Amount.String() {
							r.Violate("P19", "the reported allocation of a large amount is rounded", "GET lineage of %s: %s; released %s", id, lin.Resp, r.Led.describe(rels))
						}
						continue
					}
				}
				if g != l.Amount.String() {
					r.Violate("P19", "the reported allocation differs", "GET lineage of %s: %s; released %s", id, lin.Resp, r.Led.describe(rels))
				}
			}
		}
		r.Count["lineage_steps"]++
		r.Setup(func(c *Client) { lin = c.Do("GET", "/balances/"+t.id+"/lineage", nil) })
		x.report(r, t, lin)
	}
}

// report compares the reported lineage of a balance with its shadow balances.
func (x *lineage) report(r *MixRun, t *tracked, q *Req) {
	sum := new(big.Int)
	seen := map[string]bool{}
	l, _ := q.JSON["providers"].([]any)
	for _, e := range l {
		m, _ := e.(map[string]any)
		p := fmt.Sprint(m["provider"])
		seen[p] = true
		for _, k := range x.maps[t.id] {
			if k.provider == p {
				b := r.Led.Bal[k.shadow]
				a := new(big.Int).Sub(b.D, b.C)
				sum.Add(sum, a)
				if fmt.Sprint(m["amount"]) != b.D.String() || fmt.Sprint(m["spent"]) != b.C.String() || fmt.Sprint(m["available"]) != a.String() {
					r.Violate("P19", "the reported lineage differs", "GET lineage of %s: %s; shadow balance of %s: received %s, spent %s", t.ident, q.Resp, p, b.D, b.C)
				}
			}
		}
	}
	if !q.OK() || len(seen) != len(x.maps[t.id]) || fmt.Sprint(q.JSON["total_with_lineage"]) != sum.String() {
		r.Violate("P19", "the reported lineage differs", "GET lineage of %s: %s; %d providers with %s", t.ident, q.Resp, len(x.maps[t.id]), sum)
	}
}
