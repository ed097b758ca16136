package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// Ledger is the reference model: it folds every recorded transaction, one database
// commit at a time, and compares the stored balances with what they must be.
type Ledger struct {
	s    *Sim
	Txns map[string]*LTxn // by transaction_id
	Refs map[string][]*LTxn
	Kids map[string][]*LTxn
	Bal  map[string]*LBal
	All  []*LTxn
	// Limit gives, by client reference, how far below zero the source may go;
	// references that are not listed are not checked. nil: no limit.
	Limit map[string]*big.Int
	// Frozen columns of a recorded transaction.
	cur map[string]*LCur
	// batch: the commit being checked records several queued transactions at once.
	batch bool
}

// violate reports; what a coalesced batch breaks it breaks for P10, too.
func (l *Ledger) violate(prop, key, f string, a ...any) {
	l.s.Violate(prop, key, f, a...)
	if l.batch && prop != "P10" {
		l.s.Violate("P10", "batch: "+key, f, a...)
	}
}

// LTxn is one recorded transaction row.
type LTxn struct {
	ID, Ref, Status, Src, Dst, Parent, Currency string
	Amount                                      *big.Int
	Inflight                                    bool // QUEUED row of an inflight transaction
	Desc                                        string
	Meta0                                       map[string]any // as recorded
	Scheduled                                   time.Time
	Effective                                   time.Time
	Created                                     time.Time
	Seq                                         int64
	At                                          time.Duration
	Owner                                       string
	Actor                                       string // the goroutine's label: node|client#request, or node
	Batch                                       bool
	Effect                                      string // "", "plain", "hold", "commit", "void"
	Meta                                        map[string]any
}

// LBal is what a balance must hold.
type LBal struct {
	ID, Currency, Indicator string
	C, D, IC, ID_           *big.Int
	Hist                    []LVer
}
type LVer struct {
	Seq     int64
	At      time.Time
	C, D    *big.Int
	IC, IDb *big.Int
}

type LCur struct{ b, i, c, d *big.Int }

func newLedger(s *Sim) *Ledger {
	return &Ledger{s: s, Txns: map[string]*LTxn{}, Refs: map[string][]*LTxn{}, Kids: map[string][]*LTxn{}, Bal: map[string]*LBal{},
		Limit: map[string]*big.Int{}, cur: map[string]*LCur{}}
}

func (l *Ledger) bal(id string) *LBal {
	b := l.Bal[id]
	if b == nil {
		b = &LBal{ID: id, C: new(big.Int), D: new(big.Int), IC: new(big.Int), ID_: new(big.Int)}
		l.Bal[id] = b
	}
	return b
}

// BaseRef is the client's reference of a recorded reference.
func BaseRef(ref string) string {
	r := strings.TrimSuffix(ref, "_q")
	for i := len(r) - 1; i > 0; i-- {
		if r[i] >= '0' && r[i] <= '9' {
			continue
		}
		if (r[i] == '_' || r[i] == '-') && i < len(r)-1 {
			return r[:i]
		}
		break
	}
	return r
}

var immutableCols = []string{"transaction_id", "source", "destination", "reference", "amount", "currency", "status", "created_at", "scheduled_for",
	"precise_amount", "precision", "parent_transaction", "effective_date", "description", "hash"}

func (l *Ledger) commit(owner string, ch []pgsim.Change) {
	s := l.s
	seq := s.Eng.Seq()
	touched := map[string]bool{}
	debited := map[string][]*LTxn{}
	var news []*LTxn
	for _, c := range ch {
		if c.Table.Name() != "transactions" {
			continue
		}
		if c.Old != nil {
			o, n := Row{c.Table, c.Old}, Row{c.Table, c.New}
			if c.New == nil {
				l.violate("P25", "deleted", "%s deleted the recorded transaction %s (%s)", owner, o.S("transaction_id"), o.S("reference"))
				continue
			}
			for _, col := range immutableCols {
				if o.S(col) != n.S(col) || o.Null(col) != n.Null(col) {
					l.violate("P25", "changed "+col, "%s changed %s of the recorded transaction %s from %q to %q", owner, col, o.S("transaction_id"), o.S(col), n.S(col))
				}
			}
			if om, nm := o.M("meta_data"), n.M("meta_data"); true {
				for k := range om {
					if _, ok := nm[k]; !ok {
						l.violate("P24", "transaction lost key", "metadata key %q of transaction %s disappeared", k, o.S("transaction_id"))
					}
				}
				if t := l.Txns[o.S("transaction_id")]; t != nil {
					t.Meta = nm
				}
			}
			continue
		}
		r := Row{c.Table, c.New}
		t := &LTxn{ID: r.S("transaction_id"), Ref: r.S("reference"), Status: r.S("status"), Src: r.S("source"), Dst: r.S("destination"),
			Parent: r.S("parent_transaction"), Currency: r.S("currency"), Amount: r.Big("precise_amount"), Seq: seq, At: s.W.Now(), Owner: owner, Actor: s.W.DBActor}
		if t.Parent == "" || r.Null("parent_transaction") {
			t.Parent = ""
		}
		if !r.Null("scheduled_for") {
			t.Scheduled = r.T("scheduled_for")
		}
		t.Desc = r.S("description")
		t.Created = r.T("created_at")
		t.Effective = t.Created
		if !r.Null("effective_date") {
			t.Effective = r.T("effective_date")
		}
		t.Meta = r.M("meta_data")
		t.Meta0 = t.Meta
		t.Inflight, _ = t.Meta["inflight"].(bool)
		news = append(news, t)
	}
	for _, t := range news {
		if old := l.Txns[t.ID]; old != nil {
			l.violate("P03", "transaction id twice", "transaction id %s recorded twice", t.ID)
		}
		l.Txns[t.ID] = t
		l.Refs[t.Ref] = append(l.Refs[t.Ref], t)
		if len(l.Refs[t.Ref]) > 1 {
			l.violate("P03", "reference recorded twice", "reference %s is recorded twice: %s", t.Ref, l.describe(l.Refs[t.Ref]))
		}
		if t.Parent != "" {
			l.Kids[t.Parent] = append(l.Kids[t.Parent], t)
		}
		l.All = append(l.All, t)
		s.Count["txn_"+t.Status]++
	}
	var batch []*LTxn
	for _, t := range news {
		if (t.Status == "APPLIED" || t.Status == "INFLIGHT") && strings.HasSuffix(t.Ref, "_q") {
			batch = append(batch, t)
		}
	}
	l.batch = len(batch) > 1
	defer func() { l.batch = false }()
	if l.batch {
		s.Count["batches"]++
		s.Count["batch_members"] += len(batch)
		l.checkBatch(batch, owner)
	}
	for _, t := range news {
		t.Batch = l.batch
		l.checkCopy(t)
		src, dst := l.bal(t.Src), l.bal(t.Dst)
		p := l.Txns[t.Parent]
		switch t.Status {
		case "INFLIGHT":
			t.Effect = "hold"
			src.ID_.Add(src.ID_, t.Amount)
			dst.IC.Add(dst.IC, t.Amount)
			debited[t.Src] = append(debited[t.Src], t)
		case "VOID":
			t.Effect = "void"
			src.ID_.Sub(src.ID_, t.Amount)
			dst.IC.Sub(dst.IC, t.Amount)
		case "APPLIED":
			if p != nil && (p.Status == "INFLIGHT" || ((p.Status == "QUEUED" || p.Status == "SCHEDULED") && p.Inflight)) {
				t.Effect = "commit"
				src.ID_.Sub(src.ID_, t.Amount)
				dst.IC.Sub(dst.IC, t.Amount)
			} else {
				t.Effect = "plain"
				debited[t.Src] = append(debited[t.Src], t)
			}
			src.D.Add(src.D, t.Amount)
			dst.C.Add(dst.C, t.Amount)
		case "QUEUED", "SCHEDULED", "REJECTED":
			continue
		default:
			l.violate("P02", "unknown status", "transaction %s has status %q", t.ID, t.Status)
			continue
		}
		touched[t.Src] = true
		touched[t.Dst] = true
		if t.Effect != "" {
			l.checkHold(t)
			l.checkEarly(t)
			l.checkOnce(t)
		}
	}
	t := s.Eng.Table("balances")
	now := time.Now()
	rows := map[string]Row{}
	for _, c := range ch {
		if c.Table != t {
			continue
		}
		if c.New == nil {
			l.violate("P02", "balance deleted", "a balance was deleted")
			continue
		}
		r := Row{t, c.New}
		id := r.S("balance_id")
		touched[id] = true
		rows[id] = r
		b := l.bal(id)
		b.Currency, b.Indicator = r.S("currency"), r.S("indicator")
		if c.Old == nil && !r.Null("indicator") && b.Indicator != "" {
			for _, o := range l.Bal {
				if o != b && o.Indicator == b.Indicator && o.Currency == b.Currency {
					l.violate("P15", "two balances", "indicator %s has two %s balances: %s and %s", b.Indicator, b.Currency, o.ID, id)
				}
			}
		}
	}
	for _, id := range sortedKeys(touched) {
		r, ok := rows[id]
		if !ok {
			r, ok = s.One("balances", "balance_id", id)
		}
		b := l.bal(id)
		if !ok {
			if b.C.Sign() != 0 || b.D.Sign() != 0 || b.IC.Sign() != 0 || b.ID_.Sign() != 0 {
				l.violate("P02", "effect on no balance", "transactions are recorded for %s, which is no balance", id)
			}
			continue
		}
		C, D, IC, ID := r.Big("credit_balance"), r.Big("debit_balance"), r.Big("inflight_credit_balance"), r.Big("inflight_debit_balance")
		if C.Cmp(b.C) != 0 || D.Cmp(b.D) != 0 || IC.Cmp(b.IC) != 0 || ID.Cmp(b.ID_) != 0 {
			l.violate("P02", "balance differs from its transactions",
				"after commit #%d by %s balance %s (%s) stores credit=%s debit=%s inflight credit=%s inflight debit=%s; its recorded transactions add up to credit=%s debit=%s inflight credit=%s inflight debit=%s; the commit recorded %s",
				seq, owner, id, b.Indicator, C, D, IC, ID, b.C, b.D, b.IC, b.ID_, l.describe(news))
			// continue from what is stored, so that one fault is reported once
			b.C.Set(C)
			b.D.Set(D)
			b.IC.Set(IC)
			b.ID_.Set(ID)
		}
		bb, ib := r.Big("balance"), r.Big("inflight_balance")
		if new(big.Int).Sub(C, D).Cmp(bb) != 0 || new(big.Int).Sub(IC, ID).Cmp(ib) != 0 {
			l.violate("P01", "balance is not credit minus debit", "after commit #%d by %s balance %s stores balance=%s credit=%s debit=%s inflight=%s inflight credit=%s inflight debit=%s", seq, owner, id, bb, C, D, ib, IC, ID)
		}
		b.Hist = append(b.Hist, LVer{Seq: seq, At: now, C: C, D: D, IC: IC, IDb: ID})
		l.cur[id] = &LCur{bb, ib, C, D}
		if ds := debited[id]; len(ds) > 0 {
			l.checkFloor(id, new(big.Int).Sub(bb, ID), ds, seq, owner)
		}
	}
	if len(touched) > 0 {
		l.checkSums(seq, owner)
	}
}

func (l *Ledger) describe(ts []*LTxn) string {
	var out []string
	for _, t := range ts {
		out = append(out, fmt.Sprintf("[%s ref=%s %s %s->%s %s parent=%s]", t.ID, t.Ref, t.Status, t.Src, t.Dst, t.Amount, t.Parent))
	}
	return strings.Join(out, " ")
}

// checkSums: all balances of a currency add up to zero.
func (l *Ledger) checkSums(seq int64, owner string) {
	type sum struct{ b, i, c, d big.Int }
	sums := map[string]*sum{}
	for id, c := range l.cur {
		k := l.Bal[id].Currency
		x := sums[k]
		if x == nil {
			x = &sum{}
			sums[k] = x
		}
		x.b.Add(&x.b, c.b)
		x.i.Add(&x.i, c.i)
		x.c.Add(&x.c, c.c)
		x.d.Add(&x.d, c.d)
	}
	for _, k := range sortedKeys(sums) {
		x := sums[k]
		if x.b.Sign() != 0 || x.i.Sign() != 0 || x.c.Cmp(&x.d) != 0 {
			l.violate("P01", "balances do not add up to zero", "after commit #%d by %s the %s balances add up to %s, inflight %s, credits %s, debits %s", seq, owner, k, &x.b, &x.i, &x.c, &x.d)
		}
	}
}

// checkFloor: a debit keeps its source above what it was allowed.
func (l *Ledger) checkFloor(id string, avail *big.Int, ds []*LTxn, seq int64, owner string) {
	lim := new(big.Int)
	for _, t := range ds {
		k, ok := l.Limit[BaseRef(t.Ref)]
		if !ok || k == nil {
			return
		}
		if k.Cmp(lim) > 0 {
			lim = k
		}
	}
	if avail.Cmp(new(big.Int).Neg(lim)) < 0 {
		l.violate("P04", "below the limit", "after commit #%d by %s balance %s has %s available (settled less inflight debits), its limit is -%s; debited by %s", seq, owner, id, avail, lim, l.describe(ds))
	}
}

// Hold is an inflight transaction with everything that consumed it.
func (l *Ledger) holdOf(t *LTxn) (hold *LTxn) {
	p := l.Txns[t.Parent]
	if p == nil {
		return nil
	}
	return p
}

// Used adds up the commits and voids recorded against a hold.
func (l *Ledger) Used(holdID string) (committed, voided *big.Int, voids int) {
	committed, voided = new(big.Int), new(big.Int)
	for _, k := range l.Kids[holdID] {
		switch k.Effect {
		case "commit":
			committed.Add(committed, k.Amount)
		case "void":
			voided.Add(voided, k.Amount)
			voids++
		}
	}
	return
}

// checkHold: commits and voids of a hold never exceed it.
func (l *Ledger) checkHold(t *LTxn) {
	if t.Effect != "commit" && t.Effect != "void" {
		return
	}
	p := l.Txns[t.Parent]
	if p == nil {
		l.violate("P06", "consumes no hold", "%s consumes a hold that is not recorded", l.describe([]*LTxn{t}))
		return
	}
	root := p
	if p.Status == "INFLIGHT" {
		if q := l.Txns[p.Parent]; q != nil && (q.Status == "QUEUED" || q.Status == "SCHEDULED") && q.Inflight {
			root = q
		}
	}
	total := new(big.Int)
	com, voi, voids := new(big.Int), new(big.Int), 0
	holds := []*LTxn{}
	if root.Status == "INFLIGHT" {
		holds = append(holds, root)
		total.Set(root.Amount)
	} else {
		c, v, n := l.Used(root.ID)
		com.Add(com, c)
		voi.Add(voi, v)
		voids += n
		for _, k := range l.Kids[root.ID] {
			if k.Effect == "hold" {
				holds = append(holds, k)
				total.Add(total, k.Amount)
			}
		}
	}
	for _, h := range holds {
		c, v, n := l.Used(h.ID)
		com.Add(com, c)
		voi.Add(voi, v)
		voids += n
	}
	// a holder that outlived the lock on the hold is the known way around it
	ran := ""
	for _, h := range append([]*LTxn{root}, holds...) {
		if l.s.Locks.ranOut("inflight-commit:" + h.ID) {
			ran = " after the hold's lock ran out"
		}
	}
	if used := new(big.Int).Add(com, voi); used.Cmp(total) > 0 {
		l.violate("P06", "consumed more than once"+ran, "hold %s of %s: committed %s, voided %s in %d voids: %s", root.ID, total, com, voi, voids, l.describe(append(append([]*LTxn{root}, l.Kids[root.ID]...), t)))
	} else if voids > 0 && used.Cmp(total) < 0 {
		l.violate("P06", "void released not the remainder"+ran, "hold %s of %s: committed %s, voided %s in %d voids", root.ID, total, com, voi, voids)
	}
	if t.Effect == "void" && voids > 1 {
		l.violate("P06", "voided twice"+ran, "hold %s is voided %d times", root.ID, voids)
	}
	if t.Effect == "commit" && voids > 0 {
		l.violate("P06", "committed after void"+ran, "hold %s is committed after its void", root.ID)
	}
	if len(holds) > 0 && (t.Src != holds[0].Src || t.Dst != holds[0].Dst || t.Currency != holds[0].Currency) {
		l.violate("P06", "consumed elsewhere", "%s consumes the hold %s", l.describe([]*LTxn{t}), l.describe(holds))
	}
}

// checkEarly: nothing scheduled takes effect before its time.
func (l *Ledger) checkEarly(t *LTxn) {
	if t.Effect != "hold" && t.Effect != "plain" {
		return
	}
	for x, n := t, 0; x != nil && n < 4; x, n = l.Txns[x.Parent], n+1 {
		// the parent row of a scheduled transaction is SCHEDULED
		sch := x.Scheduled
		if x != t && x.Status != "SCHEDULED" {
			break
		}
		if !sch.IsZero() && sch.Year() > 1 && time.Now().Before(sch.Add(-time.Second)) {
			l.violate("P13", "early", "%s takes effect at %s, it is scheduled for %s", l.describe([]*LTxn{t}), time.Now().UTC().Format(time.RFC3339), sch.UTC().Format(time.RFC3339))
		}
	}
}

// effects lists the rows of a base reference that have their own effect on balances.
func (l *Ledger) effectsOf(ref string) []*LTxn {
	var out []*LTxn
	for _, r := range []string{ref, ref + "_q"} {
		for _, t := range l.Refs[r] {
			if t.Effect == "hold" || t.Effect == "plain" {
				out = append(out, t)
			}
		}
	}
	return out
}

// checkOnce: a reference takes effect once, a transaction is refunded once.
func (l *Ledger) checkOnce(t *LTxn) {
	if t.Effect != "hold" && t.Effect != "plain" {
		return
	}
	ref := strings.TrimSuffix(t.Ref, "_q")
	if e := l.effectsOf(ref); len(e) > 1 {
		l.violate("P03", "took effect twice", "reference %s took effect %d times: %s", ref, len(e), l.describe(e))
	}
	if strings.HasSuffix(ref, "_refund") {
		l.checkRefund(t, strings.TrimSuffix(ref, "_refund"))
	}
}

func (l *Ledger) checkRefund(t *LTxn, id string) {
	o := l.Txns[id]
	if o == nil {
		l.violate("P08", "refund of nothing", "%s refunds %s, which is not recorded", l.describe([]*LTxn{t}), id)
		return
	}
	if o.Status != "APPLIED" && o.Status != "VOID" {
		l.violate("P08", "refund of "+o.Status, "%s refunds %s", l.describe([]*LTxn{t}), l.describe([]*LTxn{o}))
	}
	if t.Src != o.Dst || t.Dst != o.Src || t.Amount.Cmp(o.Amount) != 0 || t.Currency != o.Currency {
		l.violate("P08", "not the reversal", "%s refunds %s", l.describe([]*LTxn{t}), l.describe([]*LTxn{o}))
	}
	n := 0
	for _, x := range l.All {
		if (x.Effect == "plain" || x.Effect == "hold") && strings.TrimSuffix(x.Ref, "_q") == id+"_refund" {
			n++
		}
	}
	if n > 1 {
		l.violate("P08", "refunded twice", "transaction %s is refunded %d times", id, n)
	}
}

// checkCopy: what becomes of a queued transaction is what was queued.
func (l *Ledger) checkCopy(t *LTxn) {
	o := l.Txns[t.Parent]
	if o == nil || (o.Status != "QUEUED" && o.Status != "SCHEDULED") || o.Ref+"_q" != t.Ref {
		return
	}
	diff := ""
	switch {
	case t.Src != o.Src || t.Dst != o.Dst:
		diff = "accounts"
	case t.Amount.Cmp(o.Amount) != 0 || t.Currency != o.Currency:
		diff = "amount"
	case !t.Effective.Equal(o.Effective) && t.Status != "REJECTED":
		diff = "effective date"
	case t.Desc != o.Desc:
		diff = "description"
	}
	for k, v := range o.Meta0 {
		if strings.HasPrefix(k, "queue_") { // bookkeeping of the queue, shared by the parts of a split
			continue
		}
		if w, ok := t.Meta[k]; diff == "" && (!ok || !sameJSON(v, w)) {
			diff = "metadata " + k
		}
	}
	if diff != "" {
		l.violate("P09", "recorded with another "+diff, "%s recorded %s (effective %s, %q, %v) for %s (effective %s, %q, %v)", t.Owner, l.describe([]*LTxn{t}), t.Effective, t.Desc, t.Meta, l.describe([]*LTxn{o}), o.Effective, o.Desc, o.Meta)
	}
}

func sameJSON(a, b any) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return string(x) == string(y)
}

// checkBatch: a coalesced batch does what its members would have done one after the other,
// in the order in which they are recorded or in some other one.
func (l *Ledger) checkBatch(ts []*LTxn, owner string) {
	for _, t := range ts {
		o := l.Txns[t.Parent]
		if o == nil || (o.Status != "QUEUED" && o.Status != "SCHEDULED") {
			l.violate("P10", "member was not queued", "%s recorded a batch with %s, which is no copy of a queued transaction", owner, l.describe([]*LTxn{t}))
			continue
		}
		if o.Amount.Cmp(t.Amount) != 0 || o.Ref+"_q" != t.Ref || o.Currency != t.Currency {
			l.violate("P10", "member differs from its original", "%s recorded %s for %s", owner, l.describe([]*LTxn{t}), l.describe([]*LTxn{o}))
		}
	}
	avail := map[string]*big.Int{}
	at := func(id string) *big.Int {
		if avail[id] == nil {
			b := l.bal(id)
			avail[id] = new(big.Int).Sub(new(big.Int).Sub(b.C, b.D), b.ID_)
		}
		return avail[id]
	}
	can := func(t *LTxn) bool {
		k, ok := l.Limit[BaseRef(t.Ref)]
		if !ok || k == nil {
			return true
		}
		return new(big.Int).Sub(at(t.Src), t.Amount).Cmp(new(big.Int).Neg(k)) >= 0
	}
	do := func(t *LTxn) {
		at(t.Src).Sub(at(t.Src), t.Amount)
		if t.Status == "APPLIED" {
			at(t.Dst).Add(at(t.Dst), t.Amount)
		}
	}
	rest := ts
	for len(rest) > 0 {
		var left []*LTxn
		for _, t := range rest {
			if can(t) {
				do(t)
			} else {
				left = append(left, t)
			}
		}
		if len(left) == len(rest) {
			// Taking what can be taken in the recorded order may miss an order that works:
			// credits of others first, one debit at a time, is tried as well.
			if l.someOrder(ts) {
				return
			}
			l.violate("P10", "a member alone would have been refused", "%s recorded the batch %s; in no order would every member have been within its limit, %s would not", owner, l.describe(ts), l.describe(left))
			return
		}
		rest = left
	}
}

// someOrder looks for an order in which every member is within its limit.
func (l *Ledger) someOrder(ts []*LTxn) bool {
	if len(ts) > 9 {
		return true // too many orders: not decided
	}
	avail := map[string]*big.Int{}
	for _, t := range ts {
		for _, id := range []string{t.Src, t.Dst} {
			b := l.bal(id)
			avail[id] = new(big.Int).Sub(new(big.Int).Sub(b.C, b.D), b.ID_)
		}
	}
	used := make([]bool, len(ts))
	var rec func(n int) bool
	rec = func(n int) bool {
		if n == len(ts) {
			return true
		}
		for i, t := range ts {
			if used[i] {
				continue
			}
			k, ok := l.Limit[BaseRef(t.Ref)]
			if ok && k != nil && new(big.Int).Sub(avail[t.Src], t.Amount).Cmp(new(big.Int).Neg(k)) < 0 {
				continue
			}
			used[i] = true
			avail[t.Src].Sub(avail[t.Src], t.Amount)
			if t.Status == "APPLIED" {
				avail[t.Dst].Add(avail[t.Dst], t.Amount)
			}
			if rec(n + 1) {
				return true
			}
			used[i] = false
			avail[t.Src].Add(avail[t.Src], t.Amount)
			if t.Status == "APPLIED" {
				avail[t.Dst].Sub(avail[t.Dst], t.Amount)
			}
		}
		return false
	}
	return rec(0)
}
