package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"net/http"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P22 reconciliation

type criterion struct {
	field, op string
	drift     float64
}

type matchRule struct {
	id   string
	crit []criterion
}

// money is one side of a possible match.
type money struct {
	id, parent, source string
	ref, desc, cur     string
	amount             float64
	at                 time.Time
	seq                int64
	upload             string
}

type reconAsk struct {
	q        *Req
	final    bool
	strategy string
	group    string
	dry      bool
	rules    []*matchRule
}

type reconRun struct {
	id, upload, node, status string
	ask                      *reconAsk
	start                    int64 // commit at which it was recorded
	at                       time.Duration
	matches                  map[string][]string // internal by external
	used                     map[string]string   // external by internal
	unmatched                map[string]int
	rows                     int
	final                    bool // started when all was quiet and no cache was left
}

type recon struct {
	rules   []*matchRule
	ints    []*money
	intBy   map[string]*money
	ext     map[string]*money
	byUp    map[string][]*money
	uploads []string
	asks    map[string]*reconAsk // by client#request
	runs    map[string]*reconRun
	order   []*reconRun
	n       int
}

func reconConfig(c *config.Configuration) {
	c.Transaction.MaxWorkers = 4
	c.Reconciliation.ProgressInterval = 2
}

func (r *MixRun) setupRecon() {
	x := &recon{intBy: map[string]*money{}, ext: map[string]*money{}, byUp: map[string][]*money{}, asks: map[string]*reconAsk{}, runs: map[string]*reconRun{}}
	r.x = x
	r.Setup(func(c *Client) {
		for i, l := range [][]criterion{
			{{"amount", "equals", 0}},
			{{"amount", "equals", 0.1}, {"currency", "equals", 0}},
			{{"reference", "equals", 0}},
			{{"description", "contains", 0}, {"amount", "less_than", 0}},
			{{"date", "equals", 60}, {"amount", "equals", 0}},
			{{"reference", "contains", 0}, {"date", "equals", 3600}},
		} {
			var body []map[string]any
			for _, k := range l {
				body = append(body, map[string]any{"field": k.field, "operator": k.op, "allowable_drift": k.drift})
			}
			id := c.Must("POST", "/reconciliation/matching-rules", map[string]any{"name": fmt.Sprintf("rule %d", i), "description": "d", "criteria": body}).S("rule_id")
			x.rules = append(x.rules, &matchRule{id, l})
		}
	})
	for _, n := range r.Rows("transactions", nil) {
		x.add(n, r.Eng.Seq())
	}
	r.onCommit = append(r.onCommit, x.watch(r))
}

// verdict is 1 if the rules clearly pair the two, 0 if they clearly do not, -1 if it is too close to call.
func (a *reconAsk) verdict(e *money, in *money) int {
	best := 0
	for _, ru := range a.rules {
		v := 1
		for _, k := range ru.crit {
			w := k.judge(e, in)
			if w == 0 {
				v = 0
				break
			}
			if w < 0 {
				v = -1
			}
		}
		if v == 1 {
			return 1
		}
		if v < 0 {
			best = -1
		}
	}
	return best
}

func within(diff, lim, slack float64) int {
	switch {
	case diff <= lim-slack || lim == 0 && diff == 0:
		return 1
	case diff > lim+slack:
		return 0
	}
	return -1
}

func (k criterion) judge(e, in *money) int {
	yes := func(b bool) int {
		if b {
			return 1
		}
		return 0
	}
	str := func(a, b string) int {
		a, b = strings.ToLower(a), strings.ToLower(b)
		for _, p := range strings.Split(b, " | ") {
			if k.op == "equals" && a == p || k.op == "contains" && (strings.Contains(a, p) || strings.Contains(p, a)) {
				return 1
			}
		}
		return 0
	}
	switch k.field {
	case "amount":
		d := e.amount - in.amount
		switch k.op {
		case "less_than":
			return yes(d < -1e-9)
		case "greater_than":
			return yes(d > 1e-9)
		}
		// the search allows a part of the external amount, the comparison one of the internal amount
		lo, hi := math.Min(e.amount, in.amount)*k.drift, math.Max(e.amount, in.amount)*k.drift
		d = math.Abs(d)
		if d < 1e-9 {
			return 1
		}
		if within(d, lo, 1e-6) == 1 {
			return 1
		}
		return min(0, -within(d, hi, 1e-6)*within(d, hi, 1e-6))
	case "date":
		return within(math.Abs(e.at.Sub(in.at).Seconds()), k.drift, 1.5)
	case "description":
		return str(e.desc, in.desc)
	case "reference":
		return str(e.ref, in.ref)
	case "currency":
		if in.cur == "MIXED" {
			return 1
		}
		return yes(strings.EqualFold(e.cur, in.cur))
	}
	return 0
}

func (x *recon) watch(r *MixRun) func(string, []pgsim.Change) {
	return func(owner string, ch []pgsim.Change) {
		seq := r.Eng.Seq()
		for _, c := range ch {
			if c.New == nil {
				switch c.Table.Name() {
				case "matches", "unmatched", "external_transactions", "reconciliations":
					r.Violate("P22", "a verdict was removed", "commit #%d by %s removes a row of %s", seq, owner, c.Table.Name())
				}
				continue
			}
			n := Row{c.Table, c.New}
			switch c.Table.Name() {
			case "transactions":
				if c.Old == nil {
					x.add(n, seq)
				}
			case "external_transactions":
				if c.Old != nil {
					r.Violate("P22", "an external transaction changed", "%s", n.S("id"))
					continue
				}
				m := &money{id: n.S("id"), ref: n.S("reference"), desc: n.S("description"), cur: n.S("currency"), amount: flt(n.S("amount")), at: n.T("date"), seq: seq, upload: n.S("upload_id")}
				x.ext[m.id] = m
				x.byUp[m.upload] = append(x.byUp[m.upload], m)
			case "reconciliations":
				x.status(r, owner, n, seq)
			case "matches":
				x.match(r, owner, n, seq)
			case "unmatched":
				u := x.runs[n.S("reconciliation_id")]
				if u == nil {
					r.Violate("P22", "a verdict of no run", "commit #%d by %s", seq, owner)
					continue
				}
				id := n.S("external_transaction_id")
				u.unmatched[id]++
				u.rows++
				x.late(r, u, owner, seq)
				if u.ask == nil || u.ask.strategy == "many_to_one" {
					continue
				}
				e := x.ext[id]
				if e == nil || e.upload != u.upload {
					r.Violate("P22", "a verdict on another upload", "commit #%d by %s: run %s of %s calls %s unmatched", seq, owner, u.id, u.upload, id)
				}
				if u.unmatched[id] > 1 || len(u.matches[id]) > 0 {
					r.Violate("P22", "two verdicts on one external transaction", "commit #%d by %s: run %s (%s) calls %s unmatched, matched with %v, called unmatched %d times", seq, owner, u.id, u.ask.strategy, id, u.matches[id], u.unmatched[id])
				}
			}
		}
	}
}

func (x *recon) add(n Row, seq int64) {
	m := &money{id: n.S("transaction_id"), parent: n.S("parent_transaction"), source: n.S("source"), ref: n.S("reference"), desc: n.S("description"), cur: n.S("currency"), amount: flt(n.S("amount")), at: n.T("created_at"), seq: seq}
	x.ints = append(x.ints, m)
	x.intBy[m.id] = m
}

func flt(s string) float64 {
	f, _ := new(big.Float).SetString(s)
	if f == nil {
		return 0
	}
	v, _ := f.Float64()
	return v
}

func (x *recon) late(r *MixRun, u *reconRun, owner string, seq int64) {
	if u.status == "completed" {
		r.Violate("P22", "a verdict after completion", "commit #%d by %s: run %s", seq, owner, u.id)
	}
	if u.ask != nil && u.ask.dry {
		r.Violate("P22", "a dry run recorded a verdict", "commit #%d by %s: run %s", seq, owner, u.id)
	}
}

func (x *recon) match(r *MixRun, owner string, n Row, seq int64) {
	u := x.runs[n.S("reconciliation_id")]
	if u == nil {
		r.Violate("P22", "a verdict of no run", "commit #%d by %s", seq, owner)
		return
	}
	ei, ii := n.S("external_transaction_id"), n.S("internal_transaction_id")
	say := func(key, f string, a ...any) {
		r.Violate("P22", key, "commit #%d by %s: run %s of %s (%s) matches %s with %s: %s", seq, owner, u.id, u.upload, u.ask.strategy, ei, ii, fmt.Sprintf(f, a...))
	}
	u.rows++
	x.late(r, u, owner, seq)
	if u.ask == nil {
		return
	}
	r.Count["matches_"+u.ask.strategy]++
	e, in := x.ext[ei], x.intBy[ii]
	if e == nil || e.upload != u.upload {
		say("a verdict on another upload", "not one of the upload")
	} else if in == nil {
		say("matched with nothing", "no such transaction")
	} else if u.ask.strategy == "one_to_one" {
		if u.ask.verdict(e, in) == 0 || e.cur != in.cur {
			say("a match that no rule allows", "%+v with %+v under %s", *e, *in, u.ask.show())
		}
		if math.Abs(flt(n.S("amount"))-e.amount) > 0.006 {
			say("a match of another amount", "%s for %+v", n.S("amount"), *e)
		}
		if len(u.matches[ei]) > 0 {
			say("an external transaction is matched twice", "matched with %v already", u.matches[ei])
		}
		if o := u.used[ii]; o != "" {
			say("an internal transaction is matched twice", "matched with %s already", o)
		}
	} else {
		for _, o := range u.matches[ei] {
			if o == ii && u.ask.strategy == "one_to_many" {
				say("two verdicts on one external transaction", "recorded twice")
			}
		}
	}
	if u.ask.strategy != "many_to_one" && u.unmatched[ei] > 0 {
		say("two verdicts on one external transaction", "called unmatched before")
	}
	u.matches[ei] = append(u.matches[ei], ii)
	u.used[ii] = ei
}

func (a *reconAsk) show() string {
	var l []string
	for _, ru := range a.rules {
		l = append(l, fmt.Sprint(ru.crit))
	}
	return strings.Join(l, " or ")
}

func (x *recon) status(r *MixRun, owner string, n Row, seq int64) {
	id, st := n.S("reconciliation_id"), n.S("status")
	u := x.runs[id]
	if u == nil {
		u = &reconRun{id: id, upload: n.S("upload_id"), start: seq, at: r.W.Now(), matches: map[string][]string{}, used: map[string]string{}, unmatched: map[string]int{}}
		actor := r.W.DBActor
		u.node, _, _ = strings.Cut(actor, "|")
		if _, key, ok := strings.Cut(actor, "|"); ok {
			u.ask = x.asks[key]
		}
		if u.ask != nil {
			u.final = u.ask.final
		}
		if u.ask == nil {
			r.Violate("P22", "a run nobody asked for", "commit #%d by %s (%s)", seq, owner, actor)
		}
		x.runs[id] = u
		x.order = append(x.order, u)
		if st != "started" {
			r.Violate("P22", "a run does not start as started", "%s", st)
		}
	}
	was := u.status
	u.status = st
	m, un := n.I("matched_transactions"), n.I("unmatched_transactions")
	if was != st {
		r.Count["recon_"+st]++
	}
	if st == "in_progress" {
		u.start = seq
	}
	if st == "completed" && (was == "failed" || was == "started") {
		r.Violate("P22", "completed out of turn", "run %s goes from %s to %s", id, was, st)
	}
	if was == "completed" && st == "failed" && r.W.FaultCount() == 0 {
		r.Violate("P22", "completed out of turn", "run %s goes from %s to %s", id, was, st)
	}
	if st != "completed" || was == st || u.ask == nil {
		return
	}
	say := func(key, f string, a ...any) {
		why := ""
		for _, fl := range r.W.FaultLog {
			if fl.End >= u.at && (strings.Contains(key, "completed with") || strings.Contains(key, "called unmatched")) {
				why = "infrastructure fault"
			}
		}
		r.Violate("P22", with(key, why), "commit #%d by %s completes run %s of %s (%s, rules %s): %s", seq, owner, id, u.upload, u.ask.strategy, u.ask.show(), fmt.Sprintf(f, a...))
	}
	nm, nu := 0, 0
	for _, l := range u.matches {
		nm += len(l)
	}
	for _, k := range u.unmatched {
		nu += k
	}
	if u.ask.dry {
		if u.ask.strategy != "many_to_one" && int(un) > len(x.byUp[u.upload]) {
			say("a dry run counts more than there is", "%d matched, %d unmatched of %d", m, un, len(x.byUp[u.upload]))
		}
		if u.ask.strategy == "one_to_one" && int(m+un) != len(x.byUp[u.upload]) {
			say("the counts do not cover the upload", "%d matched, %d unmatched of %d", m, un, len(x.byUp[u.upload]))
		}
		return
	}
	if int(m) != nm || int(un) != nu {
		say("the counts differ from the verdicts", "reported %d and %d, recorded %d and %d", m, un, nm, nu)
	}
	if u.ask.strategy == "many_to_one" {
		// here each transaction is paired with a group of the upload
		groups := sums(x.byUp[u.upload], u.ask.group, r.batch)
		for _, id := range sortedKeys(u.unmatched) {
			if in := x.intBy[id]; in == nil {
				say("a verdict on no transaction", "%s", id)
			} else if g := u.ask.pairs(in, groups); g != nil {
				say("called unmatched though a group is there", "%+v and %+v", *in, *g)
			}
		}
		return
	}
	for _, e := range x.byUp[u.upload] {
		if u.final && u.unmatched[e.id] > 0 {
			if g := u.ask.pairs(e, sums(x.ints, u.ask.group, r.batch)); g != nil {
				say("called unmatched though a group is there", "%+v and %+v", *e, *g)
			}
		}
		if len(u.matches[e.id]) == 0 && u.unmatched[e.id] == 0 {
			say("an external transaction without a verdict", "%+v", *e)
		}
		if l := u.matches[e.id]; len(l) > 0 && u.ask.strategy == "one_to_many" {
			x.group(say, u, e, l)
		}
		if u.ask.strategy != "one_to_one" || len(u.matches[e.id]) > 0 || u.unmatched[e.id] == 0 {
			continue
		}
		for _, in := range x.ints {
			if in.seq < u.start && u.used[in.id] == "" && e.cur == in.cur && u.ask.verdict(e, in) == 1 {
				say("called unmatched though a match is there", "%+v and %+v", *e, *in)
				break
			}
		}
	}
}

// sums makes one of each group that no page of rows can divide.
func sums(l []*money, by string, page int) (whole []*money) {
	var out []*money
	got := map[string]*money{}
	for _, m := range l {
		k := map[string]string{"description": m.desc, "reference": m.ref, "currency": m.cur, "source": m.source, "parent_transaction": m.parent}[by]
		if k == "" {
			continue
		}
		g := got[k]
		if g == nil {
			g = &money{id: k, at: m.at, cur: m.cur, ref: m.ref, desc: m.desc}
			got[k] = g
			out = append(out, g)
		} else {
			g.ref, g.desc = g.ref+" | "+m.ref, g.desc+" | "+m.desc
		}
		if m.at.Before(g.at) {
			g.at = m.at
		}
		if m.cur != g.cur {
			g.cur = "MIXED"
		}
		g.amount += m.amount
		g.seq++
	}
	for _, g := range out {
		if g.seq == 1 || len(l) <= page {
			whole = append(whole, g)
		}
	}
	return
}

// pairs is a group that the rules clearly pair with one; sums of floats may be off by a little.
func (a *reconAsk) pairs(one *money, groups []*money) *money {
	for _, g := range groups {
		if g.amount > 1e8 || one.amount > 1e8 {
			continue
		}
		for _, ru := range a.rules {
			clear := true
			for _, k := range ru.crit {
				if k.field == "amount" && g.seq > 1 && math.Abs(math.Abs(one.amount-g.amount)-k.drift*math.Min(one.amount, g.amount)) < 1e-6 {
					clear = false
				}
				clear = clear && k.judge(one, g) == 1
			}
			if clear {
				return g
			}
		}
	}
	return nil
}

// group judges the transactions matched with one external transaction together.
func (x *recon) group(say func(string, string, ...any), u *reconRun, e *money, l []string) {
	g := &money{}
	curs := map[string]bool{}
	var refs, descs []string
	for _, id := range l {
		in := x.intBy[id]
		if in == nil {
			return
		}
		g.amount += in.amount
		if g.at.IsZero() || in.at.Before(g.at) {
			g.at = in.at
		}
		curs[in.cur] = true
		g.cur = in.cur
		refs, descs = append(refs, in.ref), append(descs, in.desc)
	}
	if len(curs) > 1 {
		g.cur = "MIXED"
	}
	g.ref, g.desc = strings.Join(refs, " | "), strings.Join(descs, " | ")
	if u.ask.verdict(e, g) == 0 {
		say("a group that no rule allows", "%+v with %v as %+v", *e, l, *g)
	}
}

// reconOp records transactions and reconciles.
func reconOp(r *MixRun, c *Client) {
	x := r.x.(*recon)
	switch r.C.W("op", 5, 6, 2, 3, 1) {
	case 0:
		p := r.newPost("post")
		p.Body["description"] = fmt.Sprintf("grp%d", r.C.N("op", 4))
		p.Queue = r.C.N("op", 4) == 1
		r.submitRetry(c, p)
	case 1:
		a := x.ask(r)
		l := x.externals(r, a)
		x.send(c, a, "/reconciliation/start-instant", map[string]any{"external_transactions": l})
	case 2:
		a := &reconAsk{strategy: "one_to_one"}
		l := x.externals(r, a)
		var q *Req
		if r.C.N("op", 2) == 0 {
			q = c.Upload("/reconciliation/upload", "bank.json", jsonText(l))
		} else {
			var b strings.Builder
			b.WriteString("ID,Amount,Date,Reference,Currency,Description\n")
			for _, e := range l {
				fmt.Fprintf(&b, "%s,%v,%s,%s,%s,%s\n", e["id"], e["amount"], e["date"], e["reference"], e["currency"], e["description"])
			}
			q = c.Upload("/reconciliation/upload", "bank.csv", b.String())
		}
		if q.OK() {
			up := q.S("upload_id")
			x.uploads = append(x.uploads, up)
			r.Count["uploads"]++
			if len(x.byUp[up]) != len(l) {
				r.Violate("P22", "an upload is incomplete", "%s; %d of %d rows of %s are recorded", q, len(x.byUp[up]), len(l), up)
			}
		}
	case 3:
		if len(x.uploads) == 0 {
			return
		}
		a := x.ask(r)
		x.send(c, a, "/reconciliation/start", map[string]any{"upload_id": x.uploads[r.C.N("op", len(x.uploads))]})
	case 4:
		if len(x.order) > 0 {
			c.Do("GET", "/reconciliation/"+x.order[r.C.N("op", len(x.order))].id, nil)
		}
	}
}

// groups names a column that the other side can be grouped by.
func (x *recon) groups(r *MixRun, strategy string) string {
	if strategy == "many_to_one" {
		return []string{"description", "reference", "currency"}[r.C.N("op", 3)]
	}
	return []string{"source", "reference", "currency", "parent_transaction"}[r.C.N("op", 4)]
}

func (x *recon) ask(r *MixRun) *reconAsk {
	a := &reconAsk{strategy: []string{"one_to_one", "one_to_many", "many_to_one"}[r.C.W("op", 5, 2, 1)], dry: r.C.N("op", 5) == 1}
	if a.strategy != "one_to_one" {
		a.group = x.groups(r, a.strategy)
	}
	i := r.C.N("op", len(x.rules))
	a.rules = append(a.rules, x.rules[i])
	if r.C.N("op", 3) == 1 {
		a.rules = append(a.rules, x.rules[(i+1+r.C.N("op", len(x.rules)-1))%len(x.rules)])
	}
	return a
}

func (x *recon) send(c *Client, a *reconAsk, path string, body map[string]any) {
	var ids []string
	for _, ru := range a.rules {
		ids = append(ids, ru.id)
	}
	body["strategy"], body["dry_run"], body["matching_rule_ids"] = a.strategy, a.dry, ids
	if a.group != "" {
		body["grouping_criteria"] = a.group
	}
	x.asks[fmt.Sprintf("%s#%d", c.name, c.s.reqN+1)] = a
	a.q = c.Do("POST", path, body)
}

// externals makes up what a bank reports.
func (x *recon) externals(r *MixRun, a *reconAsk) []map[string]any {
	var l []map[string]any
	x.n++
	for i, n := 0, 1+r.C.N("op", 7); i < n; i++ {
		e := map[string]any{"id": fmt.Sprintf("ext%d-%d", x.n, i), "amount": float64(1+r.C.N("op", 900)) / 100, "reference": fmt.Sprintf("bank%d", x.n), "currency": "USD",
			"description": fmt.Sprintf("grp%d", r.C.N("op", 5)), "date": time.Now().UTC().Format(time.RFC3339), "source": "bank"}
		switch k := r.C.W("op", 6, 2, 1); {
		case k == 0 && len(x.ints) > 0: // of a transaction
			in := x.ints[r.C.N("op", len(x.ints))]
			e["amount"], e["reference"], e["date"] = in.amount, in.ref, in.at.UTC().Format(time.RFC3339)
			if a.strategy == "one_to_many" {
				sum := 0.0
				for _, o := range x.ints {
					if o.desc == in.desc {
						sum += o.amount
					}
				}
				e["amount"] = math.Round(sum*100) / 100
			}
			switch r.C.N("op", 5) {
			case 1:
				e["amount"] = math.Round(e["amount"].(float64)*104) / 100
			case 2:
				e["reference"] = "other"
			}
		case k == 1 && i > 0: // as one before
			for _, f := range []string{"amount", "reference", "description", "date"} {
				e[f] = l[i-1][f]
			}
		}
		l = append(l, e)
	}
	return l
}

func (r *MixRun) checkRecon() {
	x := r.x.(*recon)
	alive := func(id string) bool {
		for _, n := range r.upNodes("") {
			if n.ID == id {
				return true
			}
		}
		return false
	}
	open := func() (l []*reconRun) {
		for _, u := range x.order {
			if (u.status == "started" || u.status == "in_progress") && alive(u.node) {
				l = append(l, u)
			}
		}
		return
	}
	wait := func() {
		for i := 0; i < 60 && len(open()) > 0; i++ {
			r.Pass(10 * time.Second)
		}
	}
	wait()
	if r.C.N("op", 3) == 0 {
		// once more, with groups that no cache has of old
		r.Pass(6*time.Minute + 10*time.Second)
		r.Setup(func(c *Client) {
			for i, n := 0, 1+r.C.N("op", 3); i < n; i++ {
				a := x.ask(r)
				a.strategy, a.dry, a.final = "one_to_many", false, true
				a.group = x.groups(r, a.strategy)
				x.send(c, a, "/reconciliation/start-instant", map[string]any{"external_transactions": x.externals(r, a)})
				r.Count["quiet_reconciliations"]++
			}
		})
		wait()
	}
	for _, u := range open() {
		faulty := false
		for _, f := range r.W.FaultLog {
			faulty = faulty || f.End >= u.at
		}
		if !faulty {
			r.Violate("P22", "a run does not end", "run %s of %s (%v) still is %s", u.id, u.upload, u.ask, u.status)
		}
	}
	r.Pass(5 * time.Second)
	marked := map[string]string{}
	for _, t := range r.Rows("transactions", nil) {
		if m := t.M("meta_data"); m["reconciled"] == true {
			marked[t.S("transaction_id")] = fmt.Sprint(m["external_txn_id"])
		}
	}
	ever := map[string]map[string]bool{}
	for _, u := range x.order {
		if u.ask != nil && u.ask.q != nil && u.ask.q.Status == http.StatusOK && u.ask.q.S("reconciliation_id") != u.id {
			r.Violate("P22", "a run is reported under another id", "%s: %s", u.ask.q, u.id)
		}
		for e, l := range u.matches {
			for _, in := range l {
				if ever[in] == nil {
					ever[in] = map[string]bool{}
				}
				ever[in][e] = true
			}
		}
		var q *Req
		r.Setup(func(c *Client) { q = c.Do("GET", "/reconciliation/"+u.id, nil) })
		row, _ := r.One("reconciliations", "reconciliation_id", u.id)
		if q.Status == http.StatusOK && (q.S("status") != row.S("status") || fmt.Sprint(q.JSON["matched_transactions"]) != row.S("matched_transactions") || fmt.Sprint(q.JSON["unmatched_transactions"]) != row.S("unmatched_transactions")) {
			r.Violate("P22", "a run is reported otherwise", "%s: stored as %s %s %s", q, row.S("status"), row.S("matched_transactions"), row.S("unmatched_transactions"))
		}
	}
	// what follows a transaction copies its metadata, the mark included
	inherited := func(in, e string) bool {
		for t := x.intBy[in]; t != nil; t = x.intBy[t.parent] {
			if ever[t.id][e] {
				return true
			}
		}
		return false
	}
	for _, in := range sortedKeys(ever) {
		if e, ok := marked[in]; !ok && r.W.FaultCount() == 0 {
			r.Violate("P22", "a matched transaction is not marked", "%s was matched with %v", in, sortedKeys(ever[in]))
		} else if ok && !inherited(in, e) {
			r.Violate("P22", "a transaction is marked as matched with another", "%s is marked as matched with %s, it was matched with %v", in, e, sortedKeys(ever[in]))
		}
	}
	for _, in := range sortedKeys(marked) {
		if ever[in] == nil && !inherited(in, marked[in]) {
			r.Violate("P22", "a transaction is marked though unmatched", "%s is marked as matched with %s", in, marked[in])
		}
	}
}

func jsonText(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
