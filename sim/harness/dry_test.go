package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P26 dry runs

type dryRuns struct {
	mine map[string]bool // the requests that are dry runs, as client#number
	asks []*Req
}

// watchDry has every trace of a dry run noticed: rows, tasks, calls.
func (r *MixRun) watchDry() {
	x := &dryRuns{mine: map[string]bool{}}
	r.x = x
	dry := func(actor string) bool {
		_, a, ok := strings.Cut(actor, "|")
		return ok && x.mine[a]
	}
	r.onCommit = append(r.onCommit, func(owner string, ch []pgsim.Change) {
		if len(ch) > 0 && dry(r.W.DBActor) {
			var l []string
			for _, c := range ch {
				l = append(l, c.Table.Name())
			}
			r.Violate("P26", "a dry run wrote to the database", "commit #%d by %s changes %v", r.Eng.Seq(), r.W.DBActor, l)
		}
	})
	r.watchRedis("asynq:{", func(actor string, cmds [][]string) {
		if dry(actor) {
			r.Violate("P26", "a dry run queued something", "%s runs %v", actor, clip(fmt.Sprint(cmds), 400))
		}
	})
	r.W.OnHTTP = func(actor, url string) {
		if dry(actor) {
			r.Violate("P26", "a dry run called out", "%s calls %s", actor, url)
		}
	}
}

// dry sends a request as a dry run.
func (r *MixRun) dry(c *Client, method, path string, body map[string]any) *Req {
	x := r.x.(*dryRuns)
	b := map[string]any{"dry_run": true}
	for k, v := range body {
		b[k] = v
	}
	x.mine[fmt.Sprintf("%s#%d", c.name, r.reqN+1)] = true
	q := c.Do(method, path, b)
	x.asks = append(x.asks, q)
	r.Count["dry_runs"]++
	return q
}

// dryKind makes a request of any kind that has dry runs; via sends it.
func (r *MixRun) dryKind(c *Client, via func(kind, method, path string, body map[string]any) *Req) {
	c.Via = func(method, path string, body any) *Req {
		b := body.(map[string]any)
		kind := "single"
		var ps []*Post
		if l, ok := b["transactions"].([]map[string]any); ok {
			kind = "bulk"
			for _, t := range l {
				ps = append(ps, r.byRef[t["reference"].(string)])
			}
			for i, k := range r.Bulks {
				if k.Posts[0] == ps[0] {
					r.Bulks = append(r.Bulks[:i:i], r.Bulks[i+1:]...)
					break
				}
			}
		} else {
			ps = []*Post{r.byRef[b["reference"].(string)]}
			if len(ps[0].Parts) > 0 {
				kind = "split"
			}
		}
		for _, p := range ps {
			r.Posts = without(r.Posts, p)
			r.Holds = without(r.Holds, p)
		}
		return via(kind, method, path, b)
	}
	defer func() { c.Via = nil }()
	var known, holds []*Post
	for _, p := range r.Posts {
		if p.ID != "" && p.Bulk == nil {
			known = append(known, p)
			if p.Inflight {
				holds = append(holds, p)
			}
		}
	}
	k := r.C.W("op", 6, 2, 2, 4, 4, 1)
	if len(known) == 0 && k > 2 || len(holds) == 0 && (k == 4 || k == 5) {
		k = 0
	}
	switch k {
	case 0:
		p := r.newPost("dry")
		if r.C.N("op", 5) == 1 {
			p.Dst = fmt.Sprintf("@new%d", r.C.N("op", 30))
			p.Body["destination"] = p.Dst
		}
		if r.C.N("op", 4) == 1 && p.Src != "@world" { // about as much as there is
			if b := r.Led.Bal[p.Src]; b != nil {
				a := new(big.Int).Sub(b.C, b.D)
				a.Sub(a, b.ID_).Add(a, big.NewInt(int64(r.C.N("op", 3)-1)))
				if a.Sign() > 0 {
					p.Amount = a
					delete(p.Body, "amount")
					p.Body["precise_amount"] = a
				}
			}
		}
		if r.C.N("op", 8) == 1 && len(r.Posts) > 1 {
			if o := r.Posts[r.C.N("op", len(r.Posts))]; o != p && o.ID != "" && len(o.Parts) == 0 { // a split records its parts only
				delete(r.byRef, p.Ref)
				r.Posts = without(r.Posts, p)
				b := map[string]any{}
				for k, v := range p.Body {
					b[k] = v
				}
				b["reference"] = o.Ref
				b["skip_queue"] = true
				c.Via = nil
				via("taken", "POST", "/transactions", b)
				return
			}
		}
		if r.C.N("op", 3) == 1 {
			p.Inflight = true
			p.Body["inflight"] = true
		}
		p.Queue = r.C.N("op", 3) == 1
		r.submit(c, p)
	case 1:
		r.split(c, r.C.N("op", 3) == 1)
	case 2:
		r.bulk(c)
	case 3:
		c.Via = nil
		p := known[len(known)-1-r.C.N("op", min(len(known), 10))]
		via("refund", "POST", "/refund-transaction/"+p.ID, map[string]any{"skip_queue": r.C.N("op", 2) == 0})
	case 4:
		c.Via = nil
		p := holds[r.C.N("op", len(holds))]
		b := map[string]any{"status": []string{"commit", "void"}[r.C.N("op", 2)], "skip_queue": r.C.N("op", 3) != 1}
		if r.C.N("op", 2) == 1 && b["status"] == "commit" {
			b["precise_amount"] = new(big.Int).Add(big.NewInt(1), new(big.Int).Div(new(big.Int).Mul(p.Amount, big.NewInt(int64(r.C.N("op", 12)))), big.NewInt(10)))
		}
		via("act", "PUT", "/transactions/inflight/"+p.ID, b)
	case 5:
		c.Via = nil
		var ids []string
		var items []map[string]any
		for _, p := range holds {
			if r.C.N("op", 3) == 0 {
				ids = append(ids, p.ID)
				items = append(items, map[string]any{"transaction_id": p.ID})
			}
		}
		if len(ids) == 0 {
			return
		}
		if r.C.N("op", 2) == 0 {
			via("bulkact", "POST", "/transactions/inflight/bulk/void", map[string]any{"transaction_ids": ids, "skip_queue": true})
		} else {
			via("bulkact", "POST", "/transactions/inflight/bulk/commit", map[string]any{"transactions": items, "skip_queue": true})
		}
	}
}

func without(l []*Post, p *Post) []*Post {
	var out []*Post
	for _, x := range l {
		if x != p {
			out = append(out, x)
		}
	}
	return out
}

// dryOp is a dry run among the other traffic: what it says of the balances was so at some moment.
func dryOp(r *MixRun, c *Client) {
	r.dryKind(c, func(kind, method, path string, body map[string]any) *Req {
		q := r.dry(c, method, path, body)
		if q.OK() {
			r.moment26(q, q.JSON)
		}
		return q
	})
}

type proj struct {
	id                 string
	virtual            bool
	c, d, ic, idb      *big.Int
	rc, rd, ric, ridb  *big.Int
	b, av, rb, rav     *big.Int
	role, currencyName string
}

func projections(j map[string]any) []*proj {
	var out []*proj
	l, _ := j["balances"].([]any)
	for _, v := range l {
		m, _ := v.(map[string]any)
		n := func(k string) *big.Int {
			x, ok := new(big.Int).SetString(str(m[k]), 10)
			if !ok {
				return new(big.Int).SetInt64(-1 << 60)
			}
			return x
		}
		p := &proj{id: str(m["balance_id"]), role: str(m["role"]), c: n("current_credit_balance"), d: n("current_debit_balance"), ic: n("current_inflight_credit_balance"), idb: n("current_inflight_debit_balance"),
			rc: n("resulting_credit_balance"), rd: n("resulting_debit_balance"), ric: n("resulting_inflight_credit_balance"), ridb: n("resulting_inflight_debit_balance"),
			b: n("current_balance"), av: n("current_available"), rb: n("resulting_balance"), rav: n("resulting_available")}
		p.virtual, _ = m["virtual"].(bool)
		out = append(out, p)
	}
	return out
}

// sums: the derived figures of a projection.
func (r *MixRun) sums26(q *Req, p *proj) {
	for _, v := range [][4]*big.Int{{p.c, p.d, p.b, nil}, {p.rc, p.rd, p.rb, nil}, {p.b, p.idb, p.av, nil}, {p.rb, p.ridb, p.rav, nil}} {
		if new(big.Int).Sub(v[0], v[1]).Cmp(v[2]) != 0 {
			r.Violate("P26", "the figures do not add up", "%s: %v - %v is not %v; %s", p.id, v[0], v[1], v[2], q.Resp)
		}
	}
}

// moment26: the balances a dry run starts from are balances of a moment during the request.
func (r *MixRun) moment26(q *Req, j map[string]any) {
	check := func(j map[string]any) {
		for _, p := range projections(j) {
			r.sums26(q, p)
			b := r.Led.Bal[p.id]
			if p.virtual || b == nil {
				continue
			}
			ok := false
			c, d, ic, idb := new(big.Int), new(big.Int), new(big.Int), new(big.Int)
			same := func() bool { return c.Cmp(p.c) == 0 && d.Cmp(p.d) == 0 && ic.Cmp(p.ic) == 0 && idb.Cmp(p.idb) == 0 }
			for _, v := range b.Hist {
				if v.Seq > q.RetSeq {
					break
				}
				if v.Seq > q.InvSeq {
					ok = ok || same()
				}
				c, d, ic, idb = v.C, v.D, v.IC, v.IDb
			}
			ok = ok || same()
			r.Count["dry_moments"]++
			if !ok {
				r.Violate("P26", "starts from balances that never were", "%s: %s", p.id, q.Resp)
			}
		}
	}
	if l, ok := j["results"].([]any); ok {
		if cum, _ := j["cumulative"].(bool); !cum {
			for _, v := range l {
				m, _ := v.(map[string]any)
				check(m)
			}
		}
	}
	check(j)
}

// checkDry compares dry runs with the real thing, with nothing else going on.
func (r *MixRun) checkDry() {
	r.Setup(func(c *Client) {
		for i := 0; i < 14; i++ {
			r.dryKind(c, func(kind, method, path string, body map[string]any) *Req {
				return r.predict(c, kind, method, path, body)
			})
		}
	})
}

// calm waits until no work is left.
func (r *MixRun) calm() bool {
	quiet := 0
	for i := 0; i < 4000 && quiet < 3; i++ {
		time.Sleep(time.Second)
		due, later := r.queueState(false)
		left := false // a lock left behind by an earlier fault
		for _, k := range r.W.Mini.DB(0).Keys() {
			left = left || strings.HasPrefix(k, "bln_") || strings.Contains(k, "lock") || strings.HasPrefix(k, "inflight-commit:")
		}
		if due+later == 0 && !left && r.Eng.ActiveTx() == 0 {
			quiet++
		} else {
			quiet = 0
		}
	}
	return quiet == 3
}

// recorded says whether a transaction, or a part of the split, of this reference is recorded.
func (r *MixRun) recorded(ref string) bool {
	if len(r.Led.Refs[ref]) > 0 {
		return true
	}
	for _, t := range r.Led.All {
		if BaseRef(t.Ref) == ref {
			return true
		}
	}
	return false
}

type four [4]string

func (r *MixRun) figures() map[string]four {
	out := map[string]four{}
	for id, b := range r.Led.Bal {
		out[id] = four{b.C.String(), b.D.String(), b.IC.String(), b.ID_.String()}
	}
	return out
}

func (r *MixRun) predict(c *Client, kind, method, path string, body map[string]any) *Req {
	if !r.calm() {
		return r.dry(c, method, path, body)
	}
	before := r.figures()
	d := r.dry(c, method, path, body)
	if d.Status >= 500 || d.Status == 0 {
		r.Violate("P26", "no answer", "%s", d)
		return d
	}
	c.Via = nil
	c.Pin = strings.Split(d.Node, "/")[0]
	if r.C.N("op", 2) == 1 {
		c.Pin = ""
	}
	q := c.Do(method, path, body)
	c.Pin = ""
	r.calm()
	after := r.figures()
	r.Count["predictions"]++
	say := func(key string) {
		r.Violate("P26", key, "the dry run %s %s; the real one: %s; balances before %v, after %v", d, d.Resp, q, before, after)
	}
	queued, _ := body["skip_queue"].(bool)
	queued = !queued
	if r.W.FaultCount() > 0 && (d.Status == 423 || q.Status == 423 || q.Status >= 500 || strings.Contains(q.Resp, "LOCKED")) {
		r.Count["predictions_void"]++ // a connection that an earlier fault broke
		return q
	}
	// outcome of the real request
	applied := q.OK()
	state := true // the balances afterwards are predicted
	switch kind {
	case "single", "taken":
		if queued && applied {
			applied = false
			for _, t := range r.Led.Refs[body["reference"].(string)+"_q"] {
				applied = applied || t.Status == "APPLIED" || t.Status == "INFLIGHT"
			}
		}
	case "split":
		if queued {
			r.splitParts26(d, q, body, say)
			return q
		}
	case "bulk":
		if queued {
			return q
		}
		async, _ := body["run_async"].(bool)
		if async && applied {
			for _, t := range body["transactions"].([]map[string]any) {
				if t["sources"] != nil || t["destinations"] != nil {
					return q // some of its parts can be recorded
				}
				applied = applied && r.recorded(t["reference"].(string))
			}
		}
	case "refund", "act":
		if queued && applied {
			applied = false
			for id := range after {
				applied = applied || after[id] != before[id]
			}
		}
	case "bulkact":
		for _, k := range []string{"results"} {
			dl, _ := d.JSON[k].([]any)
			ql, _ := q.JSON[k].([]any)
			for i := range dl {
				if i >= len(ql) {
					break
				}
				dm, _ := dl[i].(map[string]any)
				qm, _ := ql[i].(map[string]any)
				w, _ := dm["would_apply"].(bool)
				if w != (str(qm["status"]) == "succeeded") {
					key := "another outcome than the dry run of a bulk action said"
					if l, _ := dm["legs"].([]any); w && len(l) > 1 && str(qm["code"]) == "NOT_FOUND" {
						key = "a bulk action does not settle the parts of a split that its dry run does"
					}
					say(key + " " + str(qm["code"]))
				}
			}
		}
		return q
	}
	if !d.OK() {
		if applied {
			say("the dry run is refused but the real request is not")
		}
		return q
	}
	would, _ := d.JSON["would_apply"].(bool)
	r.Count[fmt.Sprintf("predicted_%s_%v", kind, would)]++
	if l, _ := d.JSON["legs"].([]any); !would && kind == "act" && len(l) > 0 {
		return q // some parts can be settled
	}
	if would && !applied && queued && r.W.FaultCount() > 0 {
		r.Count["predictions_void"]++
		return q
	}
	if would != applied {
		say(fmt.Sprintf("another outcome than the dry run said (%s)", kind))
		return q
	}
	if !would {
		if kind == "split" || kind == "bulk" || kind == "refund" || kind == "act" {
			state = false
		}
		if rej, _ := d.JSON["rejection"].(map[string]any); rej != nil && !queued && kind == "single" { // (elsewhere several reasons can apply at once)
			want := str(rej["code"])
			e, _ := q.JSON["error_detail"].(map[string]any)
			if got := str(e["code"]); got != want {
				say("another error than the dry run said")
			}
		}
	}
	if !state {
		return q
	}
	seen := map[string]bool{}
	for _, p := range projections(d.JSON) {
		r.sums26(d, p)
		id := p.id
		if p.virtual {
			if _, ok := before[id]; ok || r.balID(id, "USD") != "" && before[r.balID(id, "USD")] != (four{}) {
				say("a balance that exists is called virtual")
			}
			id = r.balID(id, "USD")
			if id == "" {
				if would {
					say("the balance was not created")
				}
				continue
			}
		}
		seen[id] = true
		cur, res := four{p.c.String(), p.d.String(), p.ic.String(), p.idb.String()}, four{p.rc.String(), p.rd.String(), p.ric.String(), p.ridb.String()}
		if b, ok := before[id]; ok && b != cur || !ok && cur != (four{"0", "0", "0", "0"}) {
			say("starts from balances that were not so")
		}
		if after[id] != res {
			say(fmt.Sprintf("another result than the dry run said (%s)", kind))
		}
	}
	for id := range after {
		if b, ok := before[id]; ok && !seen[id] && after[id] != b {
			say(fmt.Sprintf("another balance changed too (%s)", kind))
		}
	}
	if would && kind == "single" && !queued {
		if str(d.JSON["status"]) != q.S("status") {
			say("another status than the dry run said")
		}
		pa, _ := q.JSON["precise_amount"].(json.Number)
		if str(d.JSON["precise_amount"]) != pa.String() {
			say("another amount than the dry run said")
		}
	}
	return q
}

// splitParts26: the parts of a queued split are projected one by one.
func (r *MixRun) splitParts26(d, q *Req, body map[string]any, say func(string)) {
	if !d.OK() || !q.OK() {
		if d.OK() != q.OK() {
			say("the dry run is refused but the real request is not, or the other way round")
		}
		return
	}
	var want, got []string
	legs, _ := d.JSON["legs"].([]any)
	for _, v := range legs {
		m, _ := v.(map[string]any)
		want = append(want, str(m["precise_amount"]))
	}
	ref := body["reference"].(string)
	n := 0
	for i := 1; ; i++ {
		l := r.Led.Refs[fmt.Sprintf("%s_%d_q", ref, i)]
		if len(l) == 0 {
			break
		}
		n++
		if l[0].Status == "APPLIED" || l[0].Status == "INFLIGHT" {
			got = append(got, l[0].Amount.String())
		}
	}
	if would, _ := d.JSON["would_apply"].(bool); !would {
		if len(got) == n && n > 0 {
			say("a part that cannot apply alone applied (split)")
		}
		return
	}
	if len(got) == len(want) && strings.Join(got, " ") != strings.Join(want, " ") {
		say("other parts than the dry run said")
	}
}
