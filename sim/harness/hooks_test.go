package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"
)

// ---------------------------------------------------------------- P27 hooks

// hookState is one definition of a hook, in force from the answer to the request that
// set it to the next request about the hook.
type hookState struct {
	from, to time.Duration // known to be in force; to < 0: to the end
	sure     bool
	gone     bool
	active   bool
	typ, url string
	retries  int
	timeout  int
	name     string
}

type hookDef struct {
	id     string
	busy   bool
	states []*hookState
}

type hookRun struct {
	all     []*hookDef
	n       int
	creates int
	seq     int64 // commits before the traffic
}

func (h *hookDef) last() *hookState { return h.states[len(h.states)-1] }

// begin ends the time for which the hook's definition is known.
func (h *hookDef) begin(at time.Duration) {
	if l := h.last(); l.to < 0 {
		l.to = at
	}
}

// through returns the definition that was in force from a to b for sure.
func (h *hookDef) through(a, b time.Duration) *hookState {
	for _, s := range h.states {
		if s.sure && s.from < a && (s.to < 0 || s.to > b) {
			return s
		}
	}
	return nil
}

// was tells whether some definition possibly in force between a and b satisfies f.
func (h *hookDef) was(a, b time.Duration, f func(*hookState) bool) bool {
	for i, s := range h.states {
		end := s.to
		if i+1 < len(h.states) {
			end = h.states[i+1].from // until the next one was certain
		} else {
			end = -1
		}
		begin := time.Duration(0)
		if i > 0 {
			begin = h.states[i-1].to // may have come into force since
		}
		if (end < 0 || end >= a) && begin <= b && (!s.sure || f(s)) {
			return true
		}
	}
	return false
}

func (st *hookState) body() map[string]any {
	return map[string]any{"name": st.name, "url": st.url, "type": st.typ, "active": st.active, "timeout": st.timeout, "retry_count": st.retries}
}

func (r *MixRun) randomHook() *hookState {
	x := r.x.(*hookRun)
	x.n++
	return &hookState{to: -1, active: r.C.N("op", 4) != 1, typ: []string{"PRE_TRANSACTION", "POST_TRANSACTION"}[r.C.N("op", 2)], url: fmt.Sprintf("http://hooks.example/%d", x.n),
		retries: r.C.N("op", 4), timeout: 5 + r.C.N("op", 20), name: fmt.Sprintf("h%d", x.n)}
}

func (r *MixRun) setupHooks() {
	x := &hookRun{}
	r.x = x
	r.Setup(func(c *Client) {
		for i := 0; i < 3; i++ {
			st := r.randomHook()
			if i == 0 {
				st.active, st.typ = true, "POST_TRANSACTION"
			}
			q := c.Must("POST", "/hooks", st.body())
			st.sure, st.from = true, q.Returned
			x.all = append(x.all, &hookDef{id: q.S("id"), states: []*hookState{st}})
		}
	})
	x.seq = r.Eng.Seq()
	rate := []int{0, 60000, 400000}[r.C.N("cfg", 3)]
	r.Receiver = func(h *HTTPCall) (int, string) {
		if r.C.Chance("receiver", rate) {
			r.W.Used["receiver_error"]++
			switch r.C.N("receiver", 5) {
			case 0:
				return 500, ""
			case 1:
				return 503, "busy"
			case 2:
				return 200, `{"success":false,"message":"no"}`
			case 3:
				return 404, `{"success":false}`
			}
			return 200, `{"success":false}`
		}
		return []int{200, 202}[r.C.N("receiver", 2)], []string{`{"success":true,"message":"ok"}`, "", "thanks"}[r.C.W("receiver", 3, 1, 1)]
	}
}

// hookOp registers, changes or deletes a hook.
func hookOp(r *MixRun, c *Client) {
	x := r.x.(*hookRun)
	if x.creates < 3 && r.C.N("op", 5) == 1 {
		x.creates++
		st := r.randomHook()
		q := c.Do("POST", "/hooks", st.body())
		if q.OK() {
			st.sure, st.from = true, q.Returned
			x.all = append(x.all, &hookDef{id: q.S("id"), states: []*hookState{{to: q.Invoked, sure: true, gone: true}, st}})
		}
		return
	}
	h := x.all[r.C.N("op", len(x.all))]
	if h.busy {
		return
	}
	h.busy = true
	defer func() { h.busy = false }()
	cur := h.last()
	n := *cur
	n.to, n.sure = -1, false
	del := false
	switch r.C.W("op", 4, 3, 3, 2, 2) {
	case 0:
		n.active = !n.active
	case 1:
		n.typ = map[string]string{"PRE_TRANSACTION": "POST_TRANSACTION", "POST_TRANSACTION": "PRE_TRANSACTION"}[n.typ]
	case 2:
		m := r.randomHook()
		n.url, n.name, n.retries, n.timeout = m.url, m.name, m.retries, m.timeout
	case 3:
		del = true
		n = hookState{to: -1, gone: true, typ: n.typ}
	case 4:
		q := c.Do("GET", "/hooks/"+h.id, nil)
		if cur.sure && cur.to < 0 {
			r.judgeHook(h, cur, q)
		}
		return
	}
	if cur.gone {
		return
	}
	r.n++
	at := r.W.Now()
	h.begin(at)
	var q *Req
	if del {
		q = c.Do("DELETE", "/hooks/"+h.id, nil)
	} else {
		q = c.Do("PUT", "/hooks/"+h.id, n.body())
	}
	n.from = q.Returned
	n.sure = q.OK()
	if !n.sure && del {
		n.gone = false
		n.active, n.typ, n.url, n.name, n.retries, n.timeout = cur.active, cur.typ, cur.url, cur.name, cur.retries, cur.timeout
	}
	h.states = append(h.states, &n)
}

// judgeHook compares what the service says about a hook with its definition.
func (r *MixRun) judgeHook(h *hookDef, st *hookState, q *Req) {
	if q.Status == 0 || q.Status >= 500 || h.last() != st || st.to >= 0 {
		return
	}
	r.Count["hooks_read"]++
	if st.gone {
		if q.OK() {
			r.Violate("P27", "a deleted hook is back", "%s, though it was deleted (acknowledged at %v)", q, st.from)
		}
		return
	}
	if !q.OK() {
		if why := r.why(q); why == "" && r.W.FaultCount() == 0 {
			r.Violate("P27", "a registered hook is unknown", "%s", q)
		}
		return
	}
	for k, v := range st.body() {
		if g := fmt.Sprint(q.JSON[k]); g != fmt.Sprint(v) {
			r.Violate("P27", "an acknowledged change of a hook is undone in "+k, "%s; acknowledged at %v: %s=%v", q, st.from, k, v)
		}
	}
}

// checkHooks: each call was due, each due call was made.
func (r *MixRun) checkHooks() {
	s := r.Sim
	x := r.x.(*hookRun)
	byID := map[string]*hookDef{}
	for _, h := range x.all {
		byID[h.id] = h
	}
	reqs := map[string]*Req{}
	for _, q := range s.Hist {
		reqs[fmt.Sprintf("%s|%s#%d", q.Node, q.Client, q.N)] = q
	}
	calm := s.W.FaultCount() == 0
	// since tells when the work of an actor began at the earliest
	since := func(actor string, at time.Duration) time.Duration {
		switch q := reqs[actor]; {
		case q != nil:
			return q.Invoked
		case calm:
			return at - 10*time.Second
		}
		return at - 20*time.Minute
	}
	type key struct{ hook, id string }
	post := map[key][]*Event{}
	pre := map[key][]*Event{}
	tasks := map[string]*hookTask{} // by hook id and body of the call
	for _, e := range s.Ev.All {
		if e.Name != "hook" {
			continue
		}
		s.Count["hook_tasks"]++
		id, typ := str(e.Hook["id"]), str(e.Payload["hook_type"])
		h := byID[id]
		if h == nil { // its registration was not acknowledged
			continue
		}
		// the work that queued this call began no earlier than this
		begin := since(e.Actor, e.At)
		if !h.was(begin, e.At, func(st *hookState) bool { return !st.gone && st.active && st.typ == typ }) {
			r.Violate("P27", "called though deleted, inactive or of the other kind", "%s call of hook %s for %s queued at %v by %s, work begun after %v; definitions %s", typ, id, e.Str("reference"), e.At, e.Actor, begin, h)
		} else if !h.was(begin, e.At, func(st *hookState) bool {
			return st.url == str(e.Hook["url"]) && fmt.Sprint(e.Hook["retry_count"]) == fmt.Sprint(st.retries)
		}) {
			r.Violate("P27", "called by an outdated definition", "%s call of hook %s for %s queued at %v by %s: %v; definitions %s", typ, id, e.Str("reference"), e.At, e.Actor, e.Hook, h)
		}
		switch typ {
		case "POST_TRANSACTION":
			tid := e.Str("transaction_id")
			t := r.Led.Txns[tid]
			if t == nil || t.Seq > e.Seq {
				r.Violate("P27", "post hook for what was not committed", "hook %s was queued at commit %d for %v, which is not recorded", id, e.Seq, e.Data)
				continue
			}
			r.sameData(e, t)
			post[key{id, tid}] = append(post[key{id, tid}], e)
			if len(post[key{id, tid}]) > 1 {
				r.Violate("P27", "post hook queued twice", "hook %s for %s, by %s and %s", id, r.Led.describe([]*LTxn{t}), post[key{id, tid}][0].Actor, e.Actor)
			}
		case "PRE_TRANSACTION":
			pre[key{id, e.Str("reference")}] = append(pre[key{id, e.Str("reference")}], e)
		default:
			r.Violate("P27", "hook of no kind", "%v", e.Payload)
		}
		b, _ := json.Marshal(e.Payload)
		k := tasks[id+string(b)]
		if k == nil {
			k = &hookTask{e: e}
			tasks[id+string(b)] = k
		}
		k.n++
	}
	// what had to be called
	for _, t := range r.Led.All {
		if t.Seq <= x.seq || t.Effect == "" {
			continue
		}
		from := since(t.Actor, t.At)
		for _, h := range x.all {
			st := h.through(from, t.At)
			if st == nil || st.gone || !st.active {
				continue
			}
			late := h.through(from, t.At+5*time.Second)
			switch st.typ {
			case "PRE_TRANSACTION":
				ok := false
				for _, e := range pre[key{h.id, t.Ref}] {
					ok = ok || e.Seq < t.Seq
				}
				if !ok && !s.faultNear(from, t.At) {
					r.Violate("P27", "pre hook not called", "%s was recorded by %s, hook %s was not called before; definitions %s", r.Led.describe([]*LTxn{t}), t.Owner, h.id, h)
				}
				if ok {
					s.Count["pre_hooks_confirmed"]++
				}
			case "POST_TRANSACTION":
				ok := len(post[key{h.id, t.ID}]) > 0
				if !ok && late == st && !s.faultNear(t.At-time.Second, t.At+5*time.Second) {
					r.Violate("P27", "post hook not called", "%s was recorded by %s, hook %s was not called; definitions %s", r.Led.describe([]*LTxn{t}), t.Owner, h.id, h)
				}
				if ok {
					s.Count["post_hooks_confirmed"]++
				}
			}
		}
	}
	// the calls themselves
	for _, c := range s.HTTPCalls {
		if !strings.HasPrefix(c.URL, "http://hooks.example/") {
			continue
		}
		s.Count["hook_calls"]++
		if why := s.signed(c); why != "" {
			r.Violate("P27", "call not signed", "%s: %s", clip(string(c.Body), 200), why)
		}
		b, _ := json.Marshal(decode(c.Body))
		k := tasks[c.Header.Get("X-Hook-ID")+string(b)]
		if k == nil {
			if byID[c.Header.Get("X-Hook-ID")] != nil {
				r.Violate("P27", "call without task", "hook %s was called with %s, which was never queued so", c.Header.Get("X-Hook-ID"), clip(string(c.Body), 300))
			}
			continue
		}
		if c.URL != str(k.e.Hook["url"]) || c.Header.Get("X-Hook-Type") != str(k.e.Hook["type"]) {
			r.Violate("P27", "call at another address", "%s %s for %v", c.URL, c.Header.Get("X-Hook-Type"), k.e.Hook)
		}
		k.calls++
		if c.OK {
			k.good++
			if calm && k.good > k.n {
				r.Violate("P27", "called again after success", "hook %v for %s", k.e.Hook, k.e.Str("reference"))
			}
		}
	}
	for _, e := range s.Ev.All {
		if e.Name != "hook" || byID[str(e.Hook["id"])] == nil {
			continue
		}
		b, _ := json.Marshal(e.Payload)
		k := tasks[str(e.Hook["id"])+string(b)]
		if k.e != e {
			continue
		}
		n, _ := e.Hook["retry_count"].(json.Number).Int64()
		most := k.n * (int(n) + 1)
		what := fmt.Sprintf("hook %v for %s: %d tasks, %d calls, %d successful, at most %d", e.Hook, e.Str("reference"), k.n, k.calls, k.good, most)
		switch {
		case k.calls > most && (calm || k.calls > most+len(s.W.FaultLog)):
			r.Violate("P27", "called more often than its retries allow", "%s", what)
		case calm && k.calls < (k.n-k.good)*(int(n)+1)+k.good, k.calls == 0 && n > 0 && !s.faultNear(e.At, e.At+20*time.Minute):
			r.Violate("P27", "queued call not made", "%s", what)
		}
	}
	// the registry
	s.Setup(func(c *Client) {
		for _, h := range x.all {
			if st := h.last(); st.sure {
				r.judgeHook(h, st, c.Do("GET", "/hooks/"+h.id, nil))
			}
		}
		q := c.Do("GET", "/hooks", nil)
		var list []map[string]any
		if !q.OK() || json.Unmarshal([]byte(q.Resp), &list) != nil {
			s.Fail("GET /hooks: %s", q)
			return
		}
		in := map[string]map[string]any{}
		for _, l := range list {
			in[str(l["id"])] = l
		}
		for _, h := range x.all {
			st := h.last()
			if !st.sure {
				continue
			}
			if l := in[h.id]; (l == nil) != st.gone {
				r.Violate("P27", "the list of hooks differs from the registrations", "hook %s: definitions %s; listed: %v", h.id, h, l)
			}
		}
	})
}

type hookTask struct {
	e              *Event
	n, calls, good int
}

func (h *hookDef) String() string {
	out := ""
	for _, s := range h.states {
		out += fmt.Sprintf("[%v..%v sure=%v gone=%v active=%v %s %s r=%d]", s.from, s.to, s.sure, s.gone, s.active, s.typ, s.url, s.retries)
	}
	return out
}

func (r *MixRun) sameData(e *Event, t *LTxn) {
	if str(e.Payload["transaction_id"]) != t.ID {
		r.Violate("P27", "call names another transaction", "%v for %s", e.Payload["transaction_id"], t.ID)
	}
	for k, w := range map[string]string{"reference": t.Ref, "status": t.Status, "source": t.Src, "destination": t.Dst, "currency": t.Currency, "precise_amount": t.Amount.String(), "parent_transaction": t.Parent} {
		if g := e.Str(k); g != w {
			r.Violate("P27", "call differs from the record in "+k, "a hook is called with %s %q for %s", k, g, r.Led.describe([]*LTxn{t}))
		}
	}
}

// faultNear tells whether something was disturbed in the meantime.
func (s *Sim) faultNear(a, b time.Duration) bool {
	for _, f := range s.W.FaultLog {
		if f.End >= a-time.Minute && f.At <= b {
			return true
		}
	}
	return false
}
