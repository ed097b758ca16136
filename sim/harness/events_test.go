package main

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strconv"
	"strings"
	"time"
)

// Events follows the webhooks and hook calls the service queues in Redis.
type Events struct {
	s    *Sim
	seen map[string]bool
	All  []*Event
}

// Event is one queued webhook or hook call.
type Event struct {
	Name    string // event of a webhook, "hook" for a hook call
	Data    map[string]any
	Hook    map[string]any
	Payload map[string]any // of a hook call
	At      time.Duration
	Seq     int64 // database commits before it
	Actor   string
	Task    string
}

func (e *Event) Str(k string) string { return str(e.Data[k]) }

func str(v any) string {
	switch x := v.(type) {
	case string:
		return x
	case json.Number:
		return x.String()
	}
	return ""
}

func watchEvents(s *Sim) *Events {
	e := &Events{s: s, seen: map[string]bool{}}
	s.watchRedis(`{"event":`, e.ran)
	s.watchRedis(`{"hook":`, e.ran)
	return e
}

func decode(b []byte) map[string]any {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var m map[string]any
	_ = d.Decode(&m)
	return m
}

func (e *Events) ran(actor string, cmds [][]string) {
	s := e.s
	db := s.W.Mini.DB(0)
	for _, c := range cmds {
		// asynq's enqueue script: the task's key and the list of waiting tasks
		if len(c) < 6 || !strings.HasPrefix(strings.ToLower(c[0]), "eval") || c[2] != "2" || !strings.HasSuffix(c[4], ":pending") || e.seen[c[3]] || !db.Exists(c[3]) {
			continue
		}
		msg := c[5]
		i := strings.Index(msg, `{"event":`)
		j := strings.Index(msg, `{"hook":`)
		ev := &Event{At: s.W.Now(), Seq: s.Eng.Seq(), Actor: actor, Task: c[3]}
		switch {
		case i >= 0 && (j < 0 || i < j):
			m := decode([]byte(msg[i:]))
			ev.Name = str(m["event"])
			ev.Data, _ = m["data"].(map[string]any)
		case j >= 0:
			m := decode([]byte(msg[j:]))
			ev.Name = "hook"
			ev.Hook, _ = m["hook"].(map[string]any)
			ev.Payload, _ = m["payload"].(map[string]any)
			ev.Data, _ = ev.Payload["data"].(map[string]any)
		default:
			continue
		}
		e.seen[c[3]] = true
		s.Count["events_queued"]++
		s.W.Logf("  event %s %s by %s", ev.Name, ev.Str("transaction_id"), actor)
		e.All = append(e.All, ev)
	}
}

// signed checks the signature of an outgoing call.
func (s *Sim) signed(h *HTTPCall) string {
	ts := h.Header.Get("X-Blnk-Timestamp")
	n, err := strconv.ParseInt(ts, 10, 64)
	if err != nil {
		return "no timestamp"
	}
	m := hmac.New(sha256.New, []byte(s.Cfg.Server.SecretKey))
	m.Write([]byte(ts + "." + string(h.Body)))
	if h.Header.Get("X-Blnk-Signature") != hex.EncodeToString(m.Sum(nil)) {
		return "the signature does not verify"
	}
	at := s.W.Epoch.Add(h.At).Unix()
	if n > at+1 || n < at-120 {
		return fmt.Sprintf("timestamp %d, sent at %d", n, at)
	}
	return ""
}

// ---------------------------------------------------------------- P18 webhooks

const hookURL = "http://receiver.example/webhook"

var eventOf = map[string]string{"APPLIED": "transaction.applied", "INFLIGHT": "transaction.inflight", "VOID": "transaction.void", "REJECTED": "transaction.rejected"}

// flaky is a receiver that fails now and then until the faults stop.
func (r *MixRun) flaky() {
	s := r.Sim
	rate := []int{0, 60000, 400000}[s.C.N("cfg", 3)]
	s.Receiver = func(h *HTTPCall) (int, string) {
		if s.W.FaultsOn && s.C.Chance("receiver", rate) {
			s.W.Used["receiver_error"]++
			return []int{500, 503, 404, 0, 302}[s.C.N("receiver", 5)], `{"success":false,"message":"no"}`
		}
		return 200, `{"success":true}`
	}
}

// checkWebhooks: what was delivered was committed, what was committed was delivered.
func (r *MixRun) checkWebhooks() {
	s := r.Sim
	type key struct{ ev, id string }
	got := map[key]bool{}
	queued := map[key]bool{}
	for _, e := range s.Ev.All {
		for _, k := range []string{"transaction_id", "balance_id", "ledger_id", "identity_id", "batch_id"} {
			if v := e.Str(k); v != "" {
				queued[key{e.Name, v}] = true
				break
			}
		}
	}
	for _, h := range s.HTTPCalls {
		if h.URL != hookURL {
			continue
		}
		s.Count["webhooks"]++
		if why := s.signed(h); why != "" {
			r.Violate("P18", "not signed", "webhook %s: %s", clip(string(h.Body), 200), why)
		}
		m := decode(h.Body)
		ev := str(m["event"])
		d, _ := m["data"].(map[string]any)
		ok := h.Status >= 200 && h.Status < 300
		switch {
		case strings.HasPrefix(ev, "transaction."):
			id := str(d["transaction_id"])
			t := r.Led.Txns[id]
			if t == nil || t.Seq > h.Seq {
				r.Violate("P18", "webhook for what was not committed", "%s was sent before transaction %s was committed", clip(string(h.Body), 300), id)
				continue
			}
			if eventOf[t.Status] != ev && !(t.Status == "QUEUED" && ev == "transaction.queued") && !(t.Status == "SCHEDULED" && ev == "transaction.scheduled") {
				r.Violate("P18", "webhook names another event", "%s is sent for %s", ev, r.Led.describe([]*LTxn{t}))
			}
			for k, w := range map[string]string{"reference": t.Ref, "status": t.Status, "source": t.Src, "destination": t.Dst, "currency": t.Currency, "precise_amount": t.Amount.String(), "parent_transaction": t.Parent} {
				if g := str(d[k]); g != w {
					r.Violate("P18", "webhook differs from the record in "+k, "%s is sent with %s %q for %s", ev, k, g, r.Led.describe([]*LTxn{t}))
				}
			}
			if ok {
				got[key{ev, id}] = true
			}
		case ev == "balance.created":
			id := str(d["balance_id"])
			if _, in := s.One("balances", "balance_id", id); !in {
				r.Violate("P18", "webhook for what was not committed", "balance.created is sent for %s, which is not stored", id)
			}
			if ok {
				got[key{ev, id}] = true
			}
		case ev == "ledger.created", ev == "identity.created":
			if ok {
				got[key{ev, str(d[strings.TrimSuffix(ev, ".created")+"_id"])}] = true
			}
		case strings.HasPrefix(ev, "bulk_transaction."):
			if ok {
				got[key{"bulk", str(d["batch_id"])}] = true
			}
			r.checkBulkEvent(ev, d)
		}
	}
	miss := func(ev, id string, seq int64, at time.Duration, owner, f string, a ...any) {
		if got[key{ev, id}] {
			s.Count["webhooks_confirmed"]++
			return
		}
		k := "a committed event was never queued"
		if queued[key{ev, id}] {
			k = "a queued event was never delivered"
		}
		why := ""
		for _, x := range s.W.FaultLog {
			switch {
			case x.End+time.Minute < at || x.At > at+2*time.Minute:
			case x.Kind == "node_crash" && x.Node == owner:
				why = "node crash"
			case why == "" && x.Kind != "node_crash" && (x.Node == "" || x.Node == owner):
				why = "infrastructure fault"
			}
		}
		r.Violate("P18", with(k, why), ev+" of "+f+" never reached the receiver", a...)
	}
	for _, t := range r.Led.All {
		if ev := eventOf[t.Status]; ev != "" && t.At >= r.from {
			own, _, _ := strings.Cut(t.Owner, ".")
			miss(ev, t.ID, t.Seq, t.At, own, "%s", r.Led.describe([]*LTxn{t}))
		}
	}
	for _, x := range r.made {
		miss(x.ev, x.id, 0, x.at, x.node, "%s", x.id)
	}
	for _, b := range r.Bulks {
		if b.Async && b.Req.OK() && b.ID != "" && !got[key{"bulk", b.ID}] && s.W.FaultCount() == 0 {
			r.Violate("P18", "the result of a bulk was never delivered", "no bulk_transaction event of %s", b.Req)
		}
	}
}

type madeThing struct {
	ev, id, node string
	at           time.Duration
}

// checkBulkEvent: the result of an asynchronous bulk is what was recorded.
func (r *MixRun) checkBulkEvent(ev string, d map[string]any) {
	id := str(d["batch_id"])
	for _, b := range r.Bulks {
		if b.ID != id || id == "" {
			continue
		}
		if ev == "bulk_transaction.failed" {
			return
		}
		for _, p := range b.Posts {
			if !r.recorded(p.Ref) && b.Queued && r.whyAround(b.Req) != "" {
				r.Count["queued_member_lost"]++ // known finding of P09: it was never recorded as queued
			} else if !r.recorded(p.Ref) {
				r.Violate("P18", "bulk reported done but not recorded", "%s for %s, member %s is not recorded", ev, b.Req, p.Ref)
			}
		}
		return
	}
}

// createOp creates ledgers, balances and identities, each of which has its own event.
func createOp(r *MixRun, c *Client) {
	var q *Req
	ev, k := "balance.created", "balance_id"
	switch r.C.N("op", 4) {
	case 0:
		q = c.Do("POST", "/ledgers", map[string]any{"name": fmt.Sprintf("l%d", r.C.N("op", 1000000))})
		ev, k = "ledger.created", "ledger_id"
	case 1:
		q = c.Do("POST", "/identities", identityBody())
		ev, k = "identity.created", "identity_id"
	default:
		q = c.Do("POST", "/balances", map[string]any{"ledger_id": r.ledger, "currency": []string{"USD", "EUR"}[r.C.N("op", 2)]})
	}
	if q.OK() {
		r.made = append(r.made, madeThing{ev, q.S(k), q.Node, q.Returned})
	}
}
