package main

import (
	"fmt"
	"sort"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P24 metadata

var metaTables = map[string][2]string{"ledgers": {"ledger_id", "/ledgers/"}, "balances": {"balance_id", "/balances/"}, "identity": {"identity_id", "/identities/"}, "transactions": {"transaction_id", "/transactions/"}}

type metaUpdate struct {
	table, id string
	vals      map[string]string
	req       *Req
}

type metaRead struct {
	table, id string
	req       *Req
}

type metas struct {
	ents    [][2]string // table, id
	updates []*metaUpdate
	reads   []*metaRead
}

func (r *MixRun) setupMetas() {
	x := &metas{}
	r.x = x
	s := r.Sim
	s.Setup(func(c *Client) {
		x.ents = append(x.ents, [2]string{"ledgers", r.ledger}, [2]string{"balances", r.Accts[0]}, [2]string{"balances", r.Accts[1]})
		for i := 0; i < 2; i++ {
			body := identityBody()
			if i == 0 {
				body["meta_data"] = map[string]any{"first": "1"}
			}
			x.ents = append(x.ents, [2]string{"identity", c.Must("POST", "/identities", body).S("identity_id")})
		}
		l := c.Must("POST", "/ledgers", map[string]any{"name": "second", "meta_data": map[string]any{"first": "1"}})
		x.ents = append(x.ents, [2]string{"ledgers", l.S("ledger_id")})
		for i := 0; i < 2; i++ {
			b := map[string]any{"precise_amount": 5, "precision": minorUnits, "currency": "USD", "source": "@world", "destination": r.Accts[0], "reference": fmt.Sprintf("meta%d", i), "description": "d", "allow_overdraft": true, "skip_queue": true}
			if i == 0 {
				b["inflight"] = true
			}
			x.ents = append(x.ents, [2]string{"transactions", c.Must("POST", "/transactions", b).S("transaction_id")})
		}
	})
	s.onCommit = append(s.onCommit, func(owner string, ch []pgsim.Change) {
		for _, c := range ch {
			k, ok := metaTables[c.Table.Name()]
			if !ok || c.Old == nil || c.New == nil {
				continue
			}
			o, n := Row{c.Table, c.Old}.M("meta_data"), Row{c.Table, c.New}.M("meta_data")
			for key := range o {
				if _, in := n[key]; !in {
					s.Violate("P24", "a key disappeared from "+c.Table.Name(), "after commit #%d by %s metadata key %q of %s is gone", s.Eng.Seq(), owner, key, Row{c.Table, c.New}.S(k[0]))
				}
			}
		}
	})
}

func identityBody() map[string]any {
	return map[string]any{"identity_type": "individual", "first_name": "Ada", "last_name": "Bell", "category": "x", "email_address": "ada@b.example", "gender": "female",
		"nationality": "X", "street": "s", "country": "c", "state": "s", "post_code": "p", "city": "c", "phone_number": "+2348012345678", "dob": "1990-01-01T00:00:00Z"}
}

func metaOp(r *MixRun, c *Client) {
	x := r.x.(*metas)
	e := x.ents[r.C.N("op", len(x.ents))]
	r.n++
	if r.C.N("op", 4) == 1 {
		q := c.Do("GET", metaTables[e[0]][1]+e[1], nil)
		x.reads = append(x.reads, &metaRead{e[0], e[1], q})
		return
	}
	u := &metaUpdate{table: e[0], id: e[1], vals: map[string]string{}}
	m := map[string]any{}
	set := func(k, v string) { u.vals[k] = v; m[k] = v }
	set(fmt.Sprintf("own%d", r.n), fmt.Sprint("v", r.n))
	if r.C.N("op", 2) == 1 {
		set(fmt.Sprintf("also%d", r.n), fmt.Sprint("v", r.n))
	}
	if r.C.N("op", 2) == 1 {
		set(fmt.Sprintf("shared%d", r.C.N("op", 2)), fmt.Sprint("v", r.n))
	}
	u.req = c.Do("POST", "/"+e[1]+"/metadata", map[string]any{"meta_data": m})
	x.updates = append(x.updates, u)
	if u.req.OK() && r.C.N("op", 3) == 1 {
		q := c.Do("GET", metaTables[e[0]][1]+e[1], nil)
		x.reads = append(x.reads, &metaRead{e[0], e[1], q})
	}
}

func (r *MixRun) checkMetas() {
	x := r.x.(*metas)
	sort.SliceStable(x.updates, func(i, j int) bool { return x.updates[i].req.N < x.updates[j].req.N })
	// judge says what is wrong with the metadata m of an entity, seen between two commits
	judge := func(where, table, id string, m map[string]any, inv, ret int64, what any) {
		for _, u := range x.updates {
			if u.table != table || u.id != id {
				continue
			}
			in, out := 0, 0
			for k, v := range u.vals {
				if k[0] == 's' {
					continue
				}
				if str(m[k]) == v {
					in++
				} else {
					out++
				}
			}
			if in > 0 && out > 0 {
				r.Violate("P24", "an update is applied in part"+where, "%v: of %s only %d keys are there: %v", what, u.req, in, m)
			}
			if u.req.OK() && u.req.RetSeq <= inv && out > 0 && u.req.Returned <= r.W.Now() {
				r.Violate("P24", "an acknowledged update of "+table+" is lost"+where, "%v: %s is missing in %v", what, u.req, m)
			}
		}
		for _, k := range []string{"shared0", "shared1"} {
			v := str(m[k])
			var by *metaUpdate
			acked := false
			for _, u := range x.updates {
				if u.table == table && u.id == id && u.vals[k] != "" {
					if u.vals[k] == v {
						by = u
					}
					acked = acked || u.req.OK() && u.req.RetSeq <= inv
				}
			}
			if by == nil {
				if v != "" || acked {
					r.Violate("P24", "value of nobody"+where, "%v: key %s of %s is %q", what, k, id, v)
				}
				continue
			}
			for _, u := range x.updates {
				if u.table == table && u.id == id && u.vals[k] != "" && u.req.OK() && by.req.Status != 0 && u.req.RetSeq <= inv && u.req.Invoked > by.req.Returned {
					r.Violate("P24", "an older value came back"+where, "%v: key %s of %s is %q by %s, though later there was %s", what, k, id, v, by.req, u.req)
				}
			}
		}
	}
	for _, e := range x.ents {
		row, ok := r.One(e[0], metaTables[e[0]][0], e[1])
		if !ok {
			continue
		}
		r.Count["metas_checked"]++
		judge("", e[0], e[1], row.M("meta_data"), r.Eng.Seq(), r.Eng.Seq(), "at the end")
	}
	for _, q := range x.reads {
		if q.req.Status != 200 {
			continue
		}
		m, _ := q.req.JSON["meta_data"].(map[string]any)
		judge(" in a read", q.table, q.id, m, q.req.InvSeq, q.req.RetSeq, q.req)
	}
}
