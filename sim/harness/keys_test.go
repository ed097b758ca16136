package main

import (
	"encoding/json"
	"fmt"
	"slices"
	"strings"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// ---------------------------------------------------------------- P23 API keys

// keyCacheLife is how long a node may go on using what it knows of a key: five minutes in
// Redis, and one more in a node's own cache.
const keyCacheLife = 6 * time.Minute

type apiKey struct {
	id, key, owner string
	scopes         []string
	expires        time.Time
	made           time.Duration
	uses           []*Req
	revBegin       time.Duration // first revocation sent; < 0: none
	revEnd         time.Duration // a revocation was acknowledged; < 0: none
	revNode        string
	revFrom, revTo int // ticks of the same
	revReq         []*Req
}

type keyUse struct {
	q        *Req
	k        *apiKey
	res, act string // resource and action; "" unknown
	needs    string // more than the scope: "" nothing
}

type keyRun struct {
	keys     []*apiKey
	byID     map[string]*apiKey
	asks     map[string]*keyUse // by client#request
	uses     []*keyUse
	wrote    map[string]string // what a request has written, by client#request
	creates  map[string]*keyAsk
	bal, idy string
	n        int
}

type keyAsk struct {
	by     *apiKey // nil: the master key
	owner  string
	scopes []string
	exp    time.Time
}

var (
	keyResources = []string{"ledgers", "balances", "accounts", "identities", "transactions", "balance-monitors", "hooks", "api-keys", "search", "reconciliation", "metadata"}
	keyOwners    = []string{"ann", "bob"}
)

func (r *MixRun) randomScopes() []string {
	l := []string{}
	for i, n := 0, 1+r.C.N("op", 4); i < n; i++ {
		act := []string{"read", "write", "delete", "*"}[r.C.W("op", 4, 4, 2, 1)]
		switch r.C.W("op", 12, 3, 1) {
		case 0:
			l = append(l, keyResources[r.C.N("op", len(keyResources))]+":"+act)
		case 1:
			l = append(l, "*:"+act)
		case 2:
			l = append(l, []string{"ledgers", "ledgers:", ":read", "", "balances:read:write", "transactions:*:read", "balance:*", "all"}[r.C.N("op", 8)])
		}
	}
	if r.C.N("op", 3) == 0 {
		l = append(l, []string{"api-keys:write", "api-keys:delete", "api-keys:*"}[r.C.N("op", 3)])
	}
	return l
}

func (r *MixRun) keyAsk(by *apiKey) *keyAsk {
	a := &keyAsk{by: by, owner: keyOwners[r.C.N("op", 2)], scopes: r.randomScopes()}
	d := []time.Duration{20 * time.Second, time.Minute, 4 * time.Minute, 12 * time.Minute, 24 * time.Hour, -time.Minute}[r.C.W("op", 2, 2, 2, 2, 16, 1)]
	loc := []*time.Location{time.UTC, time.FixedZone("", 2*3600), time.FixedZone("", -5*3600)}[r.C.N("op", 3)]
	a.exp = time.Now().Add(d).In(loc).Truncate(time.Millisecond)
	if by != nil && r.C.N("op", 3) > 0 {
		a.owner = by.owner
		a.scopes = nil
		for _, s := range by.scopes {
			if r.C.N("op", 2) == 0 {
				a.scopes = append(a.scopes, s)
			}
		}
		if len(a.scopes) == 0 {
			a.scopes = []string{by.scopes[0]}
		}
		if r.C.N("op", 4) == 0 {
			a.scopes = append(a.scopes, r.randomScopes()...)
		}
	}
	return a
}

// covers tells whether one of the scopes allows the action on the resource.
func covers(scopes []string, res, act string) bool {
	for _, s := range scopes {
		p := strings.Split(s, ":")
		if len(p) == 2 && res != "" && act != "" && (p[0] == "*" || p[0] == res) && (p[1] == "*" || p[1] == act) {
			return true
		}
	}
	return false
}

// grants tells whether the holder of the scopes may grant all of the others.
func grants(scopes, others []string) bool {
	for _, o := range others {
		p := strings.Split(o, ":")
		if len(p) != 2 || p[0] == "" || p[1] == "" {
			return false
		}
		ok := false
		for _, s := range scopes {
			q := strings.Split(s, ":")
			ok = ok || len(q) == 2 && q[0] != "" && q[1] != "" && (q[0] == "*" || q[0] == p[0]) && (q[1] == "*" || q[1] == p[1])
		}
		if !ok {
			return false
		}
	}
	return true
}

func (r *MixRun) setupKeys() {
	x := &keyRun{byID: map[string]*apiKey{}, asks: map[string]*keyUse{}, wrote: map[string]string{}, creates: map[string]*keyAsk{}}
	r.x = x
	r.onCommit = append(r.onCommit, x.watch(r))
	r.Setup(func(c *Client) {
		x.bal = r.Accts[0]
		for i := 0; i < 5; i++ {
			a := r.keyAsk(nil)
			if i < 2 {
				a.exp = time.Now().Add(48 * time.Hour)
			}
			if i == 0 {
				a.scopes = append(a.scopes, "*:*")
			}
			x.create(r, c, a)
		}
	})
}

func (x *keyRun) create(r *MixRun, c *Client, a *keyAsk) {
	if a.by != nil {
		c.Key = a.by.key
		defer func() { c.Key = "" }()
	}
	x.n++
	me := fmt.Sprintf("%s#%d", c.name, r.reqN+1)
	x.creates[me] = a
	var u *keyUse
	if a.by != nil {
		u = &keyUse{k: a.by, res: "api-keys", act: "write"}
		if a.owner != a.by.owner || !grants(a.by.scopes, a.scopes) {
			u.needs = "other rights"
		}
		x.uses = append(x.uses, u)
		x.asks[me] = u
	}
	q := x.send(r, c, u, "POST", "/api-keys", map[string]any{"name": fmt.Sprintf("k%d", x.n), "owner": a.owner, "scopes": a.scopes, "expires_at": a.exp.Format(time.RFC3339Nano)})
	if q.Status == 201 {
		k := &apiKey{id: q.S("api_key_id"), key: q.S("key"), owner: q.S("owner_id"), scopes: a.scopes, expires: a.exp, made: q.Returned, revBegin: -1, revEnd: -1}
		if len(k.key) < 30 || k.owner != a.owner {
			r.Violate("P23", "a key is not as asked for", "%s", q)
		}
		x.keys = append(x.keys, k)
		x.byID[k.id] = k
		r.Count["keys"]++
		row, ok := r.One("api_keys", "api_key_id", k.id)
		if !ok {
			r.Violate("P23", "an acknowledged key is not recorded", "%s", q)
		} else if strings.Contains(row.S("key"), k.key) {
			r.Violate("P23", "a key is stored in the clear", "%s", q)
		}
	}
}

// send sends a request that is judged by the key it carries.
func (x *keyRun) send(r *MixRun, c *Client, u *keyUse, method, path string, body any) *Req {
	if u == nil {
		return c.Do(method, path, body)
	}
	q := c.Do(method, path, body)
	u.q = q
	if u.k != nil {
		u.k.uses = append(u.k.uses, q)
	}
	r.Count[fmt.Sprintf("key_answers_%d", q.Status)]++
	return q
}

func (x *keyRun) watch(r *MixRun) func(string, []pgsim.Change) {
	return func(owner string, ch []pgsim.Change) {
		_, me, _ := strings.Cut(r.W.DBActor, "|")
		var tables []string
		for _, c := range ch {
			tables = append(tables, c.Table.Name())
			if c.Table.Name() != "api_keys" {
				continue
			}
			if c.New == nil {
				r.Violate("P23", "a key was removed", "commit #%d by %s", r.Eng.Seq(), owner)
				continue
			}
			n := Row{c.Table, c.New}
			if c.Old == nil {
				a := x.creates[me]
				if a == nil {
					r.Violate("P23", "a key nobody asked for", "commit #%d by %s", r.Eng.Seq(), owner)
					continue
				}
				if n.S("owner_id") != a.owner || pgArray(n.S("scopes")) != strings.Join(a.scopes, ",") || !near(n.T("expires_at"), a.exp) || n.S("is_revoked") == "true" {
					r.Violate("P23", "a key is not as asked for", "%s %s %s for %+v", n.S("owner_id"), n.S("scopes"), n.S("expires_at"), *a)
				}
				if a.by != nil && (a.by.owner != a.owner || !grants(a.by.scopes, a.scopes)) {
					r.Violate("P23", "a key with more rights than its maker's", "owner %s, scopes %v made with a key of %s with %v", a.owner, a.scopes, a.by.owner, a.by.scopes)
				}
				continue
			}
			o := Row{c.Table, c.Old}
			if b := o.S("is_revoked"); b != n.S("is_revoked") {
				k := x.byID[n.S("api_key_id")]
				switch {
				case b == "true" || b == "t":
					r.Violate("P23", "a revocation was undone", "commit #%d by %s", r.Eng.Seq(), owner)
				case k != nil && k.revBegin < 0:
					r.Violate("P23", "a key was revoked unasked", "commit #%d by %s: %s", r.Eng.Seq(), owner, k.id)
				}
			}
			for _, col := range []string{"key", "owner_id", "scopes", "expires_at", "key_prefix", "created_at"} {
				if o.S(col) != n.S(col) {
					r.Violate("P23", "a key was changed", "commit #%d by %s: %s", r.Eng.Seq(), owner, col)
				}
			}
		}
		if x.asks[me] != nil {
			x.wrote[me] = strings.Join(tables, " ")
		}
	}
}

func near(a, b time.Time) bool { d := a.Sub(b); return d < time.Millisecond && d > -time.Millisecond }

func pgArray(s string) string {
	return strings.ReplaceAll(strings.Trim(s, "{}"), "\"", "")
}

// keyOp does something with a key or to one.
func keyOp(r *MixRun, c *Client) {
	x := r.x.(*keyRun)
	defer func() { c.Key = "" }()
	var k *apiKey
	if len(x.keys) > 0 {
		k = x.keys[r.C.N("op", len(x.keys))]
	}
	switch r.C.W("op", 18, 3, 3, 4, 2, 1) {
	case 0:
		x.use(r, c, k)
	case 1:
		x.forge(r, c, k)
	case 2:
		if r.C.N("op", 2) == 0 {
			k = nil
		}
		x.create(r, c, r.keyAsk(k))
	case 3:
		x.revoke(r, c, k)
	case 4:
		x.list(r, c, k)
	case 5:
		r.Count["key_waits"]++
		time.Sleep([]time.Duration{30 * time.Second, 2 * time.Minute, 5 * time.Minute, 7 * time.Minute}[r.C.N("op", 4)])
	}
}

type keyRoute struct {
	method, path, res, act string
	body                   any
	marked                 string // table of the record the request makes
	precise                string // the amount it has to record
}

func (x *keyRun) route(r *MixRun) keyRoute {
	x.n++
	n := x.n
	spoof := map[string]any{"note": n, "BLNK_GENERATED_BY": "someone"}
	big := []string{"1", "9007199254740993", "123456789012345678901234567", "1000000000000000000001"}[r.C.N("op", 4)]
	l := []keyRoute{
		{"GET", "/ledgers", "ledgers", "read", nil, "", ""},
		{"POST", "/ledgers", "ledgers", "write", map[string]any{"name": fmt.Sprintf("l%d", n), "meta_data": spoof}, "ledgers", ""},
		{"GET", "/balances/" + x.bal, "balances", "read", nil, "", ""},
		{"POST", "/balances", "balances", "write", map[string]any{"ledger_id": r.ledger, "currency": "USD", "meta_data": map[string]any{"a": n}}, "balances", ""},
		{"GET", "/balances/" + x.bal + "/at?timestamp=" + time.Now().UTC().Format(time.RFC3339), "balances", "read", nil, "", ""},
		{"POST", "/transactions", "transactions", "write", map[string]any{"amount": 1, "precision": 100, "currency": "USD", "reference": fmt.Sprintf("keyed%d", n), "description": "k", "source": r.Accts[0], "destination": r.Accts[1], "skip_queue": true, "allow_overdraft": true, "meta_data": spoof}, "transactions", ""},
		{"POST", "/refund-transaction/txn_none", "transactions", "write", map[string]any{}, "", ""},
		{"PUT", "/transactions/inflight/txn_none", "transactions", "write", map[string]any{"status": "void"}, "", ""},
		{"GET", "/transactions", "transactions", "read", nil, "", ""},
		{"GET", "/balance-monitors", "balance-monitors", "read", nil, "", ""},
		{"DELETE", "/balance-monitors/mon_none", "balance-monitors", "delete", nil, "", ""},
		{"POST", "/identities", "identities", "write", identityOf(n), "identity", ""},
		{"GET", "/identities", "identities", "read", nil, "", ""},
		{"DELETE", "/identities/idt_none", "identities", "delete", nil, "", ""},
		{"GET", "/accounts", "accounts", "read", nil, "", ""},
		{"GET", "/mocked-account", "accounts", "read", nil, "", ""},
		{"POST", "/reconciliation/matching-rules", "reconciliation", "write", map[string]any{"name": "n", "description": "d", "criteria": []any{map[string]any{"field": "amount", "operator": "equals"}}}, "", ""},
		{"DELETE", "/reconciliation/matching-rules/rule_none", "reconciliation", "delete", nil, "", ""},
		{"GET", "/api-keys", "api-keys", "read", nil, "", ""},
		{"GET", "/hooks", "hooks", "read", nil, "", ""},
		{"POST", "/balances-snapshots", "", "write", map[string]any{}, "", ""},
		{"POST", "/" + x.bal + "/metadata", "metadata", "write", map[string]any{"meta_data": map[string]any{"k": n}}, "", ""},
		{"POST", "/transactions", "transactions", "write", map[string]any{"precise_amount": json.Number(big), "precision": 1, "currency": "USD", "reference": fmt.Sprintf("keyed%d", n), "description": "k", "source": r.Accts[0], "destination": r.Accts[1], "skip_queue": true, "allow_overdraft": true}, "transactions", ""},
	}
	l[len(l)-1].precise = big
	return l[r.C.N("op", len(l))]
}

func identityOf(n int) map[string]any {
	b := identityBody()
	b["meta_data"] = map[string]any{"b": n}
	return b
}

func (x *keyRun) use(r *MixRun, c *Client, k *apiKey) {
	if k == nil {
		return
	}
	ro := x.route(r)
	// often one the key has a scope for
	for i := 0; i < 12 && r.C.N("op", 3) > 0 && !covers(k.scopes, ro.res, ro.act); i++ {
		ro = x.route(r)
	}
	u := &keyUse{k: k, res: ro.res, act: ro.act}
	if ro.res == "hooks" || ro.res == "metadata" || ro.res == "" {
		u.needs = "the master key"
	}
	c.Key = k.key
	x.uses = append(x.uses, u)
	x.asks[fmt.Sprintf("%s#%d", c.name, r.reqN+1)] = u
	q := x.send(r, c, u, ro.method, ro.path, ro.body)
	x.judge(r, u)
	if ro.marked != "" && q.Status == 201 {
		m, _ := q.JSON["meta_data"].(map[string]any)
		if m["BLNK_GENERATED_BY"] != k.id {
			r.Violate("P23", "a record does not name the key that made it", "%s: made with key %s", q, k.id)
		}
	}
	if ro.precise != "" && q.Status == 400 {
		r.Violate("P23", "an accepted key changed its request", "%s", q)
	}
	if ro.precise != "" && q.Status == 201 {
		if t, ok := r.One("transactions", "transaction_id", q.S("transaction_id")); !ok || t.S("precise_amount") != ro.precise {
			r.Violate("P23", "an accepted key changed its request", "%s: recorded %s for %s", q, t.S("precise_amount"), ro.precise)
		}
	}
}

// forge sends a key that does not exist.
func (x *keyRun) forge(r *MixRun, c *Client, k *apiKey) {
	key := []string{"none", "x", "sim-master-ke", "sim-master-key ", "SIM-MASTER-KEY", ""}[r.C.N("op", 6)]
	if k != nil && r.C.N("op", 3) > 0 {
		switch r.C.N("op", 4) {
		case 0:
			key = k.key[:16] + strings.Repeat("A", len(k.key)-16)
		case 1:
			key = k.key[:16]
		case 2:
			key = k.key[:len(k.key)-3] + "AA="
			if key == k.key {
				return
			}
		case 3:
			if row, ok := r.One("api_keys", "api_key_id", k.id); ok {
				key = row.S("key") // what is stored
			}
		}
	}
	if key == "" || strings.HasSuffix(key, " ") {
		key = "none"
	}
	ro := x.route(r)
	u := &keyUse{res: ro.res, act: ro.act}
	c.Key = key
	x.uses = append(x.uses, u)
	x.asks[fmt.Sprintf("%s#%d", c.name, r.reqN+1)] = u
	x.send(r, c, u, ro.method, ro.path, ro.body)
	x.judge(r, u)
}

func (x *keyRun) revoke(r *MixRun, c *Client, k *apiKey) {
	if k == nil || len(x.keys) < 3 {
		return
	}
	if k == x.keys[0] && r.C.N("op", 4) > 0 {
		return
	}
	if l := r.upNodes("a"); len(l) > 0 && r.C.N("op", 3) > 0 {
		// one node knows the key, is told to revoke it and is asked again
		was := c.Pin
		c.Pin, _, _ = strings.Cut(l[r.C.N("op", len(l))].ID, "/")
		defer func() { c.Pin = was }()
		x.use(r, c, k)
		c.Key = ""
	}
	var by *apiKey
	owner := k.owner
	if r.C.N("op", 3) == 0 {
		by = x.keys[r.C.N("op", len(x.keys))]
		for i := 0; i < 6 && !covers(by.scopes, "api-keys", "delete"); i++ {
			by = x.keys[r.C.N("op", len(x.keys))]
		}
	}
	if r.C.N("op", 8) == 0 {
		owner = keyOwners[r.C.N("op", 2)]
	}
	wrong := owner != k.owner || by != nil && by.owner != k.owner
	var u *keyUse
	if by != nil {
		u = &keyUse{k: by, res: "api-keys", act: "delete", needs: "the owner's"}
		c.Key = by.key
		x.uses = append(x.uses, u)
		x.asks[fmt.Sprintf("%s#%d", c.name, r.reqN+1)] = u
	}
	path := "/api-keys/" + k.id + "?owner=" + owner
	if !wrong && (by == nil || covers(by.scopes, "api-keys", "delete")) && k.revBegin < 0 {
		k.revBegin, k.revFrom = r.W.Now(), r.tick
	}
	q := x.send(r, c, u, "DELETE", path, nil)
	if wrong {
		if q.OK() {
			r.Violate("P23", "a key of another owner was revoked", "%s: the owner is %s", q, k.owner)
		}
		return
	}
	k.revReq = append(k.revReq, q)
	if u != nil {
		x.judge(r, u)
	}
	if q.OK() {
		r.Count["revocations"]++
		if row, ok := r.One("api_keys", "api_key_id", k.id); !ok || row.S("is_revoked") != "true" && row.S("is_revoked") != "t" {
			r.Violate("P23", "an acknowledged revocation is not recorded", "%s", q)
		}
		if k.revEnd < 0 {
			k.revEnd, k.revTo, k.revNode = q.Returned, q.RetTick, q.Node
		}
		if r.C.N("op", 3) > 0 {
			c.Key = ""
			x.use(r, c, k)
		}
	}
}

func (x *keyRun) list(r *MixRun, c *Client, k *apiKey) {
	owner := keyOwners[r.C.N("op", 2)]
	var u *keyUse
	if k != nil && r.C.N("op", 2) == 0 {
		c.Key = k.key
		u = &keyUse{k: k, res: "api-keys", act: "read"}
		if owner != k.owner {
			u.needs = "the owner's"
		}
		x.uses = append(x.uses, u)
		x.asks[fmt.Sprintf("%s#%d", c.name, r.reqN+1)] = u
	}
	q := x.send(r, c, u, "GET", "/api-keys?owner="+owner, nil)
	if u != nil {
		x.judge(r, u)
	}
	if !q.OK() {
		return
	}
	var l []struct {
		ID    string `json:"api_key_id"`
		Owner string `json:"owner_id"`
		Key   string `json:"key"`
	}
	if json.Unmarshal([]byte(q.Resp), &l) != nil {
		return
	}
	var ids []string
	for _, e := range l {
		ids = append(ids, e.ID)
		if e.Owner != owner || u != nil && e.Owner != u.k.owner {
			r.Violate("P23", "a key of another owner is listed", "%s", q)
		}
		if o := x.byID[e.ID]; o != nil && e.Key == o.key {
			r.Violate("P23", "a key is listed in the clear", "%s", q)
		}
	}
	for _, o := range x.keys {
		if o.owner == owner && o.made < q.Invoked && !slices.Contains(ids, o.id) {
			r.Violate("P23", "a key is not listed", "%s: no %s", q, o.id)
		}
	}
}

// judge compares the answer with what the key allows.
func (x *keyRun) judge(r *MixRun, u *keyUse) {
	q, k := u.q, u.k
	if q.Status == 0 {
		return
	}
	r.Count["keys_judged"]++
	refused := q.Status == 401 || q.Status == 403
	served := func(key, f string, a ...any) {
		if !refused {
			r.Violate("P23", key, "%s at %v on %s: %s", q, q.Invoked, q.Node, fmt.Sprintf(f, a...))
		}
	}
	if k == nil {
		served("a key that does not exist is served", "")
		return
	}
	begin, end := r.W.Epoch.Add(q.Invoked), r.W.Epoch.Add(q.Returned)
	if !begin.Before(k.expires) {
		served("an expired key is served", "it expired at %v", k.expires)
	}
	if !covers(k.scopes, u.res, u.act) && !(u.res == "" && covers(k.scopes, "metadata", u.act)) {
		if !(u.res == "" && covers(k.scopes, "balances", u.act)) {
			served("an under-scoped key is served", "scopes %q, needs %s:%s", k.scopes, u.res, u.act)
		}
	}
	if u.needs == "other rights" {
		served("rights are handed on that the key lacks", "scopes %q of %s", k.scopes, k.owner)
	}
	if k.revEnd >= 0 && k.revTo < q.InvTick {
		// requests that were under way while it was revoked may have put it into the cache again
		last, node := k.revEnd, true
		for _, o := range k.uses {
			if o == q || o.InvTick > k.revTo {
				continue
			}
			switch {
			case o.Status == 0:
				last, node = max(last, o.Returned+10*time.Minute), false
			case o.RetTick > k.revFrom:
				last, node = max(last, o.Returned), false
			}
		}
		for _, o := range x.uses { // still unanswered
			if o.k == k && o.q == nil {
				node, last = false, q.Invoked
			}
		}
		if q.Invoked > last+keyCacheLife+time.Second {
			served("a revoked key is served when every cache has run out", "revoked at %v", k.revEnd)
		}
		if node && q.Node == k.revNode && r.why(k.revReq...) == "" {
			served("a revoked key is served by the node that revoked it", "revoked at %v", k.revEnd)
		}
	}
	if refused && r.W.FaultCount() == 0 && end.Before(k.expires) && k.made < q.Invoked && (k.revBegin < 0 || k.revBegin > q.Returned) && covers(k.scopes, u.res, u.act) && u.needs == "" {
		r.Violate("P23", "a key with the right to it is refused", "%s: scopes %q", q, k.scopes)
	}
}

func (r *MixRun) checkKeys() {
	x := r.x.(*keyRun)
	r.Pass(10 * time.Second)
	for _, me := range sortedKeys(x.asks) {
		u := x.asks[me]
		if u.q == nil || u.q.Status != 401 && u.q.Status != 403 {
			continue
		}
		if w := x.wrote[me]; w != "" && w != "api_keys" {
			r.Violate("P23", "a refused request had an effect", "%s wrote to %s", u.q, w)
		}
	}
	// every revocation that was recorded holds on every node in the end
	late := r.C.N("cfg", 3) == 0
	if late {
		r.Pass(keyCacheLife + time.Minute)
	}
	var l []*apiKey
	for _, k := range x.keys {
		row, ok := r.One("api_keys", "api_key_id", k.id)
		if !ok {
			r.Violate("P23", "an acknowledged key is not recorded", "%s", k.id)
			continue
		}
		gone := row.S("is_revoked") == "true" || row.S("is_revoked") == "t"
		if k.revEnd >= 0 && !gone {
			r.Violate("P23", "an acknowledged revocation is not recorded", "%s", k.id)
		}
		if len(l) < 6 && late {
			l = append(l, k)
		}
	}
	for _, k := range l {
		row, _ := r.One("api_keys", "api_key_id", k.id)
		gone := row.S("is_revoked") == "true" || row.S("is_revoked") == "t"
		r.Setup(func(c *Client) {
			c.Key = k.key
			q := c.Do("GET", "/ledgers", nil)
			refused := q.Status == 401 || q.Status == 403
			dead := gone || !r.W.Epoch.Add(q.Invoked).Before(k.expires) || !covers(k.scopes, "ledgers", "read")
			if q.Status != 0 && dead != refused {
				r.Violate("P23", map[bool]string{true: "a dead key is served at last", false: "a good key is refused at last"}[dead], "%s: key of %s, scopes %q, expires %v, revoked %v", q, k.owner, k.scopes, k.expires, gone)
			}
		})
	}
}
