package main

import (
	"time"

	"github.com/blnkfinance/blnk/config"
)

// noFaults leaves only the schedule to chance.
func noFaults(*Sim) {}

// crashFaults: nodes die at any point, answers are lost, nothing else.
func crashFaults(s *Sim) {
	f := &s.W.F
	f.Crash = 400 * (1 + s.C.N("cfg", 20))
	f.MaxCrash = 2 + s.C.N("cfg", 6)
	f.Budget = 20
	s.ClientPost = 10000 * s.C.N("cfg", 3)
}

// wipeFaults: the queue's storage is lost, once or twice, among the usual faults.
func wipeFaults(s *Sim) {
	usualFaults(s, false)
	s.W.F.RedisWipe = 3000 * (1 + s.C.N("cfg", 4))
	s.W.F.MaxWipe = 1 + s.C.N("cfg", 2)
	s.W.F.Budget += 2
}

// mixes are the workloads; each is run with the usual faults and, as "<name>-calm", without any.
var mixes = map[string]Mix{
	"mixed": {W: map[string]int{"post": 6, "queue": 8, "hold": 3, "qhold": 2, "commit": 3, "void": 2, "partial": 3, "refund": 3, "dup": 3, "read": 3, "sched": 1, "split": 2, "qsplit": 1, "bulk": 2, "meta": 1, "bulkact": 1, "dry": 1, "rush": 2}, Ops: 40},
	// few accounts, amounts close to the funds
	"spend":   {W: map[string]int{"post": 10, "queue": 2, "hold": 3, "void": 1, "partial": 1, "read": 2, "refund": 1, "rush": 1}, Ops: 40, Accounts: 2, Tight: true, Clients: 6, Fund: 5000},
	"reads":   {W: map[string]int{"post": 5, "hold": 2, "commit": 1, "void": 1, "queue": 2, "read": 8, "dup": 1}, Ops: 40, Accounts: 2, Clients: 6},
	"dups":    {W: map[string]int{"post": 3, "queue": 3, "hold": 1, "qhold": 1, "dup": 10, "sched": 1, "split": 1, "commit": 1, "rush": 4}, Ops: 40, Accounts: 3, Clients: 6},
	"holds":   {W: map[string]int{"hold": 3, "qhold": 3, "acthold": 3, "commit": 4, "void": 4, "partial": 5, "bulkact": 2, "post": 1, "queue": 1, "refund": 0, "rush": 5}, Ops: 36, Accounts: 3, Clients: 5},
	"refunds": {W: map[string]int{"post": 3, "queue": 3, "hold": 2, "qhold": 1, "commit": 2, "void": 2, "refund": 9, "partial": 1, "bulk": 0, "rush": 3}, Ops: 36, Accounts: 3, Clients: 5},
	"queued":  {W: map[string]int{"queue": 14, "qhold": 2, "post": 2, "dup": 1, "refund": 1}, Ops: 44, Accounts: 3, Clients: 5},
	// bursts of queued transactions on few accounts with little money: batches, refusals
	"coalesce": {W: map[string]int{"queue": 20, "post": 2, "hold": 1, "qhold": 1, "void": 1, "dup": 1}, Ops: 50, Accounts: 2, Clients: 6, Tight: true, Fund: 4000,
		Config: func(c *config.Configuration) {
			c.Queue.TransactionWorkerConcurrency = max(2, c.Queue.TransactionWorkerConcurrency)
		}, Coalesce: true},
	"splits": {W: map[string]int{"split": 6, "qsplit": 4, "post": 2, "queue": 1}, Ops: 20, Accounts: 5, Clients: 3},
	"bulks":  {W: map[string]int{"bulk": 8, "post": 2, "queue": 1}, Ops: 16, Accounts: 4, Clients: 3},
	"expiry": {LongLocks: true, W: map[string]int{"exphold": 8, "expsplit": 2, "commit": 1, "void": 1, "partial": 2, "bulkact": 1, "post": 1, "queue": 2}, Ops: 24, Accounts: 3, Clients: 4},
	// webhooks
	"events": {W: map[string]int{"post": 4, "queue": 5, "hold": 2, "qhold": 1, "commit": 2, "void": 2, "partial": 2, "refund": 2, "dup": 1, "split": 1, "qsplit": 1, "bulk": 1, "bulkact": 1, "exphold": 1, "custom": 3}, Ops: 26, Accounts: 3, Clients: 4,
		Custom: createOp, Events: true, Config: func(c *config.Configuration) { c.Notification.Webhook.Url = hookURL }, Extra: (*MixRun).flaky, After: (*MixRun).checkWebhooks},
	// indicators that several clients use for the first time
	"firsts": {W: map[string]int{"custom": 20, "post": 1, "split": 1, "qsplit": 1, "bulk": 1}, Ops: 44, Accounts: 2, Clients: 7, Custom: firstOp, After: (*MixRun).checkFirsts},
	// balance monitors
	"monitors": {W: map[string]int{"post": 8, "queue": 6, "hold": 3, "qhold": 1, "commit": 2, "void": 2, "partial": 2, "refund": 1, "split": 1}, Ops: 30, Accounts: 3, Clients: 4,
		Events: true, Config: func(c *config.Configuration) { c.Notification.Webhook.Url = hookURL }, Extra: (*MixRun).makeMonitors, After: (*MixRun).checkMonitors},
	// transaction hooks
	"hooks": {W: map[string]int{"post": 5, "queue": 5, "hold": 2, "qhold": 1, "commit": 2, "void": 1, "partial": 1, "refund": 1, "split": 1, "bulk": 1, "custom": 7}, Ops: 30, Accounts: 3, Clients: 4, Think: 3 * time.Second,
		Custom: hookOp, Events: true, Config: func(c *config.Configuration) { c.Server.Secure = true }, Extra: (*MixRun).setupHooks, After: (*MixRun).checkHooks},
	// dry runs
	"dryruns": {W: map[string]int{"post": 5, "queue": 3, "hold": 4, "qhold": 1, "commit": 2, "void": 1, "partial": 2, "refund": 2, "split": 1, "bulk": 1, "custom": 12}, Ops: 44, Accounts: 3, Clients: 5, Tight: false, Fund: 3000,
		Custom: dryOp, Extra: (*MixRun).watchDry, After: (*MixRun).checkDry},
	// the hash chain
	"chain": {W: map[string]int{"post": 6, "queue": 5, "hold": 2, "qhold": 1, "commit": 2, "void": 1, "refund": 1, "split": 1, "bulk": 1, "meta": 2, "custom": 4}, Ops: 30, Accounts: 3, Clients: 4, Nodes: []string{"a1", "a2", "a3", "w1"},
		Config: chainConfig, Custom: verifyOp, Extra: (*MixRun).watchChain, After: (*MixRun).checkChain},
	// reconciliation
	"recon": {W: map[string]int{"custom": 20, "post": 4, "queue": 1, "hold": 1, "refund": 1}, Ops: 36, Accounts: 3, Clients: 4, Think: 2 * time.Second, Config: reconConfig,
		Custom: reconOp, Extra: (*MixRun).setupRecon, After: (*MixRun).checkRecon},
	// API keys
	// tokenization of identities among updates of other fields and of metadata
	"tokens": {W: map[string]int{"custom": 20, "post": 1}, Ops: 44, Accounts: 2, Clients: 7, Config: func(c *config.Configuration) { c.TokenizationSecret = tokenSecret },
		Custom: tokenOpOf, Extra: (*MixRun).setupTokens, After: (*MixRun).checkTokens},
	"keys": {W: map[string]int{"custom": 20, "post": 1}, Ops: 40, Accounts: 2, Clients: 4, Think: 2 * time.Second, Config: func(c *config.Configuration) { c.Server.Secure = true },
		Custom: keyOp, Extra: (*MixRun).setupKeys, After: (*MixRun).checkKeys},
	// fund lineage
	"lineage": {W: map[string]int{"custom": 20, "commit": 3, "partial": 1, "void": 2, "refund": 1}, LongLocks: true, Ops: 36, Accounts: 1, Fund: -1, Clients: 4, Think: time.Second,
		Custom: lineageOp, Extra: (*MixRun).setupLineage, After: (*MixRun).checkLineage},
	// historical balances
	"history": {W: map[string]int{"post": 6, "queue": 2, "hold": 2, "commit": 2, "partial": 1, "void": 1, "refund": 1, "custom": 8}, Ops: 16, Accounts: 2, Clients: 4,
		Nodes: []string{"a1", "a2", "w1"}, Custom: historyOp, After: (*MixRun).checkHistory},
	// metadata of everything that has some
	"metadata":  {W: map[string]int{"custom": 20, "post": 4, "hold": 1, "queue": 2, "commit": 1}, Ops: 44, Accounts: 2, Clients: 7, Custom: metaOp, Extra: (*MixRun).setupMetas, After: (*MixRun).checkMetas},
	"scheduled": {W: map[string]int{"sched": 10, "queue": 4, "post": 2, "dup": 1}, Ops: 24, Accounts: 3, Clients: 4},
}

func init() {
	for name, m := range mixes {
		m.Effective = name != "history"
		switch name {
		case "monitors":
			m.Fits = true
		case "recon", "firsts", "metadata", "tokens", "keys":
			m.Plain = true
		}
		simScenarios[name] = func(s *Sim) { runMix(s, m) }
		c := m
		c.Faults = noFaults
		simScenarios[name+"-calm"] = func(s *Sim) { runMix(s, c) }
	}
	h := mixes["history"]
	d := h
	d.Effective = true
	for name, m := range map[string]Mix{"history": h, "backdated": d} {
		simScenarios[name] = func(s *Sim) { runHistory(s, m) }
		c := m
		c.Faults = noFaults
		simScenarios[name+"-calm"] = func(s *Sim) { runHistory(s, c) }
	}
	b := mixes["chain"]
	b.Ops, b.Clients = 8, 2
	for name, m := range map[string]Mix{"backfill": b} {
		simScenarios[name] = func(s *Sim) { s.Preload = func() { backfill(s) }; runMix(s, m) }
		c := m
		c.Faults = noFaults
		simScenarios[name+"-calm"] = func(s *Sim) { s.Preload = func() { backfill(s) }; runMix(s, c) }
	}
	m := mixes["mixed"]
	m.Faults = crashFaults
	simScenarios["crashy"] = func(s *Sim) { runMix(s, m) }
	w := mixes["queued"]
	w.Faults = wipeFaults
	simScenarios["wipe"] = func(s *Sim) { runMix(s, w) }
}
