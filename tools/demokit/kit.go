// Package zzkit runs the real service code on an in-process database engine and Redis, for
// demonstrations: real SQL, real migrations, and a gate in front of every statement.
package zzkit

import (
	"context"
	"database/sql"
	"fmt"
	"math/big"
	"os"
	"sync"
	"testing"
	"time"

	"github.com/alicebob/miniredis/v2"
	"github.com/blnkfinance/blnk"
	"github.com/blnkfinance/blnk/config"
	"github.com/blnkfinance/blnk/database"
	"github.com/blnkfinance/blnk/internal/cache"
	"github.com/blnkfinance/blnk/internal/zzkit/pgsim"
	"github.com/blnkfinance/blnk/model"
)

type World struct {
	T     testing.TB
	Eng   *pgsim.Engine
	DB    *sql.DB
	DS    *database.Datasource
	Redis *miniredis.Miniredis
	B     *blnk.Blnk
	Cfg   *config.Configuration
	// Gate, if set, is called before every statement; it may block.
	Gate func(node, sql string)
	// Fail, if set, may make a statement fail.
	Fail func(node, sql string) error
	mu   sync.Mutex
	now  func() time.Time
}

func (w *World) DB0(node string) *sql.DB {
	return sql.OpenDB(&pgsim.Connector{Eng: w.Eng, Node: node, Sched: sched{w}})
}

type sched struct{ w *World }

func (s sched) DBDead(string) error { return nil }
func (s sched) DB(ctx context.Context, op *pgsim.Op) error {
	if g := s.w.Gate; g != nil {
		g(op.Node, op.SQL)
	}
	if f := s.w.Fail; f != nil {
		if err := f(op.Node, op.SQL); err != nil {
			return err
		}
	}
	for {
		s.w.mu.Lock()
		if op.Ready() {
			done, err := op.Step()
			if done || err != nil {
				s.w.mu.Unlock()
				return err
			}
		}
		s.w.mu.Unlock()
		select {
		case <-ctx.Done():
			s.w.mu.Lock()
			op.Break()
			s.w.mu.Unlock()
			return ctx.Err()
		case <-time.After(time.Millisecond):
		}
	}
}

// New starts a database, a Redis and one service node.
func New(t testing.TB, tweak func(*config.Configuration)) *World {
	w := &World{T: t, now: time.Now}
	w.Redis = miniredis.RunT(t)
	w.Cfg = &config.Configuration{
		Redis:              config.RedisConfig{Dns: w.Redis.Addr()},
		Queue:              config.QueueConfig{WebhookQueue: "webhook_queue", IndexQueue: "index_queue", TransactionQueue: "transaction_queue", InflightExpiryQueue: "inflight_expiry_queue", NumberOfQueues: 1},
		Transaction:        config.TransactionConfig{BatchSize: 100, MaxQueueSize: 1000, MaxWorkers: 4, LockDuration: 30 * time.Second, LockWaitTimeout: 5 * time.Second},
		Server:             config.ServerConfig{SecretKey: "some-secret"},
		TokenizationSecret: "12345678901234567890123456789012",
	}
	if tweak != nil {
		tweak(w.Cfg)
	}
	config.ConfigStore.Store(w.Cfg)
	w.Eng = pgsim.NewEngine(func() time.Time { return w.now() })
	dir := os.Getenv("REPO_SQL")
	if dir == "" {
		dir = "/repo/sql"
	}
	if err := w.Eng.Migrate(dir); err != nil {
		t.Fatal(err)
	}
	w.DB = w.DB0("main")
	w.DS, w.B = w.Node("n1")
	return w
}

// Node starts another service node on the same database and Redis.
func (w *World) Node(name string) (*database.Datasource, *blnk.Blnk) {
	c, err := cache.NewCache()
	if err != nil {
		w.T.Log("no cache:", err)
	}
	ds := &database.Datasource{Conn: w.DB0(name), Cache: c}
	b, err := blnk.NewBlnk(ds)
	if err != nil {
		w.T.Fatal(err)
	}
	return ds, b
}

// SetClock moves the database's clock.
func (w *World) SetClock(f func() time.Time) { w.now = f }

func (w *World) Ledger() string {
	l, err := w.DS.CreateLedger(model.Ledger{Name: "L"})
	if err != nil {
		w.T.Fatal(err)
	}
	return l.LedgerID
}

// Balance makes a balance in the general ledger.
func (w *World) Balance(mod ...func(*model.Balance)) string {
	b := model.Balance{Currency: "USD", LedgerID: "general_ledger_id"}
	for _, m := range mod {
		m(&b)
	}
	r, err := w.DS.CreateBalance(b)
	if err != nil {
		w.T.Fatal(err)
	}
	return r.BalanceID
}

var n int

// Txn describes a transaction recorded without the queue.
func Txn(src, dst string, precise int64, mod ...func(*model.Transaction)) *model.Transaction {
	n++
	t := &model.Transaction{Reference: fmt.Sprintf("ref-%d", n), Source: src, Destination: dst, PreciseAmount: big.NewInt(precise), Precision: 100, Currency: "USD", SkipQueue: true, Description: "d"}
	for _, m := range mod {
		m(t)
	}
	return t
}

func Overdraft(t *model.Transaction) { t.AllowOverdraft = true }
func Inflight(t *model.Transaction)  { t.Inflight = true }
func Ref(r string) func(*model.Transaction) {
	return func(t *model.Transaction) { t.Reference = r }
}

// Post records one transaction without the queue.
func (w *World) Post(src, dst string, precise int64, mod ...func(*model.Transaction)) (*model.Transaction, error) {
	return w.B.QueueTransaction(context.Background(), Txn(src, dst, precise, mod...))
}

// MustPost is Post that must succeed.
func (w *World) MustPost(src, dst string, precise int64, mod ...func(*model.Transaction)) *model.Transaction {
	w.T.Helper()
	t, err := w.Post(src, dst, precise, mod...)
	if err != nil {
		w.T.Fatal(err)
	}
	return t
}

// Fund gives a balance funds from a fresh overdrawn balance.
func (w *World) Fund(bal string, precise int64) string {
	src := w.Balance()
	w.MustPost(src, bal, precise, Overdraft)
	return src
}

// Bal is the balance as the database has it: balance, credit, debit, inflight.
func (w *World) Bal(id string) (b, c, d, i int64) {
	w.T.Helper()
	err := w.DB.QueryRow("SELECT balance, credit_balance, debit_balance, inflight_balance FROM blnk.balances WHERE balance_id = $1", id).Scan(&b, &c, &d, &i)
	if err != nil {
		w.T.Fatal(err)
	}
	return
}

// Count counts rows.
func (w *World) Count(q string, args ...any) (n int64) {
	w.T.Helper()
	if err := w.DB.QueryRow(q, args...).Scan(&n); err != nil {
		w.T.Fatal(err)
	}
	return
}

// Eventually waits for a condition.
func Eventually(f func() bool) bool {
	for i := 0; i < 500; i++ {
		if f() {
			return true
		}
		time.Sleep(20 * time.Millisecond)
	}
	return f()
}
