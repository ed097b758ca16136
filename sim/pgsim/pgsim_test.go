package pgsim

import (
	"context"
	"database/sql"
	"os"
	"testing"
	"time"
)

type direct struct{}

func (direct) DB(ctx context.Context, op *Op) error {
	for {
		if !op.Ready() {
			panic("lock wait")
		}
		done, _ := op.Step()
		if done {
			return nil
		}
	}
}
func (direct) DBDead(string) error { return nil }

func TestMigrate(t *testing.T) {
	dir := os.Getenv("MIGRATIONS")
	if dir == "" {
		dir = "/repo/sql"
	}
	e := NewEngine(time.Now)
	t0 := time.Now()
	if err := e.Migrate(dir); err != nil {
		t.Fatal(err)
	}
	t.Log(time.Since(t0))
	db := sql.OpenDB(&Connector{Eng: e, Node: "n", Sched: direct{}})
	for _, q := range []string{
		`INSERT INTO blnk.ledgers(ledger_id,name,meta_data,created_at) VALUES('l1','L','{"a":1}',now())`,
		`INSERT INTO blnk.balances(balance_id,balance,credit_balance,debit_balance,inflight_balance,inflight_credit_balance,inflight_debit_balance,currency,ledger_id,created_at,version,meta_data) VALUES('b1',5,5,0,0,0,0,'USD','l1',now(),0,'{"BLNK_RUN_RECONCILIATION":"SOURCE"}')`,
		`UPDATE blnk.balances SET version=version+1 WHERE balance_id='b1'`,
		`SELECT blnk.take_daily_balance_snapshots_batched(10)`,
		`SELECT blnk.take_daily_balance_snapshots_batched(10)`,
		`SELECT balance_id,balance,meta_data FROM blnk.balances`,
		`SELECT balance_id,balance,snapshot_time FROM blnk.balance_snapshots`,
	} {
		r, err := db.Query(q)
		if err != nil {
			t.Fatal(q, err)
		}
		cols, _ := r.Columns()
		for r.Next() {
			v := make([]any, len(cols))
			p := make([]any, len(cols))
			for i := range v {
				p[i] = &v[i]
			}
			r.Scan(p...)
			for i := range v {
				if b, ok := v[i].([]byte); ok {
					v[i] = string(b)
				}
			}
			t.Log(v...)
		}
		r.Close()
	}
}
