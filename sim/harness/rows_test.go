package main

import (
	"math/big"
	"time"

	"github.com/blnkfinance/blnk/internal/zzsim/pgsim"
)

// Row is one stored row.
type Row struct {
	t *pgsim.Table
	d []any
}

func (r Row) S(col string) string  { return pgsim.Text(r.d[r.t.Col(col)]) }
func (r Row) Null(col string) bool { return pgsim.IsNull(r.d[r.t.Col(col)]) }
func (r Row) I(col string) int64   { return pgsim.Int(r.d[r.t.Col(col)]) }
func (r Row) T(col string) time.Time {
	t, _ := pgsim.Time(r.d[r.t.Col(col)])
	return t
}
func (r Row) M(col string) map[string]any { return pgsim.JSONMap(r.d[r.t.Col(col)]) }
func (r Row) Big(col string) *big.Int {
	n, ok := new(big.Int).SetString(r.S(col), 10)
	if !ok {
		return new(big.Int)
	}
	return n
}

// Rows lists the committed rows of a table that satisfy f.
func (s *Sim) Rows(table string, f func(r Row) bool) []Row {
	var out []Row
	t := s.Eng.Table(table)
	if t == nil {
		return nil
	}
	t.EachCommitted(func(_ int64, d []any) {
		r := Row{t, d}
		if f == nil || f(r) {
			out = append(out, r)
		}
	})
	return out
}

// One is the first committed row whose column has the value.
func (s *Sim) One(table, col, val string) (Row, bool) {
	l := s.Rows(table, func(r Row) bool { return r.S(col) == val })
	if len(l) == 0 {
		return Row{}, false
	}
	return l[0], true
}
