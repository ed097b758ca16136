package main

import "time"

func init() { simScenarios["smoke"] = smoke }

func smoke(s *Sim) {
	s.Boot([]string{"a1", "w1"}, nil)
	s.Setup(func(c *Client) {
		l := c.Must("POST", "/ledgers", map[string]any{"name": "l"})
		b := c.Must("POST", "/balances", map[string]any{"ledger_id": l.S("ledger_id"), "currency": "USD"})
		c.Must("POST", "/transactions", map[string]any{"amount": 100, "precision": 100, "currency": "USD", "source": "@world", "destination": b.S("balance_id"), "description": "d", "reference": "r1", "allow_overdraft": true, "skip_queue": true})
		c.Must("POST", "/transactions", map[string]any{"amount": 30, "precision": 100, "currency": "USD", "source": b.S("balance_id"), "destination": "@fees", "description": "d", "reference": "r2"})
	})
	s.Count["settled"] = 0
	if s.Settle(30 * time.Minute) {
		s.Count["settled"]++
	}
}
