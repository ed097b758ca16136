package main

import (
	"context"
	"errors"
	"fmt"
	"slices"
	"strings"
	"time"

	redlock "github.com/blnkfinance/blnk/internal/lock"
	redis_db "github.com/blnkfinance/blnk/internal/redis-db"
	"github.com/blnkfinance/blnk/internal/zzsim/core"
	"github.com/redis/go-redis/v9"
)

// LockWatch follows every lock key in Redis, command by command.
type LockWatch struct {
	s    *Sim
	keys map[string]*lockKey
}

type lockKey struct {
	cur  *lockSpan
	hist []*lockSpan
}

// lockSpan is one acquisition.
type lockSpan struct {
	Value, Actor string
	From, Exp    time.Duration
	To           time.Duration // released at; 0: not released
}

func (p *lockSpan) end() time.Duration {
	if p.To > 0 {
		return p.To
	}
	return p.Exp
}

func watchLocks(s *Sim) *LockWatch {
	l := &LockWatch{s: s, keys: map[string]*lockKey{}}
	s.watchRedis("loc_", l.ran)
	return l
}

// ran compares each watched key with what it was before the commands.
func (l *LockWatch) ran(actor string, cmds [][]string) {
	s := l.s
	var named []string
	args := map[string]bool{}
	for _, c := range cmds {
		for _, a := range c {
			args[a] = true
		}
		if len(c) >= 4 && strings.EqualFold(c[0], "set") {
			nx := false
			for _, a := range c[3:] {
				nx = nx || strings.EqualFold(a, "nx")
			}
			if nx && strings.HasPrefix(c[2], "loc_") {
				if l.keys[c[1]] == nil {
					l.keys[c[1]] = &lockKey{}
				}
			}
		}
	}
	for k := range args {
		if l.keys[k] != nil {
			named = append(named, k)
		}
	}
	slices.Sort(named)
	db := s.W.Mini.DB(0)
	now := s.W.Now()
	for _, k := range named {
		st := l.keys[k]
		if st.cur != nil && now >= st.cur.Exp {
			st.cur = nil
		}
		prev := st.cur
		v := ""
		ttl := time.Duration(0)
		if db.Exists(k) {
			v, _ = db.Get(k)
			ttl = db.TTL(k)
		}
		switch {
		case v == "" && prev == nil:
		case v == "":
			if !args[prev.Value] || actor != prev.Actor {
				s.Violate("P14", "released by another", "%s released the lock %s, which %s holds until %s", actor, k, prev.Actor, prev.Exp)
			}
			prev.To = now
			st.cur = nil
		case prev == nil || prev.Value != v:
			if prev != nil {
				s.Violate("P14", "taken while held", "%s took the lock %s at %s, which %s holds until %s", actor, k, now, prev.Actor, prev.Exp)
			}
			if !args[v] {
				break // left from before a loss of data
			}
			if ttl <= 0 {
				s.Violate("P14", "held without an end", "%s took the lock %s without an expiry", actor, k)
				ttl = time.Hour
			}
			st.cur = &lockSpan{Value: v, Actor: actor, From: now, Exp: now + ttl}
			st.hist = append(st.hist, st.cur)
			s.Count["locks_taken"]++
		default:
			if now+ttl != prev.Exp && (now+ttl-prev.Exp).Abs() > 2*time.Millisecond {
				if !args[v] || actor != prev.Actor {
					s.Violate("P14", "extended by another", "%s moved the end of the lock %s, which %s holds until %s, to %s", actor, k, prev.Actor, prev.Exp, now+ttl)
				}
				prev.Exp = now + ttl
			}
		}
	}
}

// ranOut tells whether an acquisition of the lock ended by its expiry.
func (l *LockWatch) ranOut(key string) bool {
	st := l.keys[key]
	if st == nil {
		return false
	}
	for _, p := range st.hist {
		if p.To == 0 && l.s.W.Now() >= p.Exp {
			return true
		}
	}
	return false
}

// leaked lists the locks that are still held though nobody works any more.
func (l *LockWatch) leaked() (out []string) {
	for _, k := range sortedKeys(l.keys) {
		if c := l.keys[k].cur; c != nil && l.s.W.Now() < c.Exp {
			out = append(out, fmt.Sprintf("%s by %s until %s", k, c.Actor, c.Exp))
		}
	}
	return
}

// heldThroughout: some holder other than v had the key during all of [a, b], but for gaps
// shorter than the slack.
func (l *LockWatch) heldThroughout(key, v string, a, b, slack time.Duration) bool {
	at := a
	if st := l.keys[key]; st != nil {
		for _, p := range st.hist {
			if p.Value == v || p.end() < at {
				continue
			}
			if p.From > at+slack {
				break
			}
			at = max(at, p.end())
		}
	}
	return at+slack >= b
}

// heldAt: somebody else had the key at some instant of [a, b].
func (l *LockWatch) heldAt(key, v string, a, b time.Duration) bool {
	if st := l.keys[key]; st != nil {
		for _, p := range st.hist {
			if p.Value != v && p.From <= b && p.end() >= a {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------- direct use of the locks

type lockClaim struct {
	who, key  string
	from, end time.Duration
	t0        time.Duration // when the locks were asked for
	actor     string
}

// late: a release of the claim's own, from an attempt before it was granted, may have
// reached the server later than the client waited for it: the value is the same.
func (s *Sim) late(key string, cs ...*lockClaim) string {
	for _, c := range cs {
		for _, f := range s.W.FaultLog {
			if f.Kind == "redis_stall" && strings.HasSuffix(f.Actor, c.actor) && f.At >= c.t0 && f.End-f.At > 2*time.Second {
				return key + " after a late release"
			}
		}
	}
	return key
}

// lockRun: actors on several nodes use the lock package itself.
func lockRun(s *Sim, faults func(*Sim)) {
	s.NoWorkers = true
	s.Boot([]string{"a1", "a2", "a3"}, nil)
	keys := []string{"ka", "kb", "kc"}[:1+s.C.N("cfg", 3)]
	cli := map[*core.Inc]redis.UniversalClient{}
	var claims []*lockClaim
	if faults != nil {
		faults(s)
	}
	s.W.F.MaxWipe = 0
	s.W.FaultsOn = true
	n := 3 + s.C.N("cfg", 4)
	ctx := context.Background()
	for i := 0; i < n; i++ {
		who := fmt.Sprintf("l%d", i)
		s.Go(who, func(c *Client) {
			for k := 0; k < 8; k++ {
				inc := c.pick()
				if inc == nil {
					return
				}
				done := make(chan struct{})
				val := fmt.Sprintf("loc_%s_%d", who, k)
				s.W.Go(inc, fmt.Sprintf("%s#%d", who, k), func() {
					defer close(done)
					if cli[inc] == nil {
						r, err := redis_db.NewRedisClient([]string{"redis:6379"}, false)
						if err != nil {
							return
						}
						cli[inc] = r.Client()
					}
					s.lockOp(ctx, cli[inc], inc, who, fmt.Sprintf("|%s#%d", who, k), val, keys, &claims)
				})
				select {
				case <-done:
				case <-inc.DiedCh:
				}
				time.Sleep([]time.Duration{0, 10 * time.Millisecond, time.Second, 4 * time.Second}[s.C.N("think", 4)])
			}
		})
	}
	s.Clients(2 * time.Hour)
	s.W.Heal()
	s.Pass(2 * time.Second)
	// once every lock has run out or was released, each can be had at once
	s.Pass(30 * time.Second)
	for _, k := range keys {
		s.Setup(func(c *Client) {
			inc := c.pick()
			done := make(chan error, 1)
			s.W.Go(inc, "last", func() {
				r, err := redis_db.NewRedisClient([]string{"redis:6379"}, false)
				if err == nil {
					err = redlock.NewLocker(r.Client(), k, "loc_last").Lock(ctx, time.Second)
				}
				done <- err
			})
			if err := <-done; err != nil {
				s.Violate("P14", "never free again", "the lock %s cannot be had after all holders are gone: %v", k, err)
			}
		})
	}
	s.stateHash = uint64(len(claims))<<32 ^ uint64(s.Count["lock_held"])
}

func (s *Sim) lockOp(ctx context.Context, r redis.UniversalClient, inc *core.Inc, who, actor, val string, keys []string, claims *[]*lockClaim) {
	multi := s.C.N("op", 2) == 1
	wait := s.C.N("op", 2) == 1
	ttl := []time.Duration{time.Second, 3 * time.Second, 10 * time.Second, 200 * time.Millisecond}[s.C.N("op", 4)]
	tmo := []time.Duration{500 * time.Millisecond, 3 * time.Second, 12 * time.Second}[s.C.N("op", 3)]
	var mine []string
	if multi {
		for _, k := range keys {
			if s.C.N("op", 3) != 2 {
				mine = append(mine, k)
			}
		}
		if s.C.N("op", 2) == 1 {
			slices.Reverse(mine)
		}
		if len(mine) > 0 && s.C.N("op", 3) == 1 {
			mine = append(mine, mine[0])
		}
	}
	if len(mine) == 0 {
		multi = false
		mine = []string{keys[s.C.N("op", len(keys))]}
	}
	var ml *redlock.MultiLocker
	var sl *redlock.Locker
	t0 := s.W.Now()
	var err error
	switch {
	case multi && wait:
		ml = redlock.NewMultiLocker(r, mine, val)
		err = ml.WaitLock(ctx, ttl, tmo)
	case multi:
		ml = redlock.NewMultiLocker(r, mine, val)
		err = ml.Lock(ctx, ttl)
	case wait:
		sl = redlock.NewLocker(r, mine[0], val)
		err = sl.WaitLock(ctx, ttl, tmo)
	default:
		sl = redlock.NewLocker(r, mine[0], val)
		err = sl.Lock(ctx, ttl)
	}
	t1 := s.W.Now()
	clean := s.cleanSince(t0) && !inc.Dead
	uniq := slices.Compact(slices.Sorted(slices.Values(mine)))
	db := s.W.Mini.DB(0)
	if err != nil {
		s.Count["lock_refused"]++
		s.W.Logf("%s refused %v: %v", who, mine, err)
		if clean {
			for _, k := range uniq {
				if v, _ := db.Get(k); v == val {
					s.Violate("P14", "refused but kept", "%s was refused the locks %v (%v) but holds %s", who, mine, err, k)
				}
			}
			if errors.Is(err, redlock.ErrLockHeld) && !wait {
				ok := false
				for _, k := range uniq {
					ok = ok || s.Locks.heldAt(k, val, t0, t1)
				}
				if !ok {
					s.Violate("P14", "refused though free", "%s was refused the locks %v though nobody held any of them", who, mine)
				}
			}
			if errors.Is(err, redlock.ErrLockWaitTimeout) || wait && errors.Is(err, redlock.ErrLockHeld) {
				// one key only: it must have been taken all the time, but for the time between two attempts
				if len(uniq) == 1 && !s.Locks.heldThroughout(uniq[0], val, t0, t1, 150*time.Millisecond) {
					s.Violate("P14", "waited in vain", "%s waited from %s to %s for the lock %s, which was free for more than the time between two attempts", who, t0, t1, uniq[0])
				}
				if t1-t0 < tmo-200*time.Millisecond {
					s.Violate("P14", "waited too short", "%s gave up the lock %s after %s, its timeout is %s", who, uniq[0], t1-t0, tmo)
				}
			}
			if wait && t1-t0 > tmo+5*time.Second {
				s.Violate("P14", "waited too long", "%s waited %s for the locks %v, its timeout is %s", who, t1-t0, mine, tmo)
			}
		}
		return
	}
	s.Count["lock_held"]++
	s.W.Logf("%s holds %v (ttl %s)", who, mine, ttl)
	// the locks of a group are taken one after the other and are valid from the last one on
	end := t0 + ttl
	if wait {
		// each attempt starts anew: only the spans recorded at the server tell when
		end = t1 + ttl
		for _, k := range uniq {
			// one taken early may have run out when the last one was had
			if e := s.Locks.lastExp(k, val); e > 0 {
				end = min(end, e)
			}
		}
	}
	var my []*lockClaim
	for _, k := range uniq {
		if end <= t1 {
			break
		}
		v, _ := db.Get(k)
		if v != val {
			s.Violate("P14", s.late("granted but not held", &lockClaim{t0: t0, actor: actor}), "%s was granted the lock %s, which %q holds", who, k, v)
		}
		for _, o := range *claims {
			if o.key == k && o.from < end && t1 < o.end {
				s.Violate("P14", s.late("two holders", o, &lockClaim{t0: t0, actor: actor}), "%s holds the lock %s from %s to %s and %s from %s to %s", o.who, k, o.from, o.end, who, t1, end)
			}
		}
		cl := &lockClaim{who, k, t1, end, t0, actor}
		my = append(my, cl)
		*claims = append(*claims, cl)
	}
	hold := []time.Duration{10 * time.Millisecond, ttl / 2, ttl + 10*time.Millisecond, 2 * ttl}[s.C.N("op", 4)]
	time.Sleep(hold)
	if sl != nil && s.C.N("op", 2) == 1 {
		ext := []time.Duration{2 * time.Second, 5 * time.Second}[s.C.N("op", 2)]
		a := s.W.Now()
		err := sl.ExtendLock(ctx, ext)
		b := s.W.Now()
		if s.cleanSince(a) && !inc.Dead {
			valid := b < end
			if err == nil && a > s.Locks.lastExp(uniq[0], val) {
				s.Violate("P14", "extended after its end", "%s extended the lock %s at %s, it had lost it", who, uniq[0], b)
			}
			if err != nil && valid {
				s.Violate("P14", s.late("holder may not extend", &lockClaim{t0: t0, actor: actor}), "%s could not extend the lock %s it holds until %s: %v", who, uniq[0], end, err)
			}
		}
		if err == nil {
			s.Count["lock_extended"]++
			for _, cl := range my {
				cl.end = a + ext
				end = cl.end
				for _, o := range *claims {
					if o != cl && o.key == cl.key && o.from < cl.end && b < o.end && o.from >= b {
						s.Violate("P14", s.late("two holders", o, cl), "%s holds the lock %s until %s, %s from %s to %s", who, cl.key, cl.end, o.who, o.from, o.end)
					}
				}
			}
		}
		time.Sleep([]time.Duration{0, ext / 2, ext + 10*time.Millisecond}[s.C.N("op", 3)])
	}
	for _, cl := range my {
		cl.end = min(cl.end, s.W.Now())
	}
	a := s.W.Now()
	if ml != nil {
		err = ml.Unlock(ctx)
	} else {
		err = sl.Unlock(ctx)
	}
	if !inc.Dead {
		// what goes wrong with one key does not keep the others
		kept, lost := 0, 0
		for _, k := range uniq {
			if v, _ := db.Get(k); v == val {
				kept++
			}
		}
		for _, f := range s.W.FaultLog {
			switch {
			case !s.felt(f, a):
			case f.Kind == "redis_lost_request" || f.Kind == "redis_lost_reply":
				lost++
			default:
				lost += len(uniq)
			}
		}
		if kept > lost {
			s.Violate("P14", "released but kept", "%s released the locks %v and still holds %d of them (%d requests failed)", who, uniq, kept, lost)
		}
	}
	if s.cleanSince(a) && !inc.Dead {
		b := s.W.Now()
		if err != nil && b < end {
			s.Violate("P14", s.late("holder may not release", &lockClaim{t0: t0, actor: actor}), "%s could not release the locks %v it holds until %s: %v", who, mine, end, err)
		}
		if err == nil {
			for _, k := range uniq {
				if a > s.Locks.lastExp(k, val) {
					s.Violate("P14", "released after its end", "%s released the lock %s at %s, it had lost it", who, k, b)
				}
			}
		}
		for _, k := range uniq {
			if v, _ := db.Get(k); v == val {
				s.Violate("P14", "released but kept", "%s released the lock %s and still holds it", who, k)
			}
		}
	}
}

// lastExp is the end of the latest acquisition with the value.
func (l *LockWatch) lastExp(key, val string) (e time.Duration) {
	if st := l.keys[key]; st != nil {
		for _, p := range st.hist {
			if p.Value == val {
				e = max(e, p.Exp)
			}
		}
	}
	return
}

func init() {
	simScenarios["locks"] = func(s *Sim) { lockRun(s, func(s *Sim) { usualFaults(s, false) }) }
	simScenarios["locks-calm"] = func(s *Sim) { lockRun(s, noFaults) }
}

// cleanSince: no fault was in effect after the instant.
func (s *Sim) cleanSince(t time.Duration) bool {
	for _, f := range s.W.FaultLog {
		if s.felt(f, t) {
			return false
		}
	}
	return true
}

// felt: the fault can be noticed after the instant. After an outage the connection pool
// repeats its last dial error for a moment.
func (s *Sim) felt(f core.FaultRec, t time.Duration) bool {
	if strings.HasSuffix(f.Kind, "_outage") {
		return f.End+2*time.Second >= t
	}
	return f.End >= t
}
