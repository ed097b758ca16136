package main

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/brianvoe/gofakeit/v6"
	"github.com/google/uuid"
	"github.com/sirupsen/logrus"

	crand "crypto/rand"

	"github.com/blnkfinance/blnk/internal/zzsim/core"
	"github.com/blnkfinance/blnk/internal/zzsim/rt"
)

type simReplay struct {
	Seed     uint64              `json:"seed"`
	Scenario string              `json:"scenario"`
	Property string              `json:"property"`
	Message  string              `json:"message"`
	Trace    map[string][][2]int `json:"trace"`
}

type simViolation struct {
	Property string `json:"property"`
	Key      string `json:"key"` // what fails, for the known-findings file
	Message  string `json:"message"`
}

type simResult struct {
	Seed       uint64              `json:"seed"`
	Scenario   string              `json:"scenario"`
	Violations []simViolation      `json:"violations"`
	Error      string              `json:"error,omitempty"`
	Steps      int                 `json:"steps"`
	VTime      float64             `json:"vtime"`
	Faults     map[string]int      `json:"faults"`
	Ops        map[string]int      `json:"ops"`
	Counters   map[string]int      `json:"counters"`
	SchedHash  string              `json:"sched"`
	StateHash  string              `json:"state"`
	Trace      map[string][][2]int `json:"trace,omitempty"`
}

// TestZZSim is one simulated run, described by the environment.
func TestZZSim(t *testing.T) {
	if os.Getenv("SIM_SCENARIO") == "" {
		t.Skip("not a simulation")
	}
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(6 << 30)
	runtime.GOMAXPROCS(1)
	rep := simReplay{Scenario: os.Getenv("SIM_SCENARIO")}
	rep.Seed, _ = strconv.ParseUint(os.Getenv("SIM_SEED"), 10, 64)
	replaying := false
	if f := os.Getenv("SIM_REPLAY"); f != "" {
		b, err := os.ReadFile(f)
		if err == nil {
			err = json.Unmarshal(b, &rep)
		}
		if err != nil {
			simExit(simResult{Error: "replay file: " + err.Error()})
		}
		replaying = true
		if rep.Trace == nil {
			rep.Trace = map[string][][2]int{}
		}
	}
	log.SetOutput(io.Discard)
	if os.Getenv("SIM_VERBOSE") == "" {
		logrus.SetOutput(io.Discard)
	}
	if err := rt.Install(); err != nil {
		simExit(simResult{Error: err.Error()})
	}
	rt.SeedCrypto(rep.Seed)
	uuid.SetRand(crand.Reader)
	gofakeit.Seed(int64(rep.Seed)*2 + 1)
	sc := simScenarios[rep.Scenario]
	if sc == nil {
		simExit(simResult{Error: "no such scenario: " + rep.Scenario})
	}
	synctest.Test(t, func(t *testing.T) {
		var trace map[string][][2]int
		if replaying {
			trace = rep.Trace
		}
		s := newSim(rep.Scenario, core.NewChoices(rep.Seed, trace))
		s.W.LogOn = os.Getenv("SIM_LOG") != ""
		func() {
			defer func() {
				if r := recover(); r != nil {
					if r == simStop {
						return
					}
					s.Fail("panic: %v\n%s", r, debug.Stack())
				}
			}()
			sc(s)
		}()
		simExit(s.result())
	})
}

func simExit(r simResult) {
	b, _ := json.Marshal(r)
	if f := os.Getenv("SIM_OUT"); f != "" {
		os.WriteFile(f, b, 0o644)
	} else {
		fmt.Println(string(b))
	}
	os.Exit(0)
}

var simScenarios = map[string]func(*Sim){}

// simStop unwinds the scenario when the run is decided.
var simStop = new(int)

func (s *Sim) result() simResult {
	w := s.W
	r := simResult{Seed: s.C.Seed, Scenario: s.Name, Violations: s.Violations, Steps: w.Step, VTime: w.Now().Seconds(),
		Faults: w.Used, Ops: w.OpKinds, Counters: s.Count, SchedHash: fmt.Sprintf("%016x", w.Hash()), StateHash: fmt.Sprintf("%016x", s.stateHash), Trace: s.C.Trace}
	if s.failure != "" {
		r.Error = s.failure
	} else if w.Failure != nil {
		r.Error = w.Failure.Error()
	}
	if w.Failure == nil && s.failure == "" && s.Eng != nil && s.Eng.Stats["lock_wait"] > 0 {
		s.Count["db_lock_waits"] += int(s.Eng.Stats["lock_wait"])
		s.Count["db_deadlocks"] += int(s.Eng.Stats["deadlock"])
	}
	if f := os.Getenv("SIM_LOG"); f != "" {
		var b strings.Builder
		for _, l := range w.Log {
			b.WriteString(l)
			b.WriteByte('\n')
		}
		for _, v := range s.Violations {
			fmt.Fprintf(&b, "VIOLATION %s [%s] %s\n", v.Property, v.Key, v.Message)
		}
		if r.Error != "" {
			fmt.Fprintf(&b, "ERROR %s\n", r.Error)
		}
		os.WriteFile(f, []byte(b.String()), 0o644)
	}
	return r
}

// Violate records that a property does not hold. key names the kind of violation.
func (s *Sim) Violate(prop, key, f string, a ...any) {
	k := prop + "/" + key
	if s.violated[k] {
		return
	}
	s.violated[k] = true
	m := fmt.Sprintf(f, a...)
	s.W.Logf("VIOLATION %s %s: %s", prop, key, m)
	s.Violations = append(s.Violations, simViolation{prop, key, m})
}

// Fail records that the machinery failed; the run then says nothing.
func (s *Sim) Fail(f string, a ...any) {
	if s.failure == "" {
		s.failure = fmt.Sprintf(f, a...)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ = time.Second
