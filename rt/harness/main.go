// Command harness explores the scenarios that decide the properties.  It is
// compiled against the rewritten packages, see /verif/engine.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/aceld/zinx/zzmc/mc"
)

// Scenario is a closed driver around the code plus its oracle.
type Scenario struct {
	Prop string // property decided
	Name string
	// Q and T are the configurations of the quick and thorough tiers; a nil T
	// means the same as Q, a nil Q means thorough only.
	Q, T   *mc.Config
	Body   func()
	Weight int // rough cost, larger runs earlier
	Bounds string
}

var scenarios []*Scenario

func add(s *Scenario) {
	for _, o := range scenarios {
		if o.Name == s.Name {
			panic("duplicate scenario " + s.Name)
		}
	}
	scenarios = append(scenarios, s)
}

// b is a configuration with deviation bound n.
func b(n int) *mc.Config { return &mc.Config{Bound: n, SelDev: true} }

// bf also explores all switches at blocking operations for free.
func bf(n int) *mc.Config { return &mc.Config{Bound: n, SelDev: true, FreeSwitch: true} }

// bc also lets timers fire early relative to running threads.
func bc(n int) *mc.Config { return &mc.Config{Bound: n, SelDev: true, ClockDev: true} }

// data is a purely sequential enumeration of inputs.
func data() *mc.Config {
	return &mc.Config{Bound: 0, NoCache: true, MaxSteps: 200000, MaxLoops: 4000000}
}

type runOut struct {
	Name      string           `json:"name"`
	Prop      string           `json:"prop"`
	Bounds    string           `json:"bounds"`
	Bound     int              `json:"bound"`
	BoundDone int              `json:"bound_done"`
	Complete  bool             `json:"complete"`
	Execs     int64            `json:"execs"`
	Pruned    int64            `json:"pruned"`
	Points    int64            `json:"points"`
	States    int64            `json:"states"`
	Data      int64            `json:"data"`
	MaxDepth  int              `json:"max_depth"`
	Rounds    int              `json:"rounds"`
	Outcomes  int              `json:"outcomes"`
	OutTop    map[string]int64 `json:"outcome_samples"`
	Samples   []string         `json:"samples"`
	Promoted  []string         `json:"promoted"`
	Seconds   float64          `json:"seconds"`
	Viol      *mc.Violation    `json:"violation,omitempty"`
	Confirmed bool             `json:"confirmed"`
	ConfErr   string           `json:"confirm_error,omitempty"`
	Err       string           `json:"error,omitempty"`
	ReplayLog []string         `json:"replay_log,omitempty"`
}

func find(name string) *Scenario {
	for _, s := range scenarios {
		if s.Name == name {
			return s
		}
	}
	return nil
}

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		fmt.Println("usage: harness list | run NAME TIER SECONDS | replay FILE")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "list":
		type li struct {
			Prop, Name string
			Q, T       bool
			Weight     int
			Bounds     string
		}
		var out []li
		for _, s := range scenarios {
			out = append(out, li{s.Prop, s.Name, s.Q != nil, s.Q != nil || s.T != nil, s.Weight, s.Bounds})
		}
		json.NewEncoder(os.Stdout).Encode(out)
	case "run":
		sec, _ := strconv.ParseFloat(os.Args[4], 64)
		out := runScenario(os.Args[2], os.Args[3], time.Duration(sec*float64(time.Second)), os.Args[5:]...)
		json.NewEncoder(os.Stdout).Encode(out)
	case "replay":
		replay(os.Args[2])
	default:
		os.Exit(2)
	}
}

func runScenario(name, tier string, limit time.Duration, opt ...string) *runOut {
	sc := find(name)
	if sc == nil {
		return &runOut{Name: name, Err: "no such scenario"}
	}
	cfg := sc.Q
	if tier == "thorough" && sc.T != nil {
		cfg = sc.T
	}
	c := *cfg
	for _, o := range opt {
		if strings.HasPrefix(o, "bound=") {
			c.Bound, _ = strconv.Atoi(o[6:])
		}
	}
	t0 := time.Now()
	e := &mc.Explorer{Cfg: c, Body: sc.Body, Deadline: t0.Add(limit)}
	v := e.Explore()
	out := &runOut{Name: sc.Name, Prop: sc.Prop, Bounds: sc.Bounds, Bound: c.Bound, BoundDone: e.BoundDone, Complete: e.Complete,
		Execs: e.Execs, Pruned: e.Pruned, Points: e.Points, States: e.States, Data: e.DataCount, MaxDepth: e.MaxDepth, Rounds: e.Rounds,
		Outcomes: len(e.Outcomes), Samples: e.Samples, Promoted: e.PromotedNames(), Viol: v}
	if v != nil {
		if v.Kind == "divergence" {
			out.Err = "the harness is nondeterministic: " + v.Msg
			out.Viol = nil
		} else if err := e.Confirm(v, 5); err != nil {
			out.ConfErr = err.Error() + " (it was " + v.Kind + ": " + v.Msg + ")"
		} else {
			out.Confirmed = true
			out.ReplayLog = e.Replay(v)
		}
	}
	if v == nil && e.Complete && len(e.Outcomes) == 0 {
		out.Err = "vacuous: no execution ended"
		out.Complete = false
	}
	type kv struct {
		k string
		n int64
	}
	var l []kv
	for k, n := range e.Outcomes {
		l = append(l, kv{k, n})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n || l[i].n == l[j].n && l[i].k < l[j].k })
	out.OutTop = map[string]int64{}
	for i, x := range l {
		if i >= 12 {
			break
		}
		k := x.k
		if len(k) > 300 {
			k = k[:300]
		}
		out.OutTop[k] = x.n
	}
	out.Seconds = time.Since(t0).Seconds()
	return out
}

// replay re-executes a recorded violation step by step.
func replay(file string) {
	raw, err := os.ReadFile(file)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var rec struct {
		Scenario  string        `json:"scenario"`
		Tier      string        `json:"tier"`
		Violation *mc.Violation `json:"violation"`
	}
	if err := json.Unmarshal(raw, &rec); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	sc := find(rec.Scenario)
	cfg := sc.Q
	if cfg == nil || rec.Tier == "thorough" && sc.T != nil {
		cfg = sc.T
	}
	c := *cfg
	c.Bound = rec.Violation.Bound
	e := &mc.Explorer{Cfg: c, Body: sc.Body}
	e.Defaults()
	e.Promote(rec.Violation.Promoted)
	err = e.Confirm(rec.Violation, 1)
	for _, l := range e.Replay(rec.Violation) {
		fmt.Println(l)
	}
	if err != nil {
		fmt.Println("replay:", err)
		os.Exit(0)
	}
	fmt.Println("replay: reproduced", rec.Violation.Kind+":", rec.Violation.Msg)
	os.Exit(1)
}
