package mc

import (
	"fmt"
	"runtime"
	"strings"
	"time"
)

// Explorer enumerates the executions of one scenario.
type Explorer struct {
	Cfg      Config
	Body     func()
	cache    map[uint64]int8
	promoted map[uint32]bool
	newRace  bool
	prom     []bool

	// statistics
	Execs      int64
	Pruned     int64
	Points     int64
	MaxDepth   int
	States     int64
	Outcomes   map[string]int64
	BoundDone  int
	Complete   bool
	Deadline   time.Time
	DepthTrunc bool
	Samples    []string
	Rounds     int
	MaxCache   int
	DataCount  int64
}

func (e *Explorer) seen(sig uint64, left int) bool {
	if v, ok := e.cache[sig]; ok && int(v) >= left {
		return true
	}
	if len(e.cache) < e.MaxCache {
		e.cache[sig] = int8(left)
	}
	return false
}

func (e *Explorer) promotedSite(site uint32) bool {
	return int(site) < len(e.prom) && e.prom[site]
}

func (e *Explorer) addRace(a, b uint32) {
	if !e.promoted[a] || !e.promoted[b] {
		e.promoted[a] = true
		e.promoted[b] = true
		e.newRace = true
	}
}

func (e *Explorer) syncProm() {
	n := len(SiteNames) + 1
	e.prom = make([]bool, n)
	for k := range e.promoted {
		if int(k) < n {
			e.prom[k] = true
		}
	}
}

type Result struct {
	Trace   []dec
	Fail    *Failure
	Pruned  bool
	Outcome string
	Events  []Event
	Log     []string
	Now     int64
}

// run executes the body once following prefix.
func (e *Explorer) run(prefix, prefixN []uint8, verbose bool) *Result {
	genCounter++
	s := &Sched{
		gen:       genCounter,
		cfg:       &e.Cfg,
		finish:    make(chan struct{}, 1),
		exited:    make(chan struct{}, 1),
		prefix:    prefix,
		prefixN:   prefixN,
		ex:        e,
		exploring: true,
		shadows:   make(map[uintptrKey]*shadow),
		verbose:   verbose,
	}
	s.clk = s.newThread("clock", nil)
	s.cur = s.clk
	s.main = s.newThread("main", func() {
		s.noexp++
		for _, f := range resets {
			f()
		}
		s.noexp--
		e.Body()
	})
	s.cur = s.main
	S = s
	s.main.wake <- struct{}{}
	<-s.finish
	<-s.exited
	s.aborting = true
	for i := 0; i < len(s.threads); i++ {
		t := s.threads[i]
		if t == s.clk || t.done {
			continue
		}
		s.cur = t
		t.wake <- struct{}{}
		<-s.exited
	}
	S = nil
	e.Execs++
	if s.pruned {
		e.Pruned++
	}
	e.Points += int64(s.steps)
	if len(s.trace) > e.MaxDepth {
		e.MaxDepth = len(s.trace)
	}
	r := &Result{Trace: s.trace, Fail: s.fail, Pruned: s.pruned, Outcome: s.outcome.String(), Events: s.events, Now: s.now}
	if verbose {
		r.Log = s.log
	}
	return r
}

type item struct {
	c []uint8
	n []uint8
}

// Violation describes a failing execution.
type Violation struct {
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Choices  []int    `json:"choices"`
	Options  []int    `json:"options"`
	Promoted []string `json:"promoted"`
	Bound    int      `json:"bound"`
	Events   []string `json:"events"`
	Outcome  string   `json:"outcome"`
}

// Explore runs iterative deviation bounding up to e.Cfg.Bound.
func (e *Explorer) Explore() *Violation {
	if e.promoted == nil {
		e.promoted = map[uint32]bool{}
	}
	e.Defaults()
	e.Outcomes = map[string]int64{}
	max := e.Cfg.Bound
	e.BoundDone = -1
	for b := 0; b <= max; b++ {
		e.Cfg.Bound = b
		for {
			e.Rounds++
			e.newRace = false
			e.syncProm()
			v, complete := e.dfs()
			if v != nil {
				return v
			}
			if !complete {
				return nil
			}
			if !e.newRace {
				break
			}
		}
		e.BoundDone = b
	}
	e.Complete = true
	return nil
}

func (e *Explorer) dfs() (*Violation, bool) {
	e.cache = make(map[uint64]int8)
	stack := []item{{}}
	base := e.States
	defer func() {
		e.States = base
		if n := int64(len(e.cache)); n > e.States {
			e.States = n
		}
	}()
	cnt := 0
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		r := e.run(it.c, it.n, false)
		cnt++
		if r.Fail != nil {
			return e.violation(r), false
		}
		if !r.Pruned {
			if _, ok := e.Outcomes[r.Outcome]; ok || len(e.Outcomes) < 5000 {
				e.Outcomes[r.Outcome]++
			}
			if len(e.Samples) < 3 || (e.Execs&(e.Execs-1) == 0 && len(e.Samples) < 12) {
				e.Samples = append(e.Samples, sample(r))
			}
		}
		if e.newRace && cnt > 50 && e.Cfg.Bound > 0 {
			// restart early with the racy accesses as scheduling points
			return nil, true
		}
		k := len(it.c)
		if len(r.Trace) > k {
			cs := make([]uint8, len(r.Trace))
			ns := make([]uint8, len(r.Trace))
			for i, d := range r.Trace {
				cs[i], ns[i] = d.c, d.n
			}
			for i := len(r.Trace) - 1; i >= k; i-- {
				d := r.Trace[i]
				for alt := int(d.n) - 1; alt >= 1; alt-- {
					if int(d.spent)+d.altCost(alt) > e.Cfg.Bound {
						continue
					}
					c := make([]uint8, i+1)
					copy(c, cs[:i])
					c[i] = uint8(alt)
					stack = append(stack, item{c, ns[: i+1 : i+1]})
				}
			}
		}
		if cnt&15 == 0 && !e.Deadline.IsZero() && time.Now().After(e.Deadline) {
			return nil, len(stack) == 0
		}
	}
	return nil, true
}

func sample(r *Result) string {
	var b strings.Builder
	b.WriteString("choices=")
	for i, d := range r.Trace {
		if d.c != 0 {
			fmt.Fprintf(&b, "%d:%d/%d ", i, d.c, d.n)
		}
	}
	fmt.Fprintf(&b, "points=%d outcome=%s", len(r.Trace), r.Outcome)
	s := b.String()
	if len(s) > 600 {
		s = s[:600]
	}
	return s
}

func (e *Explorer) violation(r *Result) *Violation {
	v := &Violation{Kind: r.Fail.Kind, Msg: r.Fail.Msg, Bound: e.Cfg.Bound, Outcome: r.Outcome}
	for _, d := range r.Trace {
		v.Choices = append(v.Choices, int(d.c))
		v.Options = append(v.Options, int(d.n))
	}
	pm := map[string]bool{}
	for i, p := range e.prom {
		if p {
			pm[SiteName(uint32(i))] = true
		}
	}
	v.Promoted = sortedKeys(pm)
	for _, ev := range r.Events {
		v.Events = append(v.Events, fmt.Sprintf("T%d %s", ev.T, ev.String()))
	}
	return v
}

// Confirm replays a violation n times and reports whether it fails identically.
func (e *Explorer) Confirm(v *Violation, n int) error {
	c := make([]uint8, len(v.Choices))
	ns := make([]uint8, len(v.Options))
	for i := range c {
		c[i], ns[i] = uint8(v.Choices[i]), uint8(v.Options[i])
	}
	e.cache = map[uint64]int8{}
	e.Cfg.NoCache = true
	for i := 0; i < n; i++ {
		r := e.run(c, ns, false)
		if r.Fail == nil {
			return fmt.Errorf("replay %d did not fail", i)
		}
		if r.Fail.Kind != v.Kind || firstLine(r.Fail.Msg) != firstLine(v.Msg) {
			return fmt.Errorf("replay %d failed differently: %s %s", i, r.Fail.Kind, r.Fail.Msg)
		}
	}
	return nil
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Promote marks access sites (by name) as scheduling points.
func (e *Explorer) Promote(names []string) {
	if e.promoted == nil {
		e.promoted = map[uint32]bool{}
	}
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	for i, n := range SiteNames {
		if m[n] {
			e.promoted[uint32(i)] = true
		}
	}
	e.syncProm()
}

func (e *Explorer) PromotedNames() []string {
	pm := map[string]bool{}
	for k := range e.promoted {
		pm[SiteName(k)] = true
	}
	return sortedKeys(pm)
}

// Count reports n concrete cases enumerated inside the current execution.
func Count(n int64) {
	if S != nil && S.ex != nil {
		S.ex.DataCount += n
	}
}

var _ = runtime.NumCPU

// Defaults fills in unset configuration.
func (e *Explorer) Defaults() {
	if e.MaxCache == 0 {
		e.MaxCache = 6000000
	}
	if e.Cfg.MaxSteps == 0 {
		e.Cfg.MaxSteps = 20000
	}
	if e.Cfg.MaxLoops == 0 {
		e.Cfg.MaxLoops = 400000
	}
	if e.Cfg.Horizon == 0 {
		e.Cfg.Horizon = 120e9
	}
	if e.Cfg.Fair == 0 {
		e.Cfg.Fair = 150
	}
}

// Replay executes a violation once more with step logging.
func (e *Explorer) Replay(v *Violation) []string {
	c := make([]uint8, len(v.Choices))
	ns := make([]uint8, len(v.Options))
	for i := range c {
		c[i], ns[i] = uint8(v.Choices[i]), uint8(v.Options[i])
	}
	e.Cfg.NoCache = true
	r := e.run(c, ns, true)
	return r.Log
}
