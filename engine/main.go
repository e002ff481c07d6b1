// Command zcheck decides the properties of /verif/properties.jsonl for the
// current working tree of the repository: it rewrites the tree's packages so
// that every synchronisation operation, clock read, I/O operation and racy
// memory access goes through the model checker in rt/mc, builds the scenarios
// in rt/harness against them, and explores them.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) >= 5 && os.Args[1] == "gen" {
		g := &generator{repo: os.Args[2], verif: os.Args[3], out: os.Args[4]}
		if err := g.Generate(); err != nil {
			fmt.Println("ERR", err)
			os.Exit(2)
		}
		return
	}
	if len(os.Args) >= 6 && os.Args[1] == "run" {
		os.Exit(runCheck(os.Args[2], os.Args[3], os.Args[4], os.Args[5], os.Args[6:]))
	}
	fmt.Println("usage: zcheck gen REPO VERIF OUT | zcheck run REPO VERIF PROPERTY TIER [scenario-substring]")
	os.Exit(2)
}

type listed struct {
	Prop, Name string
	Q, T       bool
	Weight     int
	Bounds     string
}

type violation struct {
	Kind     string   `json:"kind"`
	Msg      string   `json:"msg"`
	Choices  []int    `json:"choices"`
	Options  []int    `json:"options"`
	Promoted []string `json:"promoted"`
	Bound    int      `json:"bound"`
	Events   []string `json:"events"`
	Outcome  string   `json:"outcome"`
}

type result struct {
	Name      string           `json:"name"`
	Prop      string           `json:"prop"`
	Bounds    string           `json:"bounds"`
	Bound     int              `json:"bound"`
	BoundDone int              `json:"bound_done"`
	Complete  bool             `json:"complete"`
	Execs     int64            `json:"execs"`
	Pruned    int64            `json:"pruned"`
	Points    int64            `json:"points"`
	States    int64            `json:"states"`
	Data      int64            `json:"data"`
	MaxDepth  int              `json:"max_depth"`
	Rounds    int              `json:"rounds"`
	Outcomes  int              `json:"outcomes"`
	OutTop    map[string]int64 `json:"outcome_samples"`
	Samples   []string         `json:"samples"`
	Promoted  []string         `json:"promoted"`
	Seconds   float64          `json:"seconds"`
	Viol      *violation       `json:"violation"`
	Confirmed bool             `json:"confirmed"`
	ConfErr   string           `json:"confirm_error"`
	Err       string           `json:"error"`
	ReplayLog []string         `json:"replay_log"`
	crash     string
}

type finding struct{ prop, scenario, match, text string }

// loadFindings reads /verif/known_findings.txt.  A suppressing line is
//
//	finding: property=<id> scenario=<name> match=<quoted substring of the failure> <what fails>
//
// lines starting with "fixed:" are history and suppress nothing.
func loadFindings(verif string) ([]finding, error) {
	raw, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	if err != nil {
		return nil, err
	}
	var out []finding
	for _, l := range strings.Split(string(raw), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: ")
		var f finding
		for _, k := range []string{"property=", "scenario="} {
			if !strings.HasPrefix(rest, k) {
				return nil, fmt.Errorf("bad known finding: %s", l)
			}
			i := strings.IndexByte(rest, ' ')
			if i < 0 {
				return nil, fmt.Errorf("bad known finding: %s", l)
			}
			v := rest[len(k):i]
			if k == "property=" {
				f.prop = v
			} else {
				f.scenario = v
			}
			rest = rest[i+1:]
		}
		if !strings.HasPrefix(rest, "match=") {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		q, err := strconv.QuotedPrefix(rest[6:])
		if err != nil {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		f.match, _ = strconv.Unquote(q)
		f.text = strings.TrimSpace(rest[6+len(q):])
		if f.match == "" || f.scenario == "" {
			return nil, fmt.Errorf("bad known finding: %s", l)
		}
		out = append(out, f)
	}
	return out, nil
}

func runCheck(repo, verif, prop, tier string, filter []string) int {
	t0 := time.Now()
	finds, err := loadFindings(verif)
	if err != nil {
		fmt.Println("error:", err)
		return 2
	}
	tmp := os.Getenv("ZCHECK_KEEP")
	if tmp == "" {
		tmp, err = os.MkdirTemp("", "zcheck-")
		if err != nil {
			fmt.Println("error:", err)
			return 2
		}
		defer os.RemoveAll(tmp)
	} else {
		os.RemoveAll(filepath.Join(tmp, "src"))
		os.MkdirAll(tmp, 0o755)
	}
	src := filepath.Join(tmp, "src")
	g := &generator{repo: repo, verif: verif, out: src}
	if err := g.Generate(); err != nil {
		fmt.Println("error: rewriting the tree:", err)
		return 2
	}
	bin := filepath.Join(tmp, "harness")
	cmd := exec.Command("go", "build", "-trimpath", "-o", bin, "./zzmc/harness")
	cmd.Dir = src
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOWORK=off")
	if o, err := cmd.CombinedOutput(); err != nil {
		fmt.Printf("error: building the harness: %v\n%s\n", err, o)
		return 2
	}
	buildS := time.Since(t0).Seconds()
	o, err := exec.Command(bin, "list").Output()
	if err != nil {
		fmt.Println("error: listing scenarios:", err)
		return 2
	}
	var all []listed
	if err := json.Unmarshal(o, &all); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	var todo []listed
	for _, l := range all {
		if (prop == l.Prop || prop == "ALL") && (tier == "quick" && l.Q || tier == "thorough" && l.T) {
			ok := len(filter) == 0
			for _, f := range filter {
				if strings.Contains(l.Name, f) {
					ok = true
				}
			}
			if ok {
				todo = append(todo, l)
			}
		}
	}
	if len(todo) == 0 {
		fmt.Println("error: no scenarios for", prop)
		return 2
	}
	sort.SliceStable(todo, func(i, j int) bool { return todo[i].Weight > todo[j].Weight })
	// every scenario has its own deadline; the whole run one as well
	per, whole := 240.0, 480.0
	if tier == "thorough" {
		per, whole = 3000.0, 10000.0
	}
	if v := os.Getenv("ZCHECK_PER"); v != "" {
		per, _ = strconv.ParseFloat(v, 64)
	}
	if v := os.Getenv("ZCHECK_WHOLE"); v != "" {
		whole, _ = strconv.ParseFloat(v, 64)
	}
	end := time.Now().Add(time.Duration(whole * float64(time.Second)))
	results := make([]*result, len(todo))
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	for i := range todo {
		wg.Add(1)
		sem <- struct{}{}
		go func(i int) {
			defer wg.Done()
			defer func() { <-sem }()
			lim := time.Until(end).Seconds()
			if lim > per {
				lim = per
			}
			if lim < 1 {
				results[i] = &result{Name: todo[i].Name, Bounds: todo[i].Bounds, BoundDone: -1, Err: "not started: the check's time budget was used up"}
				return
			}
			results[i] = runOne(bin, todo[i].Name, tier, lim)
			if os.Getenv("ZCHECK_VERBOSE") != "" {
				r := results[i]
				st := "ok"
				if r.Viol != nil {
					st = "VIOL"
				} else if r.Err != "" || !r.Complete {
					st = "partial"
				}
				fmt.Fprintf(os.Stderr, "%-7s %-34s execs=%d pruned=%d states=%d points=%d data=%d depth=%d rounds=%d bound=%d/%d outcomes=%d %.1fs %s\n", st, r.Name, r.Execs, r.Pruned, r.States, r.Points, r.Data, r.MaxDepth, r.Rounds, r.BoundDone, r.Bound, r.Outcomes, r.Seconds, r.Err)
			}
		}(i)
	}
	wg.Wait()
	code := 0
	nviol := 0
	exhaustive := true
	var states, trans, execs, pruned, dataN int64
	var samples []interface{}
	var scen []interface{}
	var notes []string
	for _, r := range results {
		states += r.States
		trans += r.Points
		execs += r.Execs - r.Pruned
		pruned += r.Pruned
		dataN += r.Data
		if !r.Complete {
			exhaustive = false
		}
		known := ""
		if r.Viol != nil {
			for _, f := range finds {
				if f.prop == r.Prop && f.scenario == r.Name && strings.Contains(r.Viol.Kind+": "+r.Viol.Msg, f.match) {
					known = f.text
				}
			}
		}
		switch {
		case r.Viol != nil && known != "":
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.Prop, known)
		case r.Viol != nil && (r.Confirmed || r.crash != ""):
			nviol++
			code = 1
			dir := filepath.Join(verif, "replays", r.Prop)
			os.MkdirAll(dir, 0o755)
			p := filepath.Join(dir, strings.Map(func(c rune) rune {
				if c == '/' || c == ' ' {
					return '_'
				}
				return c
			}, r.Name)+".json")
			lg := r.ReplayLog
			if len(lg) > 3000 {
				lg = lg[len(lg)-3000:]
			}
			rec := map[string]interface{}{"scenario": r.Name, "property": r.Prop, "tier": tier, "violation": r.Viol, "steps": lg}
			j, _ := json.MarshalIndent(rec, "", " ")
			os.WriteFile(p, j, 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", r.Prop, p)
			fmt.Printf("  scenario %s, %s: %s\n", r.Name, r.Viol.Kind, indent(r.Viol.Msg))
			if len(r.Viol.Events) > 0 {
				ev := r.Viol.Events
				if len(ev) > 60 {
					ev = ev[len(ev)-60:]
				}
				fmt.Printf("  events: %s\n", strings.Join(ev, " | "))
			}
		case r.Viol != nil:
			exhaustive = false
			notes = append(notes, fmt.Sprintf("%s: a failure was not reproduced and is not reported (%s): %s", r.Name, r.ConfErr, r.Viol.Msg))
			fmt.Printf("inconclusive: scenario %s: failure not reproducible: %s\n  was: %s %s\n", r.Name, r.ConfErr, r.Viol.Kind, indent(r.Viol.Msg))
		case r.Err != "":
			exhaustive = false
			notes = append(notes, r.Name+": "+r.Err)
			fmt.Printf("inconclusive: scenario %s: %s\n", r.Name, r.Err)
		}
		for i, s := range r.Samples {
			if i < 2 {
				samples = append(samples, map[string]string{"scenario": r.Name, "execution": s})
			}
		}
		scen = append(scen, map[string]interface{}{
			"scenario": r.Name, "bounds": r.Bounds, "deviation_bound": r.Bound, "deviation_bound_completed": r.BoundDone, "complete": r.Complete,
			"executions": r.Execs, "cut_at_known_state": r.Pruned, "distinct_states": r.States, "scheduling_points": r.Points, "inputs_enumerated": r.Data,
			"max_choice_depth": r.MaxDepth, "distinct_outcomes": r.Outcomes, "outcomes": r.OutTop, "racy_access_sites_explored": len(r.Promoted), "seconds": round(r.Seconds),
		})
	}
	if prop == "ALL" || len(filter) > 0 {
		fmt.Printf("%s %s: %d scenarios, %d violations, %.1fs\n", prop, tier, len(results), nviol, time.Since(t0).Seconds())
		return code
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states":                        states,
			"transitions":                   trans,
			"traces_validated_against_impl": execs,
			"samples":                       samples,
			"exhaustive":                    exhaustive,
			"executions_cut_at_known_state": pruned,
			"inputs_enumerated":             dataN,
			"scenarios":                     scen,
			"explanation": "Stateless model checking of the implementation itself: every execution counted in traces_validated_against_impl ran the repository's current code (rewritten so that the scheduler, clock, network and file system are under control) to its end and was judged by the oracle. states = distinct happens-before state signatures at choice points, transitions = scheduling points executed, inputs_enumerated = concrete inputs or operation sequences enumerated inside executions. exhaustive means every scenario finished its deviation bound.",
		},
		"assumptions": []string{
			"sequentially consistent interleavings at synchronisation operations and at every memory access found to race",
			"deviation bound per scenario as listed; values outside the listed alphabets are not covered",
			"network, WebSocket, KCP, HTTP, file system, clock, randomness are in-memory stand-ins with the semantics described in DESIGN.md",
		},
		"wall_s": round(time.Since(t0).Seconds()), "violations": nviol, "build_s": round(buildS), "notes": notes,
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	j, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(j, '\n'), 0o644); err != nil {
		fmt.Println("error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d scenarios, %d executions, %d states, %d transitions, exhaustive=%v, %d violations, %.1fs\n", prop, tier, len(results), execs, states, trans, exhaustive, nviol, time.Since(t0).Seconds())
	return code
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func indent(s string) string { return strings.ReplaceAll(strings.TrimSpace(s), "\n", "\n    ") }

func runOne(bin, name, tier string, lim float64) *result {
	var last *result
	for try := 0; try < 2; try++ {
		cmd := exec.Command(bin, "run", name, tier, fmt.Sprint(lim))
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single", "GOMEMLIMIT=3GiB")
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		t0 := time.Now()
		if err := cmd.Start(); err != nil {
			return &result{Name: name, BoundDone: -1, Err: err.Error()}
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		timedOut := false
		select {
		case err = <-done:
		case <-time.After(time.Duration((lim + 60) * float64(time.Second))):
			timedOut = true
			cmd.Process.Kill()
			<-done
		}
		if timedOut {
			return &result{Name: name, BoundDone: -1, Err: "one execution did not end within the time limit", Seconds: time.Since(t0).Seconds()}
		}
		r := &result{}
		if err == nil {
			if e := json.Unmarshal(so.Bytes(), r); e == nil {
				return r
			} else {
				return &result{Name: name, BoundDone: -1, Err: "bad output: " + e.Error()}
			}
		}
		msg := se.String()
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		last = &result{Name: name, BoundDone: -1, Err: "the harness process ended: " + err.Error() + "\n" + msg}
		// A crash that Go code cannot recover from is a violation if it comes back.
		if strings.Contains(msg, "stack overflow") || strings.Contains(msg, "goroutine stack exceeds") {
			if try == 1 {
				last.Prop = strings.SplitN(name, "/", 2)[0]
				last.crash = msg
				last.Viol = &violation{Kind: "crash", Msg: msg}
				last.Err = ""
			}
			continue
		}
		return last
	}
	return last
}
