package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Model is the reference model carried along with an implementation state.
type Model interface {
	Clone() Model
	// Key distinguishes model states beyond what the stores show (history variables). May be "".
	Key() string
}

// State pairs an implementation state (the stores of the real application plus the block header)
// with the reference model state.
type State struct {
	App   *App
	MS    *MStore
	H     int64
	T     time.Time
	M     Model
	Depth int
	node  *node
	// notes written by the transition that led here (free-form, part of samples)
	Note string
}

func (s *State) Ctx() sdk.Context { return s.App.Ctx(s.MS, s.H, s.T) }

// Probe is a context over a throw-away branch of the state.
func (s *State) Probe() sdk.Context { return s.App.Ctx(s.MS.Branch(), s.H, s.T) }

func (s *State) Branch() *State {
	n := &State{App: s.App, MS: s.MS.Branch(), H: s.H, T: s.T, Depth: s.Depth, node: s.node}
	if s.M != nil {
		n.M = s.M.Clone()
	}
	return n
}

type node struct {
	parent *node
	act    string
}

func (n *node) path() []string {
	var out []string
	for ; n != nil && n.parent != nil; n = n.parent {
		out = append(out, n.act)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// Action is one transition of a scenario. Run executes it on the (already branched) state: the
// implementation and the model both move, and any disagreement is reported with s.Fail. It returns
// false when the successor must not be explored.
type Action struct {
	Name string
	Run  func(s *State) bool
}

// Scenario is one bounded state space.
type Scenario struct {
	Name    string
	Root    func(app *App) *State
	Actions func(s *State) []Action
	Check   func(s *State) // state invariants, run once per distinct state
	Depth   int
	Stores  []string // stores which make up state identity; nil means all
}

// Fail reports a violation. sig identifies the failing input, call site or history: it is what the
// known-findings file matches on.
func Fail(sig, format string, args ...any) {
	panic(violation{sig + "\x00" + fmt.Sprintf(format, args...)})
}

func (v violation) sig() string  { return strings.SplitN(v.msg, "\x00", 2)[0] }
func (v violation) text() string { return strings.SplitN(v.msg, "\x00", 2)[1] }

type Finding struct {
	Scenario string   `json:"scenario"`
	Path     []string `json:"path"`
	Sig      string   `json:"sig"`
	Msg      string   `json:"msg"`
}

// Stats of one scenario run.
type Stats struct {
	Scenario    string         `json:"scenario"`
	Depth       int            `json:"depth_bound"`
	DepthDone   int            `json:"depth_completed"`
	States      int64          `json:"states"`
	Transitions int64          `json:"transitions"`
	Actions     int            `json:"distinct_actions"`
	Rejected    int64          `json:"rejected_operations"`
	Outcomes    map[string]int `json:"-"`
	Complete    bool           `json:"complete"`
	WallS       float64        `json:"wall_s"`
	PerLayer    []int64        `json:"states_per_depth"`
}

// Run is one check run of a property.
type Run struct {
	Prop     string
	Tier     string
	App      *App
	Deadline time.Time
	Known    map[string]string // sig -> what
	KnownHit map[string]int
	Findings []Finding
	Stats    []Stats
	Enum     map[string]int64 // enumerations: name -> evaluations
	Samples  []any
	Notes    []string
	Cut      bool
	mu       sync.Mutex
	rejected int64
	outMu    sync.Mutex
	outcomes map[string]int64
	dry      bool // only count the explorations
	planned  int  // explorations of this run
	started  int
	maxKeep  int64
	trust    bool // a violation counts even if it does not appear again: the property is about just that
}

// slice opens the next exploration and returns its share of the time left. Unused time goes to the
// explorations that follow.
func (r *Run) slice() time.Time {
	left := r.planned - r.started
	r.started++
	if left < 1 {
		left = 1
	}
	return time.Now().Add(time.Until(r.Deadline) / time.Duration(left))
}

func (r *Run) Thorough() bool { return r.Tier == "thorough" }

// Pick chooses a bound by tier.
func (r *Run) Pick(quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

// Count records that an operation class had an outcome (for vacuity control).
func (r *Run) Count(k string) {
	r.outMu.Lock()
	r.outcomes[k]++
	r.outMu.Unlock()
}

type shard struct {
	mu sync.Mutex
	m  map[hash16]struct{}
}

type visited struct{ s [64]shard }

func newVisited() *visited {
	v := &visited{}
	for i := range v.s {
		v.s[i].m = map[hash16]struct{}{}
	}
	return v
}

func (v *visited) add(h hash16) bool {
	s := &v.s[h[0]&63]
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.m[h]; ok {
		return false
	}
	s.m[h] = struct{}{}
	return true
}

func (sc *Scenario) hash(s *State) hash16 {
	names := sc.Stores
	if names == nil {
		names = s.MS.Names()
	}
	extra := fmt.Sprintf("%d|%d|", s.H, s.T.UnixNano())
	if s.M != nil {
		extra += s.M.Key()
	}
	return s.MS.Hash(names, []byte(extra))
}

// guarded runs f and turns a violation panic into a value; any other panic is a harness error that
// is re-raised with the path that led to it.
func guarded(path func() []string, f func()) (v *violation) {
	defer func() {
		if rec := recover(); rec != nil {
			if vv, ok := rec.(violation); ok {
				v = &vv
				return
			}
			// A step which the specification guarantees to work did not (a query, a setup message...).
			txt := fmt.Sprint(rec)
			if os.Getenv("MC_STACK") != "" {
				txt += "\n" + string(debug.Stack())
			}
			v = &violation{"unexpected:" + errClass(Outcome{Panic: txt}) + "\x00unexpected failure: " + txt}
		}
	}()
	f()
	return nil
}

// Explore enumerates every sequence of actions of the scenario up to its depth bound, breadth
// first, merging states with identical stores, header and model.
func (r *Run) Explore(sc *Scenario) {
	if r.dry {
		r.planned++
		return
	}
	if replayOnly != nil {
		if replayOnly.Scenario == sc.Name {
			if v := r.replayPath(sc, replayOnly.Path); v != nil {
				r.Findings = append(r.Findings, Finding{sc.Name, replayOnly.Path, v.sig(), v.text()})
			} else {
				fmt.Println("  the recorded path no longer fails")
			}
		}
		return
	}
	t0 := time.Now()
	deadline := r.slice()
	st := Stats{Scenario: sc.Name, Depth: sc.Depth}
	seen := newVisited()
	var root *State
	if v := guarded(func() []string { return nil }, func() { root = sc.Root(r.App); root.node = &node{} }); v != nil {
		r.report(sc, nil, *v)
		r.Stats = append(r.Stats, st)
		return
	}
	seen.add(sc.hash(root))
	var states, transitions int64 = 1, 0
	actNames := sync.Map{}
	if sc.Check != nil {
		if v := guarded(func() []string { return nil }, func() { sc.Check(root) }); v != nil {
			r.report(sc, nil, *v)
		}
	}
	frontier := []*State{root}
	st.PerLayer = append(st.PerLayer, 1)
	complete := true
	workers := runtime.GOMAXPROCS(0)
	for d := 0; d < sc.Depth && len(frontier) > 0; d++ {
		var next []*State
		var nextMu sync.Mutex
		var idx int64 = -1
		var wg sync.WaitGroup
		var layerNew, kept int64
		cut := int32(0)
		last := d == sc.Depth-1
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				var local []*State
				for {
					i := atomic.AddInt64(&idx, 1)
					if i >= int64(len(frontier)) {
						break
					}
					if time.Now().After(deadline) || r.full() || atomic.LoadInt64(&kept) > r.maxKeep {
						atomic.StoreInt32(&cut, 1)
						break
					}
					s := frontier[i]
					for _, a := range sc.Actions(s) {
						n := s.Branch()
						n.Depth = d + 1
						n.node = &node{s.node, a.Name}
						keep := false
						atomic.AddInt64(&transitions, 1)
						actNames.Store(a.Name, true)
						v := guarded(n.node.path, func() { keep = a.Run(n) })
						if v != nil {
							r.report(sc, n.node.path(), *v)
							continue
						}
						if !keep {
							continue
						}
						if !seen.add(sc.hash(n)) {
							continue
						}
						c := atomic.AddInt64(&states, 1)
						atomic.AddInt64(&layerNew, 1)
						if c == 2 || c == 20 || c == 200 || c == 2000 || c == 20000 {
							r.sample(sc, n)
						}
						if sc.Check != nil {
							if v := guarded(n.node.path, func() { sc.Check(n) }); v != nil {
								r.report(sc, n.node.path(), *v)
								continue
							}
						}
						if !last {
							local = append(local, n)
							atomic.AddInt64(&kept, 1)
						}
					}
					frontier[i] = nil
				}
				nextMu.Lock()
				next = append(next, local...)
				nextMu.Unlock()
			}()
		}
		wg.Wait()
		st.PerLayer = append(st.PerLayer, layerNew)
		if cut != 0 {
			complete = false
			break
		}
		st.DepthDone = d + 1
		frontier = next
	}
	if complete && len(frontier) == 0 && st.DepthDone < sc.Depth {
		st.DepthDone = sc.Depth // fixpoint reached
	}
	st.States, st.Transitions = states, transitions
	st.Complete = complete
	actNames.Range(func(any, any) bool { st.Actions++; return true })
	st.WallS = time.Since(t0).Seconds()
	if !complete {
		r.Cut = true
	}
	r.Stats = append(r.Stats, st)
	fmt.Printf("  %-28s depth %d/%d  states %d  transitions %d  actions %d  %.1fs complete=%v\n", sc.Name, st.DepthDone, sc.Depth, states, transitions, st.Actions, st.WallS, complete)
}

func (r *Run) sample(sc *Scenario, s *State) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(r.Samples) < 12 {
		r.Samples = append(r.Samples, map[string]any{"scenario": sc.Name, "path": s.node.path(), "note": s.Note})
	}
}

func (r *Run) full() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return len(r.Findings) >= 3
}

func (r *Run) report(sc *Scenario, path []string, v violation) {
	r.mu.Lock()
	if _, ok := r.Known[v.sig()]; ok {
		r.KnownHit[v.sig()]++
		r.mu.Unlock()
		return
	}
	for _, f := range r.Findings {
		if f.Sig == v.sig() {
			r.mu.Unlock()
			return
		}
	}
	if len(r.Findings) >= 3 {
		r.mu.Unlock()
		return
	}
	r.mu.Unlock()
	// Re-execute the path from the root, alone, before believing it.
	if sc != nil {
		got := r.replayPath(sc, path)
		if (got == nil || got.sig() != v.sig()) && !r.trust {
			r.mu.Lock()
			r.Notes = append(r.Notes, fmt.Sprintf("not reproduced: %s %v %s", sc.Name, path, v.text()))
			r.mu.Unlock()
			return
		}
	}
	f := Finding{Path: path, Sig: v.sig(), Msg: v.text()}
	if sc != nil {
		f.Scenario = sc.Name
	}
	r.mu.Lock()
	r.Findings = append(r.Findings, f)
	r.mu.Unlock()
}

// replayPath runs a path and returns the violation it ends in, if any.
func (r *Run) replayPath(sc *Scenario, path []string) (out *violation) {
	var s *State
	if v := guarded(func() []string { return nil }, func() {
		s = sc.Root(r.App)
		s.node = &node{}
		if sc.Check != nil {
			sc.Check(s)
		}
	}); v != nil {
		return v
	}
	for i, name := range path {
		var act *Action
		for _, a := range sc.Actions(s) {
			if a.Name == name {
				act = &a
				break
			}
		}
		if act == nil {
			return nil
		}
		n := s.Branch()
		n.Depth = i + 1
		n.node = &node{s.node, name}
		v := guarded(n.node.path, func() {
			if act.Run(n) && sc.Check != nil {
				sc.Check(n)
			}
		})
		if v != nil {
			return v
		}
		s = n
	}
	return nil
}

// ForAll evaluates f on every index of an enumerated finite space, in parallel. describe(i) names
// the case.
func (r *Run) ForAll(name string, n int, describe func(i int) string, f func(i int)) {
	if r.dry {
		r.planned++
		return
	}
	if replayOnly != nil {
		if replayOnly.Scenario != "enum:"+name {
			return
		}
		for i := 0; i < n; i++ {
			if describe(i) != replayOnly.Path[0] {
				continue
			}
			if v := guarded(func() []string { return replayOnly.Path }, func() { f(i) }); v != nil {
				r.reportCase(name, describe(i), *v)
			} else {
				fmt.Println("  the recorded case no longer fails")
			}
		}
		return
	}
	t0 := time.Now()
	deadline := r.slice()
	var idx int64 = -1
	var done int64
	var wg sync.WaitGroup
	for w := 0; w < runtime.GOMAXPROCS(0); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := atomic.AddInt64(&idx, 1)
				if i >= int64(n) {
					return
				}
				if time.Now().After(deadline) || r.full() {
					r.mu.Lock()
					r.Cut = true
					r.mu.Unlock()
					return
				}
				v := guarded(func() []string { return []string{describe(int(i))} }, func() { f(int(i)) })
				atomic.AddInt64(&done, 1)
				if v != nil {
					r.reportCase(name, describe(int(i)), *v)
				}
			}
		}()
	}
	wg.Wait()
	r.mu.Lock()
	r.Enum[name] += done
	for _, k := range []int{0, n / 2, n - 1} {
		if n > 0 && len(r.Samples) < 12 {
			r.Samples = append(r.Samples, map[string]any{"enumeration": name, "case": describe(k)})
		}
	}
	r.mu.Unlock()
	fmt.Printf("  %-28s cases %d/%d  %.1fs\n", name, done, n, time.Since(t0).Seconds())
}

func (r *Run) reportCase(name, desc string, v violation) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if _, ok := r.Known[v.sig()]; ok {
		r.KnownHit[v.sig()]++
		return
	}
	for _, f := range r.Findings {
		if f.Sig == v.sig() {
			return
		}
	}
	if len(r.Findings) < 3 {
		r.Findings = append(r.Findings, Finding{Scenario: "enum:" + name, Path: []string{desc}, Sig: v.sig(), Msg: v.text()})
	}
}

// Property is one registered check.
type Property struct {
	ID          string
	Title       string
	Assumptions []string
	Run         func(r *Run)
	// Need lists outcome classes that must have been exercised; otherwise the check is vacuous.
	Need []string
}

var properties = map[string]*Property{}

func register(p *Property) { properties[p.ID] = p }

type knownEntry struct {
	Property string `json:"property"`
	Sig      string `json:"sig"`
	What     string `json:"what"`
	Fixed    string `json:"fixed,omitempty"`
}

func loadKnown(path, prop string) map[string]string {
	out := map[string]string{}
	bz, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	for _, line := range strings.Split(string(bz), "\n") {
		line = strings.TrimSpace(line)
		if line == "" || !strings.HasPrefix(line, "{") {
			continue
		}
		var e knownEntry
		if json.Unmarshal([]byte(line), &e) == nil && e.Property == prop && e.Fixed == "" && e.Sig != "" {
			out[e.Sig] = e.What
		}
	}
	return out
}

// Main runs one property and writes its evidence; returns the exit code.
func runProperty(id, tier string, seed int, verif, evidence string, budget time.Duration) int {
	p := properties[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "no such property %q\n", id)
		return 2
	}
	t0 := time.Now()
	debug.SetGCPercent(300)
	debug.SetMemoryLimit(20 << 30)
	app := NewApp()
	defer app.Close()
	r := &Run{
		Prop: id, Tier: tier, App: app, Deadline: t0.Add(budget),
		Known:    loadKnown(filepath.Join(verif, "known_findings.jsonl"), id),
		KnownHit: map[string]int{}, Enum: map[string]int64{}, outcomes: map[string]int64{},
	}
	fmt.Printf("%s (%s): %s\n", id, tier, p.Title)
	r.maxKeep = 1_500_000
	r.dry = true
	p.Run(r)
	r.dry = false
	if v := guarded(func() []string { return nil }, func() { p.Run(r) }); v != nil {
		// the preparation of an enumeration
		r.reportCase("setup", "the steps that prepare the enumeration", *v)
	}

	var states, trans, enum int64
	complete := !r.Cut
	for _, s := range r.Stats {
		states += s.States
		trans += s.Transitions
	}
	for _, n := range r.Enum {
		enum += n
	}
	// vacuity control: every outcome class the property depends on must have been reached
	var missing []string
	for _, k := range p.Need {
		if r.outcomes[k] == 0 {
			missing = append(missing, k)
		}
	}
	if len(missing) > 0 && complete && len(r.Findings) == 0 && replayOnly == nil {
		// every one of these is possible by the specification, within the bounds explored
		r.Findings = append(r.Findings, Finding{Scenario: "all", Sig: "never:" + missing[0],
			Msg: "never happens in the whole explored space, although it is specified to be possible: " + strings.Join(missing, ", ")})
	}
	if states == 0 {
		states = enum
	}
	if trans == 0 {
		trans = enum
	}
	cov := map[string]any{
		"states": states, "transitions": trans, "traces_validated_against_impl": trans + enumOnly(r, enum),
		"exhaustive": complete, "scenarios": r.Stats, "enumerations": r.Enum,
		"outcomes": r.outcomes, "samples": r.Samples,
		"rule": "every enabled action of the scenario is executed on the real application in every reachable state up to the depth bound; states are merged on identical stores, block header and model history",
	}
	if len(r.Samples) == 0 {
		cov["samples"] = []any{map[string]any{"note": "no sample recorded"}}
	}
	if len(r.Notes) > 0 {
		cov["notes"] = r.Notes
	}
	ev := map[string]any{
		"property": id, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": p.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": len(r.Findings),
	}
	if p.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if evidence != "" && replayOnly == nil {
		_ = os.MkdirAll(evidence, 0o755)
		bz, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(evidence, id+".json"), append(bz, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	for _, n := range r.Notes {
		fmt.Println("note:", n)
	}
	fmt.Printf("%s: states=%d transitions=%d cases=%d exhaustive=%v violations=%d wall=%.1fs\n", id, states, trans, enum, complete, len(r.Findings), time.Since(t0).Seconds())
	keys := make([]string, 0)
	for k := range r.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("    %-50s %d\n", k, r.outcomes[k])
	}
	for _, sig := range sortedKeys(r.KnownHit) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, r.Known[sig])
	}
	if len(r.Findings) > 0 {
		dir := filepath.Join(evidence, "replay")
		_ = os.MkdirAll(dir, 0o755)
		for i, f := range r.Findings {
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", id, i+1))
			bz, _ := json.MarshalIndent(map[string]any{"property": id, "tier": tier, "finding": f}, "", " ")
			_ = os.WriteFile(path, append(bz, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			fmt.Printf("  %s\n  scenario %s, after: %s\n", f.Msg, f.Scenario, strings.Join(f.Path, " ; "))
		}
		return 1
	}
	return 0
}

func enumOnly(r *Run, enum int64) int64 {
	if len(r.Stats) == 0 {
		return 0
	}
	return enum
}
