package main

import (
	"fmt"
	"strings"
	"time"
)

// Own names the part of the behaviour a property is responsible for: differences elsewhere belong
// to another property and only end the branch.
type Own struct {
	Facts []string // prefixes of fact keys
	Admit []string // message kinds whose acceptance or rejection is compared ("*": all)
	Halt  bool     // failing begin or end blockers
}

func (o Own) fact(k string) bool {
	for _, p := range o.Facts {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

func (o Own) admit(k string) bool { return in(o.Admit, "*") || in(o.Admit, k) }

// RMConf is one scenario over the restaking reference model.
type RMConf struct {
	Name    string
	Bal     map[string]string // users and their balances
	Users   []string
	Denoms  []string
	RDenoms []string // reward denoms: the scenario covers the rewards
	Setup   []Op
	Ops     []Op             // alphabet
	More    func(m *RM) []Op // state dependent part of the alphabet
	Own     Own
	Check   func(r *Run, s *State)
	// After is called after every accepted message, with the state before it.
	After func(r *Run, pre, s *State, o Op, out Outcome)
	Depth int
	// Loose: the model is used for the configuration only; the invariant Check alone decides.
	Loose bool
	Prep  func(app *App, s *State) // extra base state set up before Setup
	LV    bool                     // the scenario covers liquid vesting
}

// block ends a block and begins the next one some seconds later.
func block(secs uint32) Op { return Op{K: "block", ID: secs} }

// ticks is the same for a number of milliseconds.
func ticks(ms uint32) Op { return Op{K: "block", ID: ms / 1000, ID2: ms % 1000} }

// took is the time between the block of an operation and the next one.
func (o Op) took() time.Duration {
	if o.K == "block" {
		return time.Duration(o.ID)*time.Second + time.Duration(o.ID2)*time.Millisecond
	}
	return 5 * time.Second
}

func rm(s *State) *RM { return s.M.(*RM) }

// advance runs EndBlock at the current time and BeginBlock at the next height.
func advance(s *State, d time.Duration) (Outcome, string) {
	if o := s.App.EndBlock(s.Ctx()); !o.OK() {
		return o, "end block"
	}
	s.H++
	s.T = s.T.Add(d)
	if o := s.App.BeginBlock(s.Ctx()); !o.OK() {
		return o, "begin block"
	}
	return Outcome{}, ""
}

// errClass keeps the stable part of an error for signatures.
func errClass(o Outcome) string {
	e := o.String()
	var b strings.Builder
	for _, c := range e {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	out := b.String()
	if len(out) > 90 {
		out = out[:90]
	}
	return out
}

func (c *RMConf) step(r *Run, s *State, o Op) bool {
	if c.Loose {
		return c.looseStep(r, s, o)
	}
	m := rm(s)
	if o.K == "block" {
		m.EndBlock()
		out, where := advance(s, o.took())
		if !out.OK() {
			if c.Own.Halt {
				Fail("halt:"+where+":"+errClass(out), "%s fails, halting the chain: %s", where, out)
			}
			r.Count("pruned:halt")
			return false
		}
		m.BeginBlock(s.T.UnixMilli())
		r.Count("block")
		return c.compare(r, s, o)
	}
	if o.K == "price" {
		s.App.setPrice(s.Ctx(), o.S, int64(o.ID))
		m.RW.Price[o.S] = int64(o.ID)
		r.Count("price")
		return true
	}
	if o.K == "ids" { // the numbers of the next operator, service and pool
		ctx := s.Ctx()
		check(s.App.OperatorsKeeper.SetNextOperatorID(ctx, o.ID))
		check(s.App.ServicesKeeper.SetNextServiceID(ctx, o.ID))
		check(s.App.PoolsKeeper.SetNextPoolID(ctx, o.ID))
		m.NextOp, m.NextSv, m.NextPl = o.ID, o.ID, o.ID
		return true
	}
	var pre *State
	if c.After != nil {
		pre = s.Branch()
	}
	before := m.clone()
	want := m.Apply(o.plain())
	out := deliver(s, o)
	if want != out.OK() {
		if c.Own.admit(o.K) {
			Fail(fmt.Sprintf("admit:%s:%v", o.K, want), "%s should be %s, but the result is %s", o, map[bool]string{true: "accepted", false: "rejected"}[want], out)
		}
		r.Count("pruned:admit:" + o.K)
		return false
	}
	if !out.OK() {
		s.M = before
		r.Count(o.K + ":rejected")
		return false // nothing changed
	}
	r.Count(o.K + ":ok")
	if !c.compare(r, s, o) {
		return false
	}
	if c.After != nil {
		c.After(r, pre, s, o.plain(), out)
	}
	return true
}

// deliver executes a message, or the equivalent entry point, on the real code.
func deliver(s *State, o Op) Outcome {
	if o.K == "ibc" {
		return o.deliverIBC(s)
	}
	return s.App.Msg(s.Ctx(), o.Msg())
}

func (c *RMConf) looseStep(r *Run, s *State, o Op) bool {
	var out Outcome
	where := ""
	switch o.K {
	case "block":
		out, where = advance(s, o.took())
	case "price":
		s.App.setPrice(s.Ctx(), o.S, int64(o.ID))
	default:
		out = deliver(s, o)
	}
	if !out.OK() {
		if where != "" && c.Own.Halt {
			Fail("halt:"+where+":"+errClass(out), "%s fails, halting the chain: %s", where, out)
		}
		r.Count(o.K + ":rejected")
		return false
	}
	if o.K == "block" || o.K == "price" {
		r.Count(o.K)
	} else {
		r.Count(o.K + ":ok")
	}
	return true
}

func (c *RMConf) compare(r *Run, s *State, o Op) bool {
	if rm(s).RW != nil && !c.settle(r, s, o) {
		return false
	}
	d := diffFacts(rm(s).Facts(), ObserveRM(s.App, s.Ctx(), rm(s)))
	if len(d) == 0 {
		return true
	}
	for _, x := range d {
		if c.Own.fact(x.Key) {
			Fail("fact:"+strings.Split(x.Key, "/")[0]+":"+o.K, "after %s: %s should be %q but is %q", o, x.Key, x.Want, x.Got)
		}
	}
	r.Count("pruned:fact:" + strings.Split(d[0].Key, "/")[0])
	return false
}

// Root builds the initial state.
func (c *RMConf) root(r *Run, app *App) *State {
	s := &State{App: app, MS: app.GenesisStore(c.Bal), H: 1, T: genTime}
	m := NewRM(genTime)
	m.Users, m.Denoms = c.Users, c.Denoms
	if m.Users == nil {
		m.Users = sortedKeys(c.Bal)
	}
	if c.RDenoms != nil {
		m.RW = NewRW(c.RDenoms)
	}
	if c.LV {
		m.LV = NewLV()
	}
	for u, b := range c.Bal {
		for d, v := range amt(b) {
			if in(c.RDenoms, d) {
				m.RW.Bal[u] = m.RW.Bal[u].add(Amt{d: v})
			} else if c.RDenoms == nil || in(c.Denoms, d) {
				m.Bal[u] = m.Bal[u].add(Amt{d: v})
			}
		}
	}
	s.M = m
	if c.Prep != nil {
		c.Prep(app, s)
	}
	for _, o := range c.Setup {
		ok := c.step(r, s, o)
		if !ok {
			Fail("setup:"+o.K, "the setup step %s does not behave as specified", o)
		}
	}
	return s
}

func (c *RMConf) Scenario(r *Run) *Scenario {
	sc := &Scenario{Name: c.Name, Depth: c.Depth}
	var base *State
	sc.Root = func(app *App) *State {
		if base == nil {
			base = c.root(r, app)
		}
		return base.Branch()
	}
	sc.Actions = func(s *State) []Action {
		ops := c.Ops
		if c.More != nil {
			ops = append(append([]Op(nil), ops...), c.More(rm(s))...)
		}
		out := make([]Action, 0, len(ops))
		for _, o := range ops {
			out = append(out, Action{o.String(), func(n *State) bool { return c.step(r, n, o) }})
		}
		return out
	}
	if c.Check != nil {
		sc.Check = func(s *State) { c.Check(r, s) }
	}
	return sc
}

func (r *Run) RM(c *RMConf) {
	if c.Depth == 0 {
		c.Depth = 4
	}
	r.Explore(c.Scenario(r))
}

func ops(k string, users []string, mk func(u string) Op) []Op {
	var out []Op
	for _, u := range users {
		o := mk(u)
		o.K, o.U = k, u
		out = append(out, o)
	}
	return out
}

func secs(n uint32) time.Duration { return time.Duration(n) * time.Second }
