package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"strings"

	storetypes "cosmossdk.io/store/types"

	errorsmod "cosmossdk.io/errors"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	"github.com/milkyway-labs/milkyway/v3/verifmc/vdet"
)

// Every transition is executed several times on the same state: by another instance of the application with
// another past, and with other orders of the maps, another clock and other random numbers. What a block commits to
// (stores, codes, data, gas, validator updates) must be the same.

// fixed is what the nodes have to agree on after a step.
type fixed struct {
	stores hash16
	result string
}

// execute runs an operation as a node does.
func (c *RMConf) execute(s *State, o Op) (res string, ok bool) {
	switch o.K {
	case "price":
		s.App.setPrice(s.Ctx(), o.S, int64(o.ID))
		return "", true
	case "block":
		var eb any
		err, pan := catch(func() error {
			x, err := s.App.EndBlocker(s.Ctx())
			eb = x.ValidatorUpdates
			return err
		})
		if err != nil || pan != "" {
			return "end block fails", false
		}
		s.H++
		s.T = s.T.Add(o.took())
		err, pan = catch(func() error {
			_, err := s.App.BeginBlocker(s.Ctx())
			return err
		})
		if err != nil || pan != "" {
			return "begin block fails", false
		}
		return fmt.Sprint(eb), true
	case "ibc":
		out := deliver(s, o)
		return fmt.Sprint(out.OK(), code(out)), out.OK()
	}
	ctx := s.Ctx().WithGasMeter(storetypes.NewInfiniteGasMeter())
	out := s.App.Msg(ctx, o.Msg())
	data := ""
	if out.OK() && out.Result != nil {
		data = hex.EncodeToString(out.Result.Data)
	}
	return fmt.Sprintf("%s gas %d data %s", code(out), ctx.GasMeter().GasConsumed(), data), out.OK()
}

// committed are the stores which make up the application hash.
func committed(ms *MStore) (out []string) {
	for _, n := range ms.Names() {
		if !strings.HasPrefix(n, "memory:") && !strings.HasPrefix(n, "transient_") {
			out = append(out, n)
		}
	}
	return
}

func code(o Outcome) string {
	if o.Panic != "" {
		return "panic"
	}
	if o.Err == nil {
		return "ok"
	}
	space, n, _ := errorsmod.ABCIInfo(o.Err, false)
	return fmt.Sprintf("%s/%d", space, n)
}

// settings are the ways in which a step is executed: which application, and which order of maps.
type setting struct {
	second bool
	order  int
}

func (c *RMConf) agree(r *Run, s *State, o Op, second *App, all []setting) bool {
	run := func(n *State, set setting) (f fixed, ok bool) {
		app := n.App
		if set.second {
			n.App = second
		}
		vdet.With(set.order, func() { f.result, ok = c.execute(n, o) })
		n.App = app
		f.stores = n.MS.Hash(committed(n.MS), nil)
		return
	}
	pre := s.Branch()
	want, ok := run(s, setting{})
	for _, set := range all {
		n := pre.Branch()
		got, _ := run(n, set)
		who := fmt.Sprintf("by another node, with the order %d of maps,", set.order)
		if got.result != want.result {
			Fail("differs:result:"+o.K, "%s executed %s gives %q instead of %q", o, who, got.result, want.result)
		}
		if got.stores != want.stores {
			for _, name := range committed(s.MS) {
				if a, b := s.MS.Hash([]string{name}, nil), n.MS.Hash([]string{name}, nil); a != b {
					Fail("differs:"+name+":"+o.K, "%s executed %s leads to another state of %s", o, who, name)
				}
			}
		}
	}
	if !ok {
		r.Count(o.K + ":rejected")
		return false
	}
	if o.K == "block" || o.K == "price" {
		r.Count(o.K)
	} else {
		r.Count(o.K + ":ok")
	}
	return true
}

func (r *Run) Deterministic(c *RMConf, second *App, all []setting) {
	sc := c.Scenario(r)
	sc.Actions = func(s *State) []Action {
		out := make([]Action, 0, len(c.Ops))
		for _, o := range c.Ops {
			out = append(out, Action{o.String(), func(n *State) bool { return c.agree(r, n, o, second, all) }})
		}
		return out
	}
	sc.Check = func(s *State) {
		if s.Depth > r.Pick(1, 2) {
			return
		}
		// what is exported, what an import of it does, and what the invariants find
		var want, wantImport string
		for i, set := range append([]setting{{}}, all...) {
			n := s.Branch()
			if set.second {
				n.App = second
			}
			var got, imp string
			vdet.With(set.order, func() {
				g := n.App.mustExport(n)
				bz, err := json.Marshal(g)
				check(err)
				got = string(bz)
				for _, m := range ourModules {
					n.MS.Clear(m)
				}
				if err := n.App.importModules(n.Ctx(), g); err != nil {
					imp = "refused"
				} else {
					h := n.MS.Hash(ourModules, nil)
					imp = hex.EncodeToString(h[:])
				}
				for k, v := range invariants(n.App, s.Branch().Ctx()) {
					imp += fmt.Sprint(len(k) * map[bool]int{true: 1}[v == ""])
				}
			})
			if i == 0 {
				want, wantImport = got, imp[:min(len(imp), 32)]
				r.Count("export")
				continue
			}
			if got != want {
				Fail("differs:export", "the state exported with the order %d of maps differs", set.order)
			}
			if imp[:min(len(imp), 32)] != wantImport {
				Fail("differs:import", "the state imported with the order %d of maps differs", set.order)
			}
		}
	}
	r.Explore(sc)
}

func init() {
	register(&Property{
		ID: "C33", Title: "Nodes executing the same blocks commit to the same state and results",
		Assumptions: []string{"sources of disagreement within the Go runtime, the Cosmos SDK, IBC, the oracle and the virtual machine of contracts are not looked for", "goroutines and floating point arithmetic in the code of the repository are not explored (there are none on the paths of a block)",
			"the same order is applied to all maps of the same size during a step"},
		Need: []string{"block", "export", "plan:ok", "und_op:ok", "und_pool:ok", "prefs:ok", "burn:ok", "delete_op:ok", "start"},
		Run: func(r *Run) {
			r.trust = true
			orders := r.Pick(3, 6) // up to the number of permutations of three elements
			var all []setting
			for i := 0; i <= orders; i++ {
				all = append(all, setting{i%2 == 0, i})
			}
			var second *App
			if !r.dry {
				second = NewApp()
				defer second.Close()
				second.GenesisStore(rwBal)
				if !vdet.Instrumented {
					r.Notes = append(r.Notes, "the code is not instrumented: the order of maps is the runtime's choice")
					r.Cut = true
				}
			}
			// building the application and starting the chain
			starts := make([]hash16, 6)
			r.ForAll("start of the chain", 6, func(i int) string { return fmt.Sprintf("order %d of maps", i) }, func(i int) {
				sum := func(k int) (out hash16) {
					vdet.With(k, func() {
						a := NewApp()
						defer a.Close()
						ms := a.GenesisStore(rwBal)
						h := ms.Hash(committed(ms), nil)
						gen, err := json.Marshal(milkyway.NewDefaultGenesisState(a.AppCodec(), a.ModuleBasics))
						check(err)
						g := sha256.Sum256(append(gen, h[:]...))
						copy(out[:], g[:])
					})
					return
				}
				starts[i] = sum(i)
				if i > 0 {
					if first := sum(0); !bytes.Equal(first[:], starts[i][:]) {
						Fail("differs:start", "a chain started with the order %d of maps has another state", i)
					}
				}
				r.Count("start")
			})
			three := rwSetup(always, append(trio(), Op{K: "accredit", U: "gov", ID: 1})...)
			c := loose("three of everything", r.Pick(3, 4), three, trioOps, nil)
			c.Bal = trioBal
			r.Deterministic(c, second, all)
			r.Deterministic(loose("everything", r.Pick(3, 4), everything(always), systemOps, nil), second, all)
			r.Deterministic(loose("references", r.Pick(3, 4), refsSetup(), refsOps, nil), second, all)
			r.Deterministic(looseLV("liquid vesting", r.Pick(3, 4), lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil), second, all)
		},
	})
}

var trioBal = map[string]string{"u1": "6tka,6tkb,6tkc", "u2": "6tka,6tkb,6tkc", "z": "2tka,2tkb,2tkc", "oa": "", "ob": "", "sa": "", "sx": "", "f": "100000000000rwd,100000000000rwx"}

// trio: three pools, three operators, three services, three delegators and two reward denoms.
func trio() []Op {
	return []Op{
		{K: "asset", U: "gov", ID: 2, S: "tkc|TKC"}, {K: "price", S: "TKC", ID: 7}, {K: "del_pool", U: "z", A: "1tkc"},
		{K: "register_op", U: "ob", S: "op two|w|p"}, {K: "register_op", U: "oa", S: "op three|w|p"},
		{K: "create_svc", U: "sx", S: "svc two|d|w|p"}, {K: "activate_svc", U: "sx", ID: 2}, {K: "create_svc", U: "sa", S: "svc three|d|w|p"}, {K: "activate_svc", U: "sa", ID: 3},
		{K: "borrow", U: "sa", ID: 1, ID2: 3}, {K: "borrow", U: "sx", ID: 2, ID2: 1}, {K: "borrow", U: "sx", ID: 2, ID2: 2}, {K: "borrow", U: "sx", ID: 2, ID2: 3},
		{K: "join", U: "ob", ID: 2, ID2: 1}, {K: "join", U: "oa", ID: 3, ID2: 1}, {K: "join", U: "oa", ID: 1, ID2: 2}, {K: "join", U: "ob", ID: 2, ID2: 2}, {K: "join", U: "oa", ID: 3, ID2: 2},
		{K: "plan", U: "sx", ID: 2, A: "86400000000rwd,86400000000rwx", S: "0,100000|w1:1=1;2=2;3=3|w1:1=1;2=2;3=3|b1"}, {K: "fund", U: "f", ID: 2, A: "2000000000rwd,2000000000rwx"},
		{K: "accredit", U: "gov", ID: 2}, {K: "params_op", U: "oa", ID: 1, S: "0.1"}, {K: "params_op", U: "ob", ID: 2, S: "0.3"},
		{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u1", A: "1tkb"}, {K: "del_pool", U: "u1", A: "1tkc"}, {K: "del_pool", U: "u2", A: "2tka"}, {K: "del_pool", U: "u2", A: "1tkc"},
		{K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb,1tkc"}, {K: "del_op", U: "u1", ID: 2, A: "1tka"}, {K: "del_op", U: "u2", ID: 3, A: "1tkb,2tkc"}, {K: "del_op", U: "u2", ID: 1, A: "1tka,1tkc"},
		{K: "del_svc", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "del_svc", U: "u1", ID: 2, A: "1tkc"}, {K: "del_svc", U: "u2", ID: 2, A: "1tka,1tkb,1tkc"},
	}
}

var trioOps = []Op{
	{K: "prefs", U: "u1", S: ":1,2,3"}, {K: "prefs", U: "u1", S: "na:3,1"}, {K: "prefs", U: "u2", S: "n"}, {K: "revoke", U: "gov", ID: 1},
	{K: "und_op", U: "u1", ID: 1, A: "1tka,1tkb,1tkc"}, {K: "und_op", U: "u2", ID: 1, A: "1tka,1tkc"}, {K: "und_svc", U: "u2", ID: 2, A: "1tka,1tkb,1tkc"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u2", A: "1tkc"},
	{K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "u2", S: "svc", ID: 2}, {K: "claim", U: "u1", S: "pool", ID: 3}, {K: "commission", U: "oa", ID: 1},
	{K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "deactivate_op", U: "ob", ID: 2}, {K: "deactivate_svc", U: "sx", ID: 2}, {K: "delete_svc", U: "sx", ID: 2},
	{K: "allow", U: "sa", ID: 1, ID2: 3}, {K: "allow", U: "sa", ID: 1, ID2: 2}, {K: "disallow", U: "sa", ID: 1, ID2: 3}, {K: "cease", U: "sx", ID: 2, ID2: 2}, {K: "leave", U: "oa", ID: 3, ID2: 2}, {K: "leave", U: "ob", ID: 2, ID2: 1},
	{K: "rparams", U: "gov", ID: 4, S: "tkc,tka"}, {K: "params_svc", U: "sx", ID: 2, S: "tka,tkc"},
	{K: "plan", U: "sa", ID: 1, A: "86400rwd,86400rwx", S: "0,100000|b1|b2|b3|5rwd,5rwx"}, {K: "price", S: "TKB", ID: 0}, {K: "del_op", U: "u1", ID: 3, A: "1tka,1tkb,1tkc"},
	block(5), block(15),
}
