package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// loose is a scenario executed without the model: only the check decides.
func loose(name string, depth int, setup, ops []Op, check func(r *Run, s *State)) *RMConf {
	return &RMConf{Name: name, Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd", "rwx"}, Depth: depth, Setup: setup, Ops: ops, Loose: true, Check: check, Own: Own{Halt: true}}
}

func looseLV(name string, depth int, setup, ops []Op, check func(r *Run, s *State)) *RMConf {
	c := lvConf(name, depth, Own{Halt: true}, setup, ops)
	c.Loose, c.Check = true, check
	return c
}

// everything: a funded plan with commission, stake on every kind of target, trust, securing, an allow list.
func everything(plan string, more ...Op) []Op {
	return rwSetup(plan, append([]Op{
		{K: "accredit", U: "gov", ID: 1}, {K: "params_op", U: "oa", ID: 1, S: "0.1"},
		{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u2", A: "2tka"},
	}, more...)...)
}

// systemOps reach all modules.
var systemOps = []Op{
	{K: "del_pool", U: "u1", A: "1tkb"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 1, A: "1tka"},
	{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_pool", U: "u2", A: "2tka"},
	{K: "prefs", U: "u1", S: "n"}, {K: "prefs", U: "u2", S: ":1"}, {K: "accredit", U: "gov", ID: 1}, {K: "revoke", U: "gov", ID: 1},
	{K: "deactivate_op", U: "oa", ID: 1}, {K: "reactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "params_op", U: "oa", ID: 1, S: "1"},
	{K: "deactivate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "params_svc", U: "sa", ID: 1, S: "tka"},
	{K: "leave", U: "oa", ID: 1, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 1}, {K: "disallow", U: "sa", ID: 1, ID2: 1}, {K: "cease", U: "sa", ID: 1, ID2: 1},
	{K: "rparams", U: "gov", ID: 4, S: "tka"}, {K: "rparams", U: "gov", ID: 1},
	{K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "u1", S: "pool", ID: 1}, {K: "claim", U: "u1", S: "svc", ID: 1}, {K: "commission", U: "oa", ID: 1}, {K: "waddr", U: "u1", S: "sx"},
	{K: "unasset", U: "gov", S: "tka"}, {K: "price", S: "TKA", ID: 0}, {K: "edit_plan", U: "sa", ID: 1, A: perDay, S: "0,50|b1|w1:1=1|b0"},
	{K: "plan", U: "sa", ID: 1, A: "86400rwd,86400rwx", S: "15,40|b1|b2|b1"},
	{K: "transfer_op", U: "oa", ID: 1, S: "ob"}, {K: "transfer_svc", U: "sa", ID: 1, S: "sx"},
	ticks(9500), block(15),
}

var systemLV = []Op{
	burn("u1", "2locked/tka"), burn("u1", "5locked/tka"), burn("u2", "1locked/tka"), mint("u1", "1tka"),
	{K: "del_pool", U: "u1", A: "1locked/tka"}, {K: "del_op", U: "u1", ID: 1, A: "2locked/tka,1tka"}, {K: "del_svc", U: "u1", ID: 1, A: "2locked/tka"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"},
	{K: "und_pool", U: "u1", A: "1locked/tka"}, {K: "und_op", U: "u1", ID: 1, A: "1locked/tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1locked/tka"},
	{K: "withdraw_fund", U: "u1", A: "1tka"}, dep(1, "tka", "u1:1"), dep(1, "tkb", "u2:1"), {K: "send", U: "u1", S: "lvmod", A: "1locked/tka"}, {K: "send", U: "u1", S: "op/1", A: "1locked/tka"},
	{K: "lvparams", U: "gov", S: "20000" + roles}, {K: "lvparams", U: "gov", S: "30000||||"},
	{K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1},
	{K: "rparams", U: "gov", ID: 4}, {K: "params_svc", U: "sa", ID: 1, S: "tka"},
	ticks(3500), block(15),
}

// refsSetup and refsOps: deletions of targets that are still referenced.
func refsSetup() []Op {
	return everything(always, Op{K: "register_op", U: "ob", S: "op two|w|p"}, Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"}, Op{K: "activate_svc", U: "sx", ID: 2},
		Op{K: "join", U: "ob", ID: 2, ID2: 1}, Op{K: "join", U: "ob", ID: 2, ID2: 2}, Op{K: "borrow", U: "sx", ID: 2, ID2: 1}, Op{K: "prefs", U: "u1", S: ":1,2"}, Op{K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "und_svc", U: "u1", ID: 1, A: "1tka"}, Op{K: "edit_plan", U: "sa", ID: 1, A: perDay, S: "0,100000|w1:1=1;2=1|w1:1=1;2=2|b1"}, block(10))
}

var refsOps = []Op{
	{K: "deactivate_op", U: "oa", ID: 1}, {K: "deactivate_op", U: "ob", ID: 2}, {K: "delete_op", U: "oa", ID: 1}, {K: "delete_op", U: "ob", ID: 2}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sx", ID: 2},
	{K: "plan", U: "sx", ID: 2, A: "86400rwd", S: "0,100000|w1:1=1|w1:1=1;2=1|b1"}, {K: "plan", U: "sa", ID: 1, A: "86400rwd", S: "0,30|b1|w1:2=1|b1"}, {K: "fund", U: "f", ID: 2, A: "100rwd"}, {K: "edit_plan", U: "sa", ID: 1, A: perDay, S: "0,25|w1:2=1|w1:2=1|b0"},
	{K: "del_op", U: "u2", ID: 2, A: "1tka"}, {K: "del_svc", U: "u2", ID: 2, A: "1tka"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u2", A: "2tka"}, {K: "prefs", U: "u1", S: "na:2"}, {K: "revoke", U: "gov", ID: 1},
	{K: "reactivate_op", U: "oa", ID: 1}, {K: "commission", U: "oa", ID: 1}, {K: "allow", U: "sa", ID: 1, ID2: 2}, {K: "allow", U: "sx", ID: 2, ID2: 1}, {K: "leave", U: "ob", ID: 2, ID2: 1}, {K: "cease", U: "sx", ID: 2, ID2: 1},
	{K: "rparams", U: "gov", ID: 1, S: "tkb"}, {K: "oparams", U: "gov", ID: 1}, ticks(9500), block(15),
}

// invariants evaluates every registered invariant of our modules.
func invariants(app *App, ctx sdk.Context) map[string]string {
	out := map[string]string{}
	for _, rt := range app.CrisisKeeper.Routes() {
		if !in(ourModules, rt.ModuleName) {
			continue
		}
		var msg string
		var broken bool
		err, pan := catch(func() error {
			c, _ := ctx.CacheContext()
			msg, broken = rt.Invar(c)
			return nil
		})
		k := rt.ModuleName + "/" + rt.Route
		switch {
		case err != nil || pan != "":
			out[k] = "panic: " + pan
		case broken:
			out[k] = msg
		default:
			out[k] = ""
		}
	}
	return out
}

func holdInvariants(r *Run, s *State) {
	for k, v := range invariants(s.App, s.Probe()) {
		if v != "" {
			Fail("invariant:"+k, "the registered invariant %s is broken: %s", k, v)
		}
		r.Count("invariant:" + k)
	}
}

func init() {
	register(&Property{
		ID: "C26", Title: "No reachable state makes the beginning or the end of a block fail",
		Assumptions: []string{"failures inside the modules of the Cosmos SDK, of IBC and of the oracle are not looked for", noSlash},
		Need:        []string{"block", "delete_op:ok", "delete_svc:ok", "plan:ok", "burn:ok", "und_op:ok"},
		Run: func(r *Run) {
			r.RM(loose("everything", r.Pick(4, 5), everything(always), systemOps, nil))
			r.RM(looseLV("liquid vesting", r.Pick(4, 5), lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil))
			// extreme plans, weights, prices and exponents
			big := cloneMap(rwBal)
			big["f"] = "9000000000000000000rwd,1rwx"
			big["u1"], big["u2"], big["z"] = "9000000000000000000tka,1tkb", "1tka,9000000000000000000tkb", "1tka,1tkb"
			x := loose("extremes", r.Pick(4, 5), rwSetup("", Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}), []Op{
				{K: "plan", U: "sa", ID: 1, A: "9000000000000000000rwd", S: "0,100000|b4294967295|b4294967295|b4294967295"}, {K: "plan", U: "sa", ID: 1, A: "1rwd", S: "0,100000|b0|b0|b1"},
				{K: "plan", U: "sa", ID: 1, A: "86400rwd,86400rwx", S: "0,100000|w1:1=4294967295;2=1|w4294967295:1=4294967295|b1"}, {K: "plan", U: "sa", ID: 1, A: "86400rwd", S: "0,100000|e1|e1|b4294967295"},
				{K: "fund", U: "f", ID: 1, A: "8000000000000000000rwd"}, {K: "fund", U: "f", ID: 1, A: "1rwx"}, {K: "fund", U: "f", ID: 1, A: "3rwd"},
				{K: "del_op", U: "u1", ID: 1, A: "8000000000000000000tka"}, {K: "del_pool", U: "u2", A: "8000000000000000000tkb"}, {K: "del_svc", U: "u2", ID: 1, A: "1tka,1tkb"}, {K: "del_pool", U: "u1", A: "1tka"},
				{K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "params_op", U: "oa", ID: 1, S: "1"}, {K: "params_op", U: "oa", ID: 1, S: "0.000000000000000001"},
				{K: "asset", U: "gov", ID: 36, S: "tka|TKA"}, {K: "asset", U: "gov", ID: 0, S: "tkb|TKA"}, {K: "asset", U: "gov", ID: 18, S: "tkb|NEW"}, {K: "unasset", U: "gov", S: "tka"},
				{K: "price", S: "TKA", ID: 0}, {K: "price", S: "TKA", ID: 4294967295}, {K: "price", S: "TKB", ID: 4294967295},
				block(1), block(86400), block(0),
			}, nil)
			x.Bal = big
			r.RM(x)
			r.RM(loose("references", r.Pick(4, 5), refsSetup(), refsOps, nil))
		},
	})
	register(&Property{
		ID: "C27", Title: "Exporting and importing the genesis state loses nothing and changes no behaviour",
		Assumptions: []string{noSlash, "the insurance percentage is not raised above what the funds cover (the import refuses such a state)"},
		Need:        []string{"roundtrip", "future", "block", "und_op:ok", "burn:ok", "delete_op:ok"},
		Run: func(r *Run) {
			c := loose("everything", 2, everything(always), systemOps, nil)
			var fut [][]Op
			for _, o := range systemOps {
				fut = append(fut, []Op{o, block(15)})
			}
			fut = append(fut, []Op{block(5), {K: "und_op", U: "u1", ID: 1, A: "1tka"}, block(5), block(5)}, []Op{{K: "register_op", U: "ob", S: "n|w|p"}, {K: "create_svc", U: "sx", S: "n|d|w|p"}, {K: "del_pool", U: "u2", A: "1tka"}})
			c.Check = func(r *Run, s *State) { c.sameFuture(r, s, fut) }
			r.RM(c)
			if r.Thorough() {
				deep := loose("everything, fewer continuations", 3, everything(always), systemOps, nil)
				few := [][]Op{{block(15)}, {{K: "claim", U: "u1", S: "op", ID: 1}, {K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, block(15)}, {{K: "del_pool", U: "u1", A: "1tkb"}, {K: "und_pool", U: "u2", A: "2tka"}, {K: "deactivate_op", U: "oa", ID: 1}, block(5), block(15)}}
				deep.Check = func(r *Run, s *State) { deep.sameFuture(r, s, few) }
				r.RM(deep)
			}
			d := loose("references", r.Pick(2, 4), everything(always, Op{K: "register_op", U: "ob", S: "op two|w|p"}, Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"}, Op{K: "activate_svc", U: "sx", ID: 2},
				Op{K: "join", U: "ob", ID: 2, ID2: 1}, Op{K: "allow", U: "sa", ID: 1, ID2: 2}, Op{K: "allow", U: "sa", ID: 1, ID2: 1}, Op{K: "prefs", U: "u1", S: "na:1,2"}, Op{K: "waddr", U: "u2", S: "sx"}, Op{K: "params_op", U: "ob", ID: 2, S: "0.5"}, Op{K: "params_svc", U: "sx", ID: 2, S: "tka,tkb"},
				Op{K: "edit_plan", U: "sa", ID: 1, A: perDay, S: "0,100000|w1:1=1;2=1|w1:1=1;2=2|b1"}, Op{K: "del_op", U: "u2", ID: 2, A: "1tka"}, block(5), Op{K: "deactivate_op", U: "ob", ID: 2}, Op{K: "deactivate_svc", U: "sx", ID: 2}, Op{K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "und_pool", U: "u1", A: "1tka"}, block(3), Op{K: "und_op", U: "u2", ID: 2, A: "1tka"}), []Op{
				{K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "ob", ID: 2}, {K: "reactivate_op", U: "ob", ID: 2}, {K: "delete_svc", U: "sx", ID: 2}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "u2", S: "pool", ID: 1}, {K: "commission", U: "ob", ID: 2},
				{K: "und_pool", U: "u2", A: "2tka"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "prefs", U: "u1", S: ""}, {K: "rparams", U: "gov", ID: 3, S: "tkb"}, {K: "wparams", U: "gov", A: "2rwd"}, {K: "oparams", U: "gov", ID: 7, A: "3rwd"}, {K: "sparams", U: "gov", A: "4rwd"}, {K: "unasset", U: "gov", S: "tkb"}, block(4), block(15)}, nil)
			var df [][]Op
			for _, o := range d.Ops {
				df = append(df, []Op{o, block(6), block(15)})
			}
			df = append(df, []Op{{K: "register_op", U: "ob", S: "n|w|p"}, {K: "create_svc", U: "sx", S: "n|d|w|p"}, {K: "plan", U: "sa", ID: 1, A: "86400rwx", S: "15,40|b1|b2|b1"}, block(15)}, []Op{{K: "deactivate_op", U: "oa", ID: 1}, block(5), block(5), {K: "delete_op", U: "oa", ID: 1}})
			d.Check = func(r *Run, s *State) { d.sameFuture(r, s, df) }
			r.RM(d)
			// burns that wait for two undelegations to complete at the same time, and for a later one
			queued := lvSetup(dep(4, "tka", "u1:3,u2:1"), mint("u1", "6tka"), mint("u2", "2tka"), Op{K: "del_pool", U: "u1", A: "2locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "4locked/tka"}, Op{K: "del_svc", U: "u2", ID: 1, A: "2locked/tka"},
				burn("u1", "1locked/tka"), burn("u2", "1locked/tka"), block(4), burn("u1", "1locked/tka"), Op{K: "und_op", U: "u1", ID: 1, A: "1locked/tka"}, mint("u1", "1tka"))
			l := looseLV("liquid vesting", r.Pick(2, 3), queued, systemLV, nil)
			var lf [][]Op
			for _, o := range systemLV {
				lf = append(lf, []Op{o, block(4), block(15)})
			}
			lf = append(lf, []Op{{K: "und_op", U: "u1", ID: 1, A: "1locked/tka"}, burn("u1", "1locked/tka"), block(15)})
			l.Check = func(r *Run, s *State) { l.sameFuture(r, s, lf) }
			r.RM(l)
		},
	})
	register(&Property{
		ID: "C35", Title: "The registered invariants hold in every state and catch planted corruption",
		Assumptions: []string{noSlash},
		Need: []string{"block", "invariant:restaking/accounts-balances", "invariant:rewards/module-account", "invariant:rewards/can-withdraw", "invariant:operators/valid-operators", "invariant:services/valid-services", "invariant:pools/valid-pools",
			"noticed:restaking/accounts-balances", "noticed:restaking/pools-delegators-shares", "noticed:restaking/operators-delegators-shares", "noticed:restaking/services-delegators-shares", "noticed:restaking/positive-pools-delegations", "noticed:restaking/positive-operators-delegations",
			"noticed:restaking/positive-services-delegations", "noticed:restaking/allowed-operators-exist", "noticed:restaking/operators-joined-services-exist", "noticed:rewards/module-account", "noticed:rewards/nonnegative-outstanding", "noticed:rewards/reference-count",
			"noticed:operators/valid-operators", "noticed:services/valid-services", "noticed:pools/valid-pools", "noticed:pools/unique-pools"},
		Run: func(r *Run) {
			lv := lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"})
			r.RM(loose("everything", r.Pick(3, 4), everything(always), systemOps, holdInvariants))
			r.RM(loose("references", r.Pick(4, 5), refsSetup(), refsOps, holdInvariants))
			r.RM(looseLV("liquid vesting", r.Pick(4, 5), lv, systemLV, holdInvariants))
			r.RM(loose("corruption of everything", r.Pick(3, 4), everything(always), systemOps, catchCorruption))
			r.RM(looseLV("corruption of liquid vesting", r.Pick(3, 4), lv, systemLV, catchCorruption))
		},
	})
}
