package main

import (
	"fmt"
	"sort"
	"time"

	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// The standard restaking world: two operators, two services, two users, two denoms.
func stdSetup() []Op {
	return []Op{
		{K: "rparams", U: "gov", ID: 10},
		{K: "oparams", U: "gov", ID: 15},
		{K: "register_op", U: "oa", S: "op one|w|p"},
		{K: "create_svc", U: "sa", S: "svc one|d|w|p"},
		{K: "activate_svc", U: "sa", ID: 1},
	}
}

var stdBal = map[string]string{"u1": "6tka,6tkb", "u2": "6tka", "oa": "", "sa": "", "ox": ""}
var stdDenoms = []string{"tka", "tkb"}

func init() {
	register(&Property{
		ID: "C01", Title: "Restaked funds are fully held in custody",
		Assumptions: []string{"no slashing exists: shares and tokens are exchanged one to one", "bounds: see scenarios"},
		Need:        []string{"del_op:ok", "del_svc:ok", "del_pool:ok", "und_op:ok", "und_svc:ok", "und_pool:ok", "block"},
		Run: func(r *Run) {
			r.RM(&RMConf{Name: "custody", Bal: stdBal, Denoms: stdDenoms, Setup: stdSetup(), Depth: r.Pick(4, 6),
				Own:   Own{Facts: []string{"escrow/"}},
				Check: custody,
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "2tka"}, {K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "2tka"},
					{K: "del_op", U: "u2", ID: 1, A: "2tka"}, {K: "del_svc", U: "u2", ID: 1, A: "3tka"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "2tka"},
					{K: "und_op", U: "u2", ID: 1, A: "2tka"}, {K: "und_svc", U: "u2", ID: 1, A: "1tka"},
					{K: "update_op", U: "oa", ID: 1, S: "new|" + keep + "|" + keep},
					{K: "update_svc", U: "sa", ID: 1, S: "new|d|w|" + keep},
					block(4), block(10),
				}})
		},
	})
}

// twoTargets is stdSetup plus a second operator and service.
func twoTargets() []Op {
	return append(stdSetup(),
		Op{K: "register_op", U: "ox", S: "op two|w|p"},
		Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"},
		Op{K: "activate_svc", U: "sx", ID: 2},
	)
}

var twoBal = map[string]string{"u1": "6tka,6tkb", "u2": "6tka", "oa": "", "sa": "", "ox": "", "sx": ""}

const noSlash = "no slashing exists in this code base: one share is worth one token"

func init() {
	register(&Property{
		ID: "C02", Title: "Delegations, target totals and balances are exact",
		Assumptions: []string{noSlash},
		Need:        []string{"del_op:ok", "del_svc:ok", "del_pool:ok", "und_op:ok", "und_svc:ok", "und_pool:ok", "block", "update_op:ok"},
		Run: func(r *Run) {
			r.RM(&RMConf{Name: "accounting", Bal: stdBal, Denoms: stdDenoms, Setup: stdSetup(), Depth: r.Pick(5, 7),
				Own: Own{Facts: []string{"del/", "tokens/", "shares/", "bal/", "escrow/"}},
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "2tka"}, {K: "del_pool", U: "u1", A: "3tkb"}, {K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"},
					{K: "del_svc", U: "u1", ID: 1, A: "2tka,3tkb"}, {K: "del_op", U: "u2", ID: 1, A: "3tka"}, {K: "del_svc", U: "u2", ID: 1, A: "3tka"},
					{K: "del_pool", U: "u2", A: "1tka"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "und_svc", U: "u1", ID: 1, A: "2tka"},
					{K: "und_op", U: "u2", ID: 1, A: "3tka"}, {K: "und_svc", U: "u2", ID: 1, A: "2tka"}, {K: "und_pool", U: "u2", A: "1tka"},
					block(10),
				}})
			r.RM(&RMConf{Name: "accounting+admin", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 6),
				Setup: append(stdSetup(), Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_svc", U: "u1", ID: 1, A: "2tka"}, Op{K: "del_pool", U: "u1", A: "1tka"}),
				Own:   Own{Facts: []string{"del/", "tokens/", "shares/", "bal/", "escrow/"}},
				Ops: []Op{
					{K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "2tka"}, {K: "und_pool", U: "u1", A: "1tka"},
					{K: "del_svc", U: "u2", ID: 1, A: "1tka"},
					{K: "update_op", U: "oa", ID: 1, S: "new|" + keep + "|x"}, {K: "transfer_op", U: "oa", ID: 1, S: "ox"}, {K: "params_op", U: "oa", ID: 1, S: "0.1"},
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "reactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1},
					{K: "update_svc", U: "sa", ID: 1, S: "new|" + keep + "|x|y"}, {K: "transfer_svc", U: "sa", ID: 1, S: "ox"}, {K: "params_svc", U: "sa", ID: 1, S: "tka"},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1},
					{K: "accredit", U: "gov", ID: 1}, {K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "cease", U: "sa", ID: 1, ID2: 1}, {K: "prefs", U: "u1", S: "n:1"},
					{K: "join", U: "oa", ID: 1, ID2: 1}, block(15),
				}})
		},
	})
	register(&Property{
		ID: "C03", Title: "Every undelegation is paid once, in full, at its due time",
		Assumptions: []string{noSlash},
		Need:        []string{"und_op:ok", "und_svc:ok", "und_pool:ok", "block", "rparams:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"ubd/", "bal/", "escrow/"}, Halt: true}
			after := func(r *Run, pre, s *State, o Op, out Outcome) { completionTime(s, o, out) }
			r.RM(&RMConf{Name: "one target", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(6, 8), Own: own, After: after,
				Setup: append(stdSetup(), Op{K: "del_op", U: "u1", ID: 1, A: "4tka,2tkb"}, Op{K: "del_op", U: "u2", ID: 1, A: "4tka"}),
				Ops: []Op{
					{K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "und_op", U: "u2", ID: 1, A: "1tka"},
					{K: "del_op", U: "u1", ID: 1, A: "1tka"},
					{K: "rparams", U: "gov", ID: 4}, {K: "rparams", U: "gov", ID: 10}, block(6), ticks(3500), block(10),
				}})
			r.RM(&RMConf{Name: "many targets", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(5, 7), Own: own, After: after,
				Setup: append(twoTargets(), Op{K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"}, Op{K: "del_op", U: "u1", ID: 2, A: "2tka"},
					Op{K: "del_svc", U: "u1", ID: 1, A: "1tka,1tkb"}, Op{K: "del_pool", U: "u1", A: "2tka"}, Op{K: "del_pool", U: "u1", A: "2tkb"}, Op{K: "del_pool", U: "u2", A: "2tka"}),
				Ops: []Op{
					{K: "und_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "und_op", U: "u1", ID: 2, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tkb"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tkb"}, {K: "und_pool", U: "u2", A: "1tka"},
					{K: "rparams", U: "gov", ID: 4}, block(6), ticks(3500), block(10),
				}})
			r.RM(&RMConf{Name: "pools", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(5, 7), Own: own, After: after,
				Setup: append(stdSetup(), Op{K: "del_pool", U: "u1", A: "4tka"}, Op{K: "del_svc", U: "u1", ID: 1, A: "2tka,2tkb"}, Op{K: "del_svc", U: "u2", ID: 1, A: "2tka"}),
				Ops: []Op{
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "2tka"}, {K: "und_svc", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "und_svc", U: "u1", ID: 1, A: "1tkb"},
					{K: "und_svc", U: "u2", ID: 1, A: "1tka"},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1},
					{K: "rparams", U: "gov", ID: 14}, block(4), block(10), ticks(9500),
				}})
		},
	})
	register(&Property{
		ID: "C04", Title: "Only admissible delegations and undelegations are accepted",
		Assumptions: []string{noSlash},
		Need: []string{"del_op:ok", "del_svc:ok", "del_pool:ok", "und_op:ok", "und_svc:ok", "und_pool:ok", "del_op:rejected", "del_svc:rejected",
			"del_pool:rejected", "und_op:rejected", "und_svc:rejected", "und_pool:rejected"},
		Run: func(r *Run) {
			own := Own{Admit: []string{"del_pool", "del_op", "del_svc", "und_pool", "und_op", "und_svc"}}
			r.RM(&RMConf{Name: "status and denoms", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(5, 7), Own: own, Setup: stdSetup(),
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u1", A: "1tkb"}, {K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"},
					{K: "del_svc", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "1tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"},
					{K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tkb"}, {K: "und_pool", U: "u1", A: "1tka"},
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 1}, {K: "reactivate_op", U: "oa", ID: 1},
					{K: "rparams", U: "gov", ID: 10, S: "tka"}, {K: "rparams", U: "gov", ID: 10}, {K: "params_svc", U: "sa", ID: 1, S: "tkb"}, {K: "params_svc", U: "sa", ID: 1, S: "tka,tkb"},
					{K: "params_svc", U: "sa", ID: 1}, block(15),
				}})
			r.RM(&RMConf{Name: "amounts", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Setup: stdSetup(),
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "6tka"}, {K: "del_pool", U: "u1", A: "7tka"}, {K: "del_pool", U: "u1", A: "0tka"}, {K: "del_pool", U: "u1", A: "-1tka"}, {K: "del_pool", U: "u2", A: "1tkb"}, {K: "del_pool", U: "u2", A: "2tka"},
					{K: "del_op", U: "u1", ID: 1, A: "3tka,6tkb"}, {K: "del_op", U: "u1", ID: 1, A: "3tka,7tkb"}, {K: "del_op", U: "u1", ID: 1}, {K: "del_op", U: "u1", ID: 1, A: "-1tka"}, {K: "del_op", U: "u2", ID: 1, A: "2tka"}, {K: "del_op", U: "u1", ID: 2, A: "1tka"},
					{K: "del_svc", U: "u1", ID: 1, A: "3tka,6tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "7tkb"}, {K: "del_svc", U: "u1", ID: 1}, {K: "del_svc", U: "u2", ID: 1, A: "2tka"}, {K: "del_svc", U: "u1", ID: 2, A: "1tka"},
					{K: "und_pool", U: "u1", A: "3tka"}, {K: "und_pool", U: "u1", A: "7tka"}, {K: "und_pool", U: "u1", A: "1tkb"}, {K: "und_pool", U: "u1", A: "-1tka"}, {K: "und_pool", U: "u2", A: "3tka"},
					{K: "und_op", U: "u1", ID: 1, A: "3tka,1tkb"}, {K: "und_op", U: "u1", ID: 1, A: "1tka,7tkb"}, {K: "und_op", U: "u1", ID: 1}, {K: "und_op", U: "u1", ID: 1, A: "-1tka"}, {K: "und_op", U: "u2", ID: 1, A: "3tka"}, {K: "und_op", U: "u2", ID: 1, A: "1tkb"}, {K: "und_op", U: "u1", ID: 2, A: "1tka"},
					{K: "und_svc", U: "u1", ID: 1, A: "4tka"}, {K: "und_svc", U: "u1", ID: 1, A: "3tka,6tkb"}, {K: "und_svc", U: "u1", ID: 1}, {K: "und_svc", U: "u2", ID: 1, A: "2tka"}, {K: "und_svc", U: "u2", ID: 1, A: "3tka"}, {K: "und_svc", U: "u1", ID: 2, A: "1tka"},
				}})
			r.RM(&RMConf{Name: "two services", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Setup: twoTargets(),
				Ops: []Op{
					{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u1", ID: 2, A: "1tka"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "u1", ID: 2, A: "1tka"},
					{K: "und_svc", U: "u1", ID: 2, A: "1tka"}, {K: "und_op", U: "u1", ID: 2, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"},
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tka"},
					{K: "params_svc", U: "sx", ID: 2, S: "tkb"}, {K: "params_svc", U: "sa", ID: 1, S: "tkb"}, {K: "deactivate_svc", U: "sx", ID: 2}, {K: "deactivate_svc", U: "sa", ID: 1},
					{K: "deactivate_op", U: "ox", ID: 2}, {K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_svc", U: "sx", ID: 2}, block(15), {K: "delete_op", U: "ox", ID: 2},
				}})
		},
	})
	register(&Property{
		ID: "C05", Title: "Restaked funds can always be withdrawn by their owner",
		Assumptions: []string{noSlash},
		Need:        []string{"probe:recovered", "delete_op:rejected", "deactivate_op:ok", "deactivate_svc:ok", "prefs:ok", "borrow:ok", "accredit:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"del/", "ubd/"}, Admit: []string{"und_op", "und_svc", "und_pool"}, Halt: true}
			r.RM(&RMConf{Name: "lifecycle", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(5, 7), Own: own, Check: recoverable,
				Setup: append(stdSetup(), Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_svc", U: "u1", ID: 1, A: "2tka"}),
				Ops: []Op{
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "reactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "update_op", U: "oa", ID: 1, S: "new|x|y"},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "update_svc", U: "sa", ID: 1, S: "new|x|y|z"}, {K: "params_svc", U: "sa", ID: 1, S: "tkb"},
					{K: "rparams", U: "gov", ID: 10, S: "tkb"}, {K: "rparams", U: "gov", ID: 5},
					{K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 1, A: "1tka"},
					block(10), block(15),
				}})
			r.RM(&RMConf{Name: "trust", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(5, 6), Own: own, Check: recoverable,
				Setup: append(stdSetup(), Op{K: "del_pool", U: "u1", A: "2tka"}),
				Ops: []Op{
					{K: "prefs", U: "u1", S: "n"}, {K: "prefs", U: "u1", S: ":1"}, {K: "prefs", U: "u1", S: ":"}, {K: "prefs", U: "u1", S: "na:1"}, {K: "prefs", U: "u1", S: "a"},
					{K: "accredit", U: "gov", ID: 1}, {K: "revoke", U: "gov", ID: 1},
					{K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "cease", U: "sa", ID: 1, ID2: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1},
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u2", A: "1tka"}, block(3),
				}})
			r.RM(&RMConf{Name: "trust before creation", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(5, 6), Own: own, Check: recoverable,
				Setup: append(stdSetup()[:2], Op{K: "del_pool", U: "u1", A: "2tka"}),
				Ops: []Op{
					{K: "prefs", U: "u1", S: "n"}, {K: "prefs", U: "u1", S: "a"}, {K: "prefs", U: "u2", S: "na"}, {K: "create_svc", U: "sa", S: "svc|d|w|p"}, {K: "create_svc", U: "sx", S: "svc|d|w|p"},
					{K: "activate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sx", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "accredit", U: "gov", ID: 1}, {K: "prefs", U: "u1", S: ":1"},
					{K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "del_pool", U: "u2", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u2", A: "1tka"}, block(10),
				}})
		},
	})
	register(&Property{
		ID: "C06", Title: "Joined services, allow-lists and securing pools are exactly as set",
		Need: []string{"join:ok", "leave:ok", "allow:ok", "disallow:ok", "borrow:ok", "cease:ok", "join:rejected", "allow:rejected", "disallow:rejected", "borrow:rejected", "cease:rejected", "delete_op:ok", "delete_svc:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"join/", "allow/", "secure/", "svc/1/status", "svc/2/status"}, Admit: []string{"join", "leave", "allow", "disallow", "borrow", "cease"}, Halt: true}
			r.RM(&RMConf{Name: "relations", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Setup: append(twoTargets(), Op{K: "del_pool", U: "u1", A: "1tka"}), Check: queriesRelations,
				Ops: []Op{
					{K: "join", U: "oa", ID: 1, ID2: 1}, {K: "join", U: "oa", ID: 1, ID2: 2}, {K: "join", U: "ox", ID: 2, ID2: 1}, {K: "join", U: "oa", ID: 1, ID2: 3},
					{K: "leave", U: "oa", ID: 1, ID2: 1}, {K: "leave", U: "ox", ID: 2, ID2: 1},
					{K: "allow", U: "sa", ID: 1, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 2}, {K: "allow", U: "sx", ID: 2, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 3},
					{K: "disallow", U: "sa", ID: 1, ID2: 1}, {K: "disallow", U: "sx", ID: 2, ID2: 1},
					{K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "borrow", U: "sx", ID: 2, ID2: 1}, {K: "borrow", U: "sa", ID: 1, ID2: 2}, {K: "cease", U: "sa", ID: 1, ID2: 1},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, block(15),
				}})
			r.RM(&RMConf{Name: "deletions", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(4, 6), Own: own, Check: queriesRelations,
				Setup: append(twoTargets(), Op{K: "deactivate_op", U: "oa", ID: 1}, block(15), Op{K: "deactivate_svc", U: "sx", ID: 2},
					Op{K: "del_pool", U: "u1", A: "1tka"}),
				Ops: []Op{
					{K: "join", U: "oa", ID: 1, ID2: 1}, {K: "join", U: "ox", ID: 2, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 2},
					{K: "allow", U: "sx", ID: 2, ID2: 1}, {K: "disallow", U: "sa", ID: 1, ID2: 2}, {K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "activate_svc", U: "sx", ID: 2}, {K: "activate_svc", U: "sa", ID: 1},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sx", ID: 2},
				}})
		},
	})
	register(&Property{
		ID: "C07", Title: "Queries answer exactly what the state holds, page by page",
		Assumptions: []string{noSlash},
		Need:        []string{"del_op:ok", "del_svc:ok", "del_pool:ok", "und_op:ok", "und_svc:ok", "und_pool:ok", "join:ok", "allow:ok", "borrow:ok"},
		Run: func(r *Run) {
			r.RM(&RMConf{Name: "queries", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(3, 4), Check: queries, Setup: twoTargets(),
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u1", A: "1tkb"}, {K: "del_pool", U: "u2", A: "1tka"},
					{K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "del_op", U: "u1", ID: 2, A: "1tkb"},
					{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 2, A: "1tka"}, {K: "del_svc", U: "u1", ID: 2, A: "1tka"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"},
					{K: "join", U: "oa", ID: 1, ID2: 1}, {K: "join", U: "oa", ID: 1, ID2: 2}, {K: "join", U: "ox", ID: 2, ID2: 1},
					{K: "allow", U: "sa", ID: 1, ID2: 2}, {K: "allow", U: "sa", ID: 1, ID2: 1}, {K: "allow", U: "sx", ID: 2, ID2: 1}, {K: "borrow", U: "sa", ID: 1, ID2: 1}, {K: "borrow", U: "sa", ID: 1, ID2: 2},
					{K: "prefs", U: "u1", S: "n:1,2"}, block(10),
				}})
			r.RM(&RMConf{Name: "unbonding queries", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(3, 4), Check: queries,
				Setup: append(twoTargets(), Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_op", U: "u1", ID: 2, A: "1tka"}, Op{K: "del_op", U: "u2", ID: 1, A: "1tka"},
					Op{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_svc", U: "u1", ID: 2, A: "1tka"}, Op{K: "del_svc", U: "u2", ID: 2, A: "1tka"},
					Op{K: "del_pool", U: "u1", A: "1tka"}, Op{K: "del_pool", U: "u1", A: "1tkb"}, Op{K: "del_pool", U: "u2", A: "1tka"}),
				Ops: []Op{
					{K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "und_op", U: "u1", ID: 2, A: "1tka"}, {K: "und_op", U: "u2", ID: 1, A: "1tka"},
					{K: "und_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 2, A: "1tka"}, {K: "und_svc", U: "u2", ID: 2, A: "1tka"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tkb"}, {K: "und_pool", U: "u2", A: "1tka"}, block(4),
				}})
		},
	})
	lifeOps := []Op{
		{K: "deactivate_op", U: "oa", ID: 1}, {K: "reactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "params_op", U: "oa", ID: 1, S: "0.25"}, {K: "params_op", U: "oa", ID: 1, S: "0"},
		{K: "params_op", U: "oa", ID: 1, S: "1.1"}, {K: "params_op", U: "oa", ID: 1, S: "-0.1"}, {K: "params_op", U: "oa", ID: 1, S: "1"},
		{K: "update_op", U: "oa", ID: 1, S: "new|" + keep + "|" + keep}, {K: "update_op", U: "oa", ID: 1, S: keep + "|w2|"}, {K: "update_op", U: "oa", ID: 1, S: " |w|p"},
		{K: "deactivate_op", U: "ox", ID: 2}, {K: "reactivate_op", U: "ox", ID: 2}, {K: "delete_op", U: "ox", ID: 2},
		{K: "oparams", U: "gov", ID: 5}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, block(5), block(10), block(15), ticks(14500),
	}
	register(&Property{
		ID: "C09", Title: "Operators change status, terms and identity only as specified",
		Need: []string{"deactivate_op:ok", "reactivate_op:ok", "delete_op:ok", "update_op:ok", "params_op:ok", "register_op:ok", "register_op:rejected", "params_op:rejected"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"op/"}, Admit: []string{"register_op", "update_op", "deactivate_op", "reactivate_op", "delete_op", "transfer_op", "params_op"}, Halt: true}
			r.RM(&RMConf{Name: "lifecycle", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(5, 6), Own: own, Setup: twoTargets(), Ops: lifeOps, Check: operatorByAddr})
			r.RM(&RMConf{Name: "registration", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Setup: stdSetup()[:2], After: newID,
				Ops: []Op{
					{K: "register_op", U: "oa", S: "one|w|p"}, {K: "register_op", U: "ox", S: "two||"}, {K: "register_op", U: "ox", S: "|w|p"}, {K: "register_op", U: "ox", S: "  |w|p"},
					{K: "register_op", U: "ox", S: keep + "|w|p"}, {K: "register_op", U: "ox", S: "m|" + keep + "|p"},
					{K: "update_op", U: "oa", ID: 1, S: "new|x|y"}, {K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "transfer_op", U: "oa", ID: 1, S: "ox"}, {K: "transfer_op", U: "oa", ID: 1, S: "bad"},
					{K: "deactivate_op", U: "ox", ID: 1}, {K: "deactivate_op", U: "oa", ID: 2}, {K: "params_op", U: "oa", ID: 1, S: "0.5"}, {K: "params_op", U: "oa", ID: 3, S: "0.5"}, block(15),
				}})
		},
	})
	register(&Property{
		ID: "C10", Title: "Operators and services obey their current admin only",
		Need: []string{"transfer_op:ok", "transfer_svc:ok", "transfer_op:rejected", "transfer_svc:rejected", "update_op:ok", "update_svc:ok"},
		Run: func(r *Run) {
			var adm []Op
			for _, u := range []string{"oa", "ox", "u1"} {
				adm = append(adm, Op{K: "update_op", U: u, ID: 1, S: "by " + u + "|w|p"}, Op{K: "deactivate_op", U: u, ID: 1}, Op{K: "reactivate_op", U: u, ID: 1}, Op{K: "delete_op", U: u, ID: 1},
					Op{K: "params_op", U: u, ID: 1, S: "0.5"}, Op{K: "join", U: u, ID: 1, ID2: 1}, Op{K: "leave", U: u, ID: 1, ID2: 1})
			}
			r.RM(&RMConf{Name: "operator admin", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Setup: stdSetup(),
				Own: Own{Admit: []string{"update_op", "deactivate_op", "reactivate_op", "delete_op", "params_op", "join", "leave", "transfer_op"}, Facts: []string{"op/"}},
				Ops: append(adm, Op{K: "transfer_op", U: "oa", ID: 1, S: "ox"}, Op{K: "transfer_op", U: "ox", ID: 1, S: "oa"}, Op{K: "transfer_op", U: "u1", ID: 1, S: "u1"}, Op{K: "transfer_op", U: "gov", ID: 1, S: "u1"},
					Op{K: "update_op", U: "gov", ID: 1, S: "by gov|w|p"}, Op{K: "update_op", U: "sa", ID: 1, S: "by sa|w|p"}, block(15))})
			adm = nil
			for _, u := range []string{"sa", "ox", "u1"} {
				adm = append(adm, Op{K: "update_svc", U: u, ID: 1, S: "by " + u + "|d|w|p"}, Op{K: "deactivate_svc", U: u, ID: 1}, Op{K: "activate_svc", U: u, ID: 1}, Op{K: "delete_svc", U: u, ID: 1},
					Op{K: "params_svc", U: u, ID: 1, S: "tka"}, Op{K: "allow", U: u, ID: 1, ID2: 1}, Op{K: "disallow", U: u, ID: 1, ID2: 1}, Op{K: "borrow", U: u, ID: 1, ID2: 1}, Op{K: "cease", U: u, ID: 1, ID2: 1})
			}
			r.RM(&RMConf{Name: "service admin", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Setup: append(stdSetup(), Op{K: "del_pool", U: "u1", A: "1tka"}),
				Own: Own{Admit: []string{"update_svc", "deactivate_svc", "activate_svc", "delete_svc", "params_svc", "allow", "disallow", "borrow", "cease", "transfer_svc"}, Facts: []string{"svc/"}},
				Ops: append(adm, Op{K: "transfer_svc", U: "sa", ID: 1, S: "ox"}, Op{K: "transfer_svc", U: "ox", ID: 1, S: "sa"}, Op{K: "transfer_svc", U: "u1", ID: 1, S: "u1"}, Op{K: "transfer_svc", U: "gov", ID: 1, S: "u1"},
					Op{K: "update_svc", U: "oa", ID: 1, S: "by oa|d|w|p"}, Op{K: "update_svc", U: "gov", ID: 1, S: "by gov|d|w|p"})})
		},
	})
	register(&Property{
		ID: "C11", Title: "Services change status, terms and accreditation only as specified",
		Need: []string{"activate_svc:ok", "deactivate_svc:ok", "delete_svc:ok", "update_svc:ok", "params_svc:ok", "create_svc:ok", "accredit:ok", "revoke:ok", "accredit:rejected", "revoke:rejected", "params_svc:rejected"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"svc/"}, Admit: []string{"create_svc", "update_svc", "activate_svc", "deactivate_svc", "delete_svc", "transfer_svc", "params_svc", "accredit", "revoke"}, Halt: true}
			r.RM(&RMConf{Name: "lifecycle", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(5, 6), Own: own, Setup: append(twoTargets(), Op{K: "create_svc", U: "sa", S: "svc three|d|w|p"}),
				Ops: []Op{
					{K: "activate_svc", U: "sa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 3}, {K: "deactivate_svc", U: "sa", ID: 3}, {K: "delete_svc", U: "sa", ID: 3},
					{K: "update_svc", U: "sa", ID: 1, S: "new|" + keep + "|x|" + keep}, {K: "update_svc", U: "sa", ID: 1, S: keep + "|d2|" + keep + "|"}, {K: "update_svc", U: "sa", ID: 1, S: " |d|w|p"},
					{K: "params_svc", U: "sa", ID: 1, S: "tka"}, {K: "params_svc", U: "sa", ID: 1, S: "!"}, {K: "params_svc", U: "sa", ID: 1},
					{K: "accredit", U: "gov", ID: 1}, {K: "revoke", U: "gov", ID: 1}, {K: "accredit", U: "sa", ID: 1}, {K: "revoke", U: "sa", ID: 1}, {K: "accredit", U: "gov", ID: 9}, {K: "accredit", U: "gov", ID: 3},
					{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "1tka"}, block(10),
				}})
			r.RM(&RMConf{Name: "creation", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Setup: stdSetup()[:2], After: newID,
				Ops: []Op{
					{K: "create_svc", U: "sa", S: "one|d|w|p"}, {K: "create_svc", U: "ox", S: "two|||"}, {K: "create_svc", U: "ox", S: "|d|w|p"}, {K: "create_svc", U: "ox", S: "  |d|w|p"}, {K: "create_svc", U: "ox", S: keep + "|d|w|p"},
					{K: "activate_svc", U: "sa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "ox", ID: 1}, {K: "activate_svc", U: "ox", ID: 2}, {K: "params_svc", U: "sa", ID: 1, S: "tka,tkb"},
					{K: "transfer_svc", U: "sa", ID: 1, S: "ox"}, {K: "transfer_svc", U: "sa", ID: 1, S: "bad"}, {K: "accredit", U: "gov", ID: 1}, {K: "params_svc", U: "sa", ID: 3, S: "tka"},
				}})
			r.RM(&RMConf{Name: "automatic deactivation", Bal: twoBal, Denoms: stdDenoms, Depth: r.Pick(4, 6), Own: own,
				Setup: append(twoTargets(), Op{K: "deactivate_op", U: "oa", ID: 1}, block(15)),
				Ops: []Op{
					{K: "allow", U: "sa", ID: 1, ID2: 1}, {K: "allow", U: "sa", ID: 1, ID2: 2}, {K: "allow", U: "sx", ID: 2, ID2: 1}, {K: "disallow", U: "sa", ID: 1, ID2: 2}, {K: "disallow", U: "sa", ID: 1, ID2: 1},
					{K: "delete_op", U: "oa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 1}, {K: "deactivate_op", U: "ox", ID: 2}, {K: "delete_op", U: "ox", ID: 2}, block(15),
				}})
		},
	})
	register(&Property{
		ID: "C12", Title: "Registration fees are charged exactly, once, to the community pool",
		Need: []string{"register_op:ok", "register_op:rejected", "create_svc:ok", "create_svc:rejected", "oparams:ok", "sparams:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"bal/"}, Admit: []string{"register_op", "create_svc"}}
			var ops []Op
			for _, a := range []string{"", "1tka", "2tka", "3tka", "2tka,1tkb", "1tka,1tkb", "2tkb", "7tka", "2tka,7tkb"} {
				ops = append(ops, Op{K: "register_op", U: "u1", S: "m|w|p", A: a}, Op{K: "create_svc", U: "u1", S: "n|d|w|p", A: a})
			}
			ops = append(ops, Op{K: "register_op", U: "u2", S: "m|w|p", A: "2tkb"}, Op{K: "register_op", U: "u1", S: "|w|p", A: "2tka"}, Op{K: "create_svc", U: "u1", S: "|d|w|p", A: "2tka"},
				Op{K: "oparams", U: "gov", ID: 15}, Op{K: "oparams", U: "gov", ID: 15, A: "2tka"}, Op{K: "oparams", U: "gov", ID: 15, A: "2tka,2tkb"},
				Op{K: "sparams", U: "gov"}, Op{K: "sparams", U: "gov", A: "2tka"}, Op{K: "sparams", U: "gov", A: "1tkb"}, Op{K: "sparams", U: "u1"}, Op{K: "oparams", U: "u1", ID: 15}, block(5))
			r.RM(&RMConf{Name: "fees", Bal: stdBal, Denoms: stdDenoms, Depth: r.Pick(4, 5), Own: own, Ops: ops})
		},
	})
	register(&Property{
		ID: "C13", Title: "Each denom has exactly one pool, and pools hold only their denom",
		Need: []string{"del_pool:ok", "und_pool:ok", "del_pool:rejected"},
		Run: func(r *Run) {
			r.RM(&RMConf{Name: "pools", Bal: map[string]string{"u1": "3tka,3tkb,3tkc", "u2": "3tka,3tkb"}, Denoms: []string{"tka", "tkb", "tkc"}, Setup: stdSetup()[:1], Depth: r.Pick(5, 7),
				Own:   Own{Facts: []string{"pool/", "tokens/pool", "shares/pool", "escrow/pool", "del/"}, Admit: []string{"del_pool"}},
				Check: poolQueries,
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u1", A: "2tkb"}, {K: "del_pool", U: "u1", A: "1tkc"}, {K: "del_pool", U: "u2", A: "1tka"}, {K: "del_pool", U: "u2", A: "3tkb"}, {K: "del_pool", U: "u2", A: "1tkc"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "2tkb"}, {K: "und_pool", U: "u2", A: "1tka"}, {K: "rparams", U: "gov", ID: 10, S: "tka"}, {K: "rparams", U: "gov", ID: 10}, block(10),
				}})
		},
	})
}

// completionTime: the reply to an undelegation announces the moment at which it is paid.
func completionTime(s *State, o Op, out Outcome) {
	if len(o.K) < 4 || o.K[:4] != "und_" || out.Result == nil || len(out.Result.MsgResponses) == 0 {
		return
	}
	x, ok := out.Result.MsgResponses[0].GetCachedValue().(*restakingtypes.MsgUndelegateResponse)
	if !ok {
		return
	}
	if want := rm(s).Now + rm(s).UnbondTime; x.CompletionTime.UnixMilli() != want {
		Fail("completion:"+o.K, "%s announces completion at %d instead of %d", o, x.CompletionTime.UnixMilli(), want)
	}
}

// newID: the reply to a registration announces the identifier under which the target exists.
func newID(r *Run, pre, s *State, o Op, out Outcome) {
	if out.Result == nil || len(out.Result.MsgResponses) == 0 {
		return
	}
	switch x := out.Result.MsgResponses[0].GetCachedValue().(type) {
	case *operatorstypes.MsgRegisterOperatorResponse:
		if x.NewOperatorID != rm(s).NextOp-1 {
			Fail("newid:op", "%s announces operator %d instead of %d", o, x.NewOperatorID, rm(s).NextOp-1)
		}
	case *servicestypes.MsgCreateServiceResponse:
		if x.NewServiceID != rm(s).NextSv-1 {
			Fail("newid:svc", "%s announces service %d instead of %d", o, x.NewServiceID, rm(s).NextSv-1)
		}
	}
}

// operatorByAddr: identifiers map to distinct addresses which resolve back to the operator.
func operatorByAddr(r *Run, s *State) {
	ctx := s.Probe()
	ops, err := s.App.OperatorsKeeper.GetOperators(ctx)
	check(err)
	seen := map[string]uint32{}
	for _, o := range ops {
		if other, ok := seen[o.Address]; ok {
			Fail("opaddr", "operators %d and %d share the address %s", other, o.ID, o.Address)
		}
		seen[o.Address] = o.ID
		if o.Address != operatorstypes.GetOperatorAddress(o.ID).String() {
			Fail("opaddr", "operator %d has address %s", o.ID, o.Address)
		}
	}
}

// recoverable: from here, each owner can undelegate everything he has, and is paid back in full.
func recoverable(r *Run, s *State) {
	m := rm(s)
	if len(m.Del) == 0 && len(m.Ubd) == 0 {
		return
	}
	n := s.Branch()
	before := map[string]Amt{}
	owed := map[string]Amt{}
	for _, u := range m.Users {
		before[u] = amt(n.App.balance(n.Ctx(), addr(u), m.Denoms))
	}
	keys := make([]delKey, 0)
	for k := range m.Del {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].String() < keys[j].String() })
	for _, k := range keys {
		o := Op{K: "und_" + k.Kind, U: k.User, ID: k.ID, A: m.Del[k].String()}
		if out := n.App.Msg(n.Ctx(), o.Msg()); !out.OK() {
			Fail("stuck:"+k.Kind+":"+errClass(out), "%s cannot withdraw %s from %s %d: %s", k.User, m.Del[k], k.Kind, k.ID, out)
		}
		owed[k.User] = owed[k.User].add(m.Del[k])
	}
	for _, x := range m.Ubd {
		owed[x.User] = owed[x.User].add(x.A)
	}
	for i := 0; i < 2; i++ {
		if out, where := advance(n, time.Duration(m.UnbondTime+30_000)*time.Millisecond); !out.OK() {
			Fail("stuck:halt:"+errClass(out), "the chain stops at %s while paying back: %s", where, out)
		}
	}
	for _, u := range m.Users {
		if got, want := n.App.balance(n.Ctx(), addr(u), m.Denoms), before[u].add(owed[u]).String(); got != want {
			Fail("stuck:paid", "%s should own %q after withdrawing everything, but owns %q", u, want, got)
		}
	}
	r.Count("probe:recovered")
}

// custody: whatever the model says, every target account holds what is delegated to it plus what is
// unbonding from it, and the target's token record equals the delegations.
func custody(r *Run, s *State) {
	f := ObserveRM(s.App, s.Probe(), rm(s))
	owed := map[string]Amt{}
	for _, kv := range []string{"del/", "ubd/"} {
		for k, v := range f {
			if len(k) > 4 && k[:4] == kv {
				var u, kind string
				var id int
				fmt.Sscanf(splitSlash(k), "%s %s %d", &u, &kind, &id)
				t := fmt.Sprintf("%s/%d", kind, id)
				owed[t] = owed[t].add(sumUbd(v))
			}
		}
	}
	for t, a := range owed {
		if f["escrow/"+t] != a.String() {
			Fail("custody", "account of %s holds %q but owes %q", t, f["escrow/"+t], a)
		}
	}
	for k, v := range f {
		if len(k) > 7 && k[:7] == "escrow/" && owed[k[7:]].String() != v {
			Fail("custody", "account of %s holds %q but owes %q", k[7:], v, owed[k[7:]])
		}
	}
}
