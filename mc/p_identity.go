package main

import "fmt"

// Records of different users, targets and denoms are kept apart, and an account is the same one however its
// address is spelled (bech32 allows upper case too).

var idBal = map[string]string{"u1": "6tka,6tkaa,6tkb", "u2": "6tka,6tkaa", "long-u1": "6tka,6tkaa", "oa": "", "ob": "", "sa": "", "sx": ""}

// numbers creates operators, services and pools 1, lo, lo+1: neighbours across a byte of the keys.
func numbers(lo uint32) []Op {
	return []Op{
		{K: "rparams", U: "gov", ID: 10},
		{K: "oparams", U: "gov", ID: 15},
		{K: "register_op", U: "oa", S: "op one|w|p"}, {K: "create_svc", U: "sa", S: "svc one|d|w|p"}, {K: "activate_svc", U: "sa", ID: 1}, {K: "del_pool", U: "u1", A: "1tkaa"},
		{K: "ids", ID: lo},
		{K: "register_op", U: "ob", S: "op lo|w|p"}, {K: "create_svc", U: "sx", S: "svc lo|d|w|p"}, {K: "activate_svc", U: "sx", ID: lo}, {K: "del_pool", U: "u1", A: "1tka"},
		{K: "register_op", U: "oa", S: "op hi|w|p"}, {K: "create_svc", U: "sa", S: "svc hi|d|w|p"}, {K: "activate_svc", U: "sa", ID: lo + 1}, {K: "del_pool", U: "u1", A: "1tkb"},
	}
}

func init() {
	register(&Property{
		ID: "C34", Title: "Records of different accounts and targets never mix, however spelled",
		Assumptions: []string{noSlash, "an administrator address spelled in upper case is not recognised as the administrator: the request is refused, which is not looked at here"},
		Need:        []string{"del_pool:ok", "del_op:ok", "del_svc:ok", "und_pool:ok", "und_op:ok", "und_svc:ok", "prefs:ok", "claim:ok", "withdraw_fund:ok", "burn:ok", "block", "delete_op:ok", "delete_svc:ok", "deactivate_op:ok"},
		Run: func(r *Run) {
			all := Own{Facts: []string{""}, Admit: []string{"*"}, Halt: true}
			r.RM(&RMConf{Name: "spelling: restaking", Bal: stdBal, Denoms: stdDenoms, Setup: stdSetup(), Depth: r.Pick(5, 7), Own: all,
				Ops: []Op{
					{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "^u1", A: "1tka"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "^u1", ID: 1, A: "1tka,1tkb"},
					{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "^u1", ID: 1, A: "1tkb"}, {K: "prefs", U: "u1", S: "n:1"}, {K: "prefs", U: "^u1", S: "na:1"},
					{K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "^u1", A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_op", U: "^u1", ID: 1, A: "1tka"},
					{K: "und_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "^u1", ID: 1, A: "1tka"}, block(10),
				}})
			rw := &RMConf{Name: "spelling: rewards", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Depth: r.Pick(5, 6), Own: all,
				Setup: rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_pool", U: "u2", A: "1tka"}),
				Ops: []Op{
					{K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "^u1", ID: 1, A: "1tka"}, {K: "del_pool", U: "^u2", A: "1tka"}, {K: "und_op", U: "^u1", ID: 1, A: "1tka"},
					{K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "^u1", S: "op", ID: 1}, {K: "claim", U: "^u2", S: "pool", ID: 1}, {K: "waddr", U: "^u1", S: "sx"}, {K: "prefs", U: "^u2", S: "n:"}, {K: "prefs", U: "u2", S: "a:"}, block(10),
				}}
			rw.Check = rw.entitled
			r.RM(rw)
			r.RM(lvConf("spelling: liquid vesting", r.Pick(5, 7), all, lvSetup(dep(2, "tka", "u1:2"), mint("u1", "6tka"), mint("u2", "3tka")), []Op{
				dep(1, "tka", "^u1:1"), dep(1, "tka", "u1:1"), {K: "withdraw_fund", U: "u1", A: "1tka"}, {K: "withdraw_fund", U: "^u1", A: "1tka"},
				{K: "del_pool", U: "u1", A: "3locked/tka"}, {K: "del_op", U: "^u1", ID: 1, A: "3locked/tka"}, {K: "und_op", U: "^u1", ID: 1, A: "2locked/tka"}, {K: "und_pool", U: "^u1", A: "1locked/tka"},
				burn("u1", "4locked/tka"), burn("u1", "1locked/tka"), {K: "burn", U: "^burner", S: "u1", A: "2locked/tka"}, {K: "mint", U: "^minter", S: "u1", A: "1tka"}, block(10),
			}))
			for _, lo := range []uint32{10, 255, 65535} {
				denoms := []string{"tka", "tkaa", "tkb"}
				r.RM(&RMConf{Name: fmt.Sprintf("numbers around %d: stakes", lo), Bal: idBal, Denoms: denoms, Setup: numbers(lo), Depth: r.Pick(3, 5), Own: all,
					Ops: []Op{
						{K: "del_pool", U: "u2", A: "1tka"}, {K: "del_pool", U: "long-u1", A: "1tkaa"}, {K: "del_op", U: "u1", ID: lo, A: "1tka"}, {K: "del_op", U: "u1", ID: lo + 1, A: "1tka,1tkaa"},
						{K: "del_op", U: "u2", ID: lo, A: "1tka"}, {K: "del_op", U: "long-u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u1", ID: lo, A: "1tkaa"}, {K: "del_svc", U: "u1", ID: lo + 1, A: "1tka"},
						{K: "del_svc", U: "long-u1", ID: lo + 1, A: "2tka"}, {K: "del_svc", U: "u1", ID: 1, A: "1tkaa"},
						{K: "und_pool", U: "u1", A: "1tkaa"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "1tkb"}, {K: "und_op", U: "u1", ID: lo, A: "1tka"}, {K: "und_op", U: "u1", ID: lo + 1, A: "1tka"},
						{K: "und_svc", U: "u1", ID: lo, A: "1tkaa"}, {K: "und_svc", U: "u1", ID: lo + 1, A: "1tka"}, {K: "und_svc", U: "long-u1", ID: lo + 1, A: "1tka"}, block(10),
					}})
				r.RM(&RMConf{Name: fmt.Sprintf("numbers around %d: relations", lo), Bal: idBal, Denoms: denoms, Setup: append(numbers(lo), Op{K: "oparams", U: "gov", ID: 5}), Depth: r.Pick(3, 5), Own: all,
					Ops: []Op{
						{K: "join", U: "oa", ID: 1, ID2: lo}, {K: "join", U: "ob", ID: lo, ID2: lo + 1}, {K: "join", U: "oa", ID: lo + 1, ID2: 1}, {K: "leave", U: "ob", ID: lo, ID2: lo + 1},
						{K: "allow", U: "sa", ID: 1, ID2: lo}, {K: "allow", U: "sx", ID: lo, ID2: lo + 1}, {K: "allow", U: "sa", ID: lo + 1, ID2: lo}, {K: "disallow", U: "sx", ID: lo, ID2: lo + 1},
						{K: "borrow", U: "sa", ID: 1, ID2: lo}, {K: "borrow", U: "sx", ID: lo, ID2: lo + 1}, {K: "borrow", U: "sa", ID: lo + 1, ID2: 1}, {K: "cease", U: "sx", ID: lo, ID2: lo + 1},
						{K: "prefs", U: "u1", S: fmt.Sprintf("n:1,%d", lo)}, {K: "prefs", U: "long-u1", S: fmt.Sprintf("a:%d", lo+1)}, {K: "params_op", U: "ob", ID: lo, S: "0.5"}, {K: "params_op", U: "oa", ID: lo + 1, S: "0.1"}, {K: "params_svc", U: "sx", ID: lo, S: "tka"},
						{K: "deactivate_op", U: "oa", ID: lo + 1}, {K: "deactivate_op", U: "ob", ID: lo}, {K: "delete_op", U: "ob", ID: lo}, {K: "delete_op", U: "oa", ID: lo + 1}, {K: "deactivate_svc", U: "sx", ID: lo}, {K: "delete_svc", U: "sx", ID: lo}, {K: "delete_svc", U: "sa", ID: lo + 1}, {K: "deactivate_svc", U: "sa", ID: lo + 1},
						{K: "update_op", U: "ob", ID: lo, S: "new|x|y"}, {K: "update_svc", U: "sa", ID: lo + 1, S: "new|x|y|z"}, block(5),
					}})
			}
			rb := cloneMap(rwBal)
			rb["long-u1"] = "6tka,6tkb"
			nums := &RMConf{Name: "numbers around 255: rewards", Bal: rb, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Depth: r.Pick(3, 5), Own: all,
				Setup: rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "ids", ID: 255}, Op{K: "register_op", U: "ob", S: "op lo|w|p"}, Op{K: "create_svc", U: "sx", S: "svc lo|d|w|p"}, Op{K: "activate_svc", U: "sx", ID: 255},
					Op{K: "register_op", U: "oa", S: "op hi|w|p"}, Op{K: "create_svc", U: "sa", S: "svc hi|d|w|p"}, Op{K: "activate_svc", U: "sa", ID: 256}, Op{K: "join", U: "ob", ID: 255, ID2: 1}, Op{K: "join", U: "oa", ID: 256, ID2: 1},
					Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_op", U: "u1", ID: 255, A: "1tka"}, Op{K: "del_op", U: "long-u1", ID: 256, A: "1tkb"}, Op{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_pool", U: "u1", A: "1tka"}, Op{K: "del_pool", U: "long-u1", A: "2tka"}, block(10)),
				Ops: []Op{
					{K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "u1", S: "op", ID: 255}, {K: "claim", U: "long-u1", S: "op", ID: 256}, {K: "claim", U: "long-u1", S: "pool", ID: 1}, {K: "claim", U: "u1", S: "pool", ID: 1},
					{K: "del_op", U: "u1", ID: 256, A: "1tka"}, {K: "del_op", U: "long-u1", ID: 255, A: "1tka"}, {K: "und_op", U: "u1", ID: 255, A: "1tka"}, {K: "params_op", U: "ob", ID: 255, S: "0.5"}, {K: "leave", U: "oa", ID: 256, ID2: 1},
					{K: "waddr", U: "long-u1", S: "sx"}, {K: "prefs", U: "long-u1", S: "n:"}, {K: "commission", U: "ob", ID: 255}, block(10),
				}}
			nums.Check = nums.entitled
			r.RM(nums)
		},
	})
}
