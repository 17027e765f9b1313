package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	rewardskeeper "github.com/milkyway-labs/milkyway/v3/x/rewards/keeper"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

const perDay = "86400000000rwd" // a million per second

var rwBal = map[string]string{"u1": "6tka,6tkb", "u2": "6tka", "oa": "", "ob": "", "sa": "", "sx": "", "f": "100000000000rwd,100000000000rwx", "z": "1tka,1tkb"}

// rwSetup: the standard world with two priced restakable denoms and a funded plan of service 1, which has
// already seen its first block.
func rwSetup(plan string, more ...Op) []Op {
	out := append(stdSetup(),
		Op{K: "asset", U: "gov", S: "tka|TKA"}, Op{K: "asset", U: "gov", ID: 1, S: "tkb|TKB"},
		Op{K: "price", S: "TKA", ID: 2}, Op{K: "price", S: "TKB", ID: 5})
	if plan != "" {
		out = append(out, Op{K: "plan", U: "sa", ID: 1, A: perDay, S: plan}, Op{K: "fund", U: "f", ID: 1, A: "2000000000rwd"})
	}
	out = append(out, Op{K: "del_pool", U: "z", A: "1tka"}, Op{K: "del_pool", U: "z", A: "1tkb"}, Op{K: "und_pool", U: "z", A: "1tka"}, Op{K: "und_pool", U: "z", A: "1tkb"})
	out = append(out, Op{K: "borrow", U: "sa", ID: 1, ID2: 1}, Op{K: "borrow", U: "sa", ID: 1, ID2: 2}, Op{K: "join", U: "oa", ID: 1, ID2: 1})
	out = append(out, more...)
	return append(out, block(10))
}

const always = "0,100000|b0|b0|b0"

// entitled: on a branch, every delegation and every commission is withdrawn, and must pay exactly what the
// model says has been earned.
func (c *RMConf) entitled(r *Run, s *State) {
	m := rm(s)
	for k := range m.Del {
		n := s.Branch()
		c.step(r, n, Op{K: "claim", U: k.User, S: k.Kind, ID: k.ID})
	}
	for id := range m.RW.Comm {
		n := s.Branch()
		c.step(r, n, Op{K: "commission", U: m.Ops[id].Admin, ID: id})
	}
}

// solvent: on a branch everybody withdraws everything, one after the other, and it all works; and nobody is
// recorded to be owed more than what the rewards pool holds.
func solvent(r *Run, s *State, order func([]Op) []Op) {
	n := s.Branch()
	ctx := n.Ctx()
	var claims []Op
	dels, err := s.App.RestakingKeeper.GetAllDelegations(ctx)
	check(err)
	for _, d := range dels {
		for _, u := range rm(s).Users {
			if bech(u) == d.UserAddress {
				claims = append(claims, Op{K: "claim", U: u, S: kindOf(d.Type), ID: d.TargetID})
			}
		}
	}
	for id := uint32(1); id <= 3; id++ {
		op, found, err := s.App.OperatorsKeeper.GetOperator(ctx, id)
		check(err)
		if !found {
			continue
		}
		com, err := s.App.RewardsKeeper.GetOperatorAccumulatedCommission(ctx, id)
		check(err)
		if pools, _ := com.Commissions.TruncateDecimal(); !pools.Sum().IsZero() {
			for _, u := range rm(s).Users {
				if bech(u) == op.Admin {
					claims = append(claims, Op{K: "commission", U: u, ID: id})
				}
			}
		}
	}
	sort.Slice(claims, func(i, j int) bool { return claims[i].String() < claims[j].String() })
	for _, o := range order(claims) {
		out := s.App.Msg(n.Ctx(), o.Msg())
		if !out.OK() {
			Fail("solvency:"+o.K, "when everybody withdraws, %s fails: %s", o, out)
		}
		r.Count("withdrawn")
	}
}

func sameOrder(x []Op) []Op { return x }
func reverse(x []Op) []Op {
	var out []Op
	for i := len(x) - 1; i >= 0; i-- {
		out = append(out, x[i])
	}
	return out
}

// solvency checks both orders, and the records of what is owed.
func solvency(r *Run, s *State) {
	solvent(r, s, sameOrder)
	solvent(r, s, reverse)
	ctx := s.Probe()
	q := rewardskeeper.NewQueryServer(s.App.RewardsKeeper)
	var owed sdk.DecCoins
	for id := uint32(1); id <= 3; id++ {
		if x, err := q.PoolOutstandingRewards(ctx, &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: id}); err == nil {
			owed = owed.Add(x.Rewards.Rewards.Sum()...)
		}
		if x, err := q.OperatorOutstandingRewards(ctx, &rewardstypes.QueryOperatorOutstandingRewardsRequest{OperatorId: id}); err == nil {
			owed = owed.Add(x.Rewards.Rewards.Sum()...)
		}
		if x, err := q.ServiceOutstandingRewards(ctx, &rewardstypes.QueryServiceOutstandingRewardsRequest{ServiceId: id}); err == nil {
			owed = owed.Add(x.Rewards.Rewards.Sum()...)
		}
	}
	for _, c := range owed {
		if c.IsNegative() {
			Fail("solvency:negative", "negative outstanding rewards %s", c)
		}
		held := s.App.BankKeeper.GetBalance(ctx, authtypes.NewModuleAddress(rewardstypes.RewardsPoolName), c.Denom)
		if c.Amount.Ceil().TruncateInt().GT(held.Amount) {
			Fail("solvency:owed", "%s is owed, but the rewards pool holds %s only", c, held)
		}
	}
}

// rewardQueries: every query about rewards agrees with what is actually paid by a withdrawal.
func rewardQueries(r *Run, s *State) {
	m := rm(s)
	w := m.RW
	ctx := s.Probe()
	q := rewardskeeper.NewQueryServer(s.App.RewardsKeeper)
	var outstanding = map[string]Rats{}
	pays := func(o Op) Amt {
		n := s.Branch()
		o2 := o
		to := w.waddr(o2.U)
		ad := addr(to)
		if strings.HasPrefix(to, "mod:") {
			ad = moduleAddr(to[4:])
		}
		before := amt(s.App.balance(n.Ctx(), ad, w.Denoms))
		if out := s.App.Msg(n.Ctx(), o.Msg()); !out.OK() {
			return nil
		}
		return amt(s.App.balance(n.Ctx(), ad, w.Denoms)).sub(before)
	}
	trunc := func(p rewardstypes.DecPools) string {
		x, _ := p.TruncateDecimal()
		return amtOf(x.Sum()).String()
	}
	for _, u := range m.Users {
		var total []string
		for k := range m.Del {
			if k.User != u {
				continue
			}
			paid := pays(Op{K: "claim", U: u, S: k.Kind, ID: k.ID})
			var got rewardstypes.DecPools
			var err error
			switch k.Kind {
			case "pool":
				var x *rewardstypes.QueryPoolDelegationRewardsResponse
				if x, err = q.PoolDelegationRewards(ctx, &rewardstypes.QueryPoolDelegationRewardsRequest{DelegatorAddress: bech(u), PoolId: k.ID}); err == nil {
					got = x.Rewards
				}
			case "op":
				var x *rewardstypes.QueryOperatorDelegationRewardsResponse
				if x, err = q.OperatorDelegationRewards(ctx, &rewardstypes.QueryOperatorDelegationRewardsRequest{DelegatorAddress: bech(u), OperatorId: k.ID}); err == nil {
					got = x.Rewards
				}
			default:
				var x *rewardstypes.QueryServiceDelegationRewardsResponse
				if x, err = q.ServiceDelegationRewards(ctx, &rewardstypes.QueryServiceDelegationRewardsRequest{DelegatorAddress: bech(u), ServiceId: k.ID}); err == nil {
					got = x.Rewards
				}
			}
			if err != nil || trunc(got) != paid.String() {
				Fail("query:delegation:"+k.Kind, "the pending rewards of %s are reported as %q (%v), but a withdrawal pays %q", k, trunc(got), err, paid)
			}
			if !paid.zero() {
				r.Count("query:delegation:" + k.Kind)
			}
			for d, v := range w.Acc[k] {
				t := fmt.Sprintf("%s/%d", k.Kind, k.ID)
				if outstanding[t] == nil {
					outstanding[t] = Rats{}
				}
				outstanding[t].add(d, v)
			}
			total = append(total, fmt.Sprintf("%s/%d:%s", k.Kind, k.ID, got.Sum()))
		}
		x, err := q.DelegatorTotalRewards(ctx, &rewardstypes.QueryDelegatorTotalRewardsRequest{DelegatorAddress: bech(u)})
		if err != nil {
			Fail("query:total", "the total rewards of %s cannot be queried: %v", u, err)
		}
		var got []string
		var sum rewardstypes.DecPools
		for _, d := range x.Rewards {
			got = append(got, fmt.Sprintf("%s/%d:%s", kindOf(d.DelegationType), d.DelegationTargetID, d.Reward.Sum()))
			sum = sum.Add(d.Reward...)
		}
		sort.Strings(got)
		sort.Strings(total)
		if strings.Join(got, " ") != strings.Join(total, " ") || sum.String() != rewardstypes.DecPools(x.Total).String() {
			Fail("query:total", "the total rewards of %s are reported as %v, total %s; expected %v", u, got, x.Total, total)
		}
		wa, err := q.DelegatorWithdrawAddress(ctx, &rewardstypes.QueryDelegatorWithdrawAddressRequest{DelegatorAddress: bech(u)})
		if err != nil || wa.WithdrawAddress != wname(w.waddr(u)) {
			Fail("query:waddr", "the withdraw address of %s is reported as %v (%v)", u, wa, err)
		}
	}
	for id, op := range m.Ops {
		x, err := q.OperatorCommission(ctx, &rewardstypes.QueryOperatorCommissionRequest{OperatorId: id})
		if err != nil {
			Fail("query:commission", "the commission of operator %d cannot be queried: %v", id, err)
		}
		paid := pays(Op{K: "commission", U: op.Admin, ID: id})
		if trunc(x.Commission.Commissions) != paid.String() {
			Fail("query:commission", "the commission of operator %d is reported as %s, but a withdrawal pays %s", id, trunc(x.Commission.Commissions), paid)
		}
		if !paid.zero() {
			r.Count("query:commission")
		}
		t := fmt.Sprintf("op/%d", id)
		for d, v := range w.Comm[id] {
			if outstanding[t] == nil {
				outstanding[t] = Rats{}
			}
			outstanding[t].add(d, v)
		}
	}
	// outstanding rewards of the targets: what has been allocated and not withdrawn yet, within rounding
	out := func(t string, p rewardstypes.DecPools, err error) {
		if err != nil {
			Fail("query:outstanding", "the outstanding rewards of %s cannot be queried: %v", t, err)
		}
		sum := p.Sum()
		for _, d := range w.Denoms {
			want := outstanding[t][d]
			if want == nil {
				want = new(big.Rat)
			}
			got, _ := new(big.Rat).SetString(sum.AmountOf(d).String())
			diff := new(big.Rat).Sub(got, want)
			if diff.Abs(diff).Cmp(rat(1+int64(len(m.Denoms)*len(m.Users)))) > 0 {
				Fail("query:outstanding", "the outstanding rewards of %s are reported as %s, but %s is owed", t, sum, outstanding[t])
			}
		}
	}
	for id := range m.Ops {
		x, err := q.OperatorOutstandingRewards(ctx, &rewardstypes.QueryOperatorOutstandingRewardsRequest{OperatorId: id})
		if err != nil {
			x = &rewardstypes.QueryOperatorOutstandingRewardsResponse{}
		}
		out(fmt.Sprintf("op/%d", id), x.Rewards.Rewards, err)
	}
	for id := range m.Svcs {
		x, err := q.ServiceOutstandingRewards(ctx, &rewardstypes.QueryServiceOutstandingRewardsRequest{ServiceId: id})
		if err != nil {
			x = &rewardstypes.QueryServiceOutstandingRewardsResponse{}
		}
		out(fmt.Sprintf("svc/%d", id), x.Rewards.Rewards, err)
	}
	for _, id := range m.Pools {
		x, err := q.PoolOutstandingRewards(ctx, &rewardstypes.QueryPoolOutstandingRewardsRequest{PoolId: id})
		if err != nil {
			x = &rewardstypes.QueryPoolOutstandingRewardsResponse{}
		}
		out(fmt.Sprintf("pool/%d", id), x.Rewards.Rewards, err)
	}
	var want []string
	show := func(p rewardstypes.RewardsPlan) string {
		return fmt.Sprintf("%d:svc%d,%s,%d-%d", p.ID, p.ServiceID, amtOf(p.AmountPerDay), p.StartTime.UnixMilli(), p.EndTime.UnixMilli())
	}
	for id, p := range w.Plans {
		want = append(want, fmt.Sprintf("%d:svc%d,%s,%d-%d", id, p.Svc, p.Amt, p.Start+genTime.UnixMilli(), p.End+genTime.UnixMilli()))
	}
	expectPages("RewardsPlans", want, func(pg *pageRequest) ([]string, *pageResponse, error) {
		x, err := q.RewardsPlans(ctx, &rewardstypes.QueryRewardsPlansRequest{Pagination: pg})
		if err != nil {
			return nil, nil, err
		}
		var items []string
		for _, p := range x.RewardsPlans {
			items = append(items, show(p))
		}
		return items, x.Pagination, nil
	})
	for id := uint32(1); id < w.Next+2; id++ {
		x, err := q.RewardsPlan(ctx, &rewardstypes.QueryRewardsPlanRequest{PlanId: uint64(id)})
		got := ""
		if err == nil {
			got = show(x.RewardsPlan)
		}
		exp := ""
		if p := w.Plans[id]; p != nil {
			exp = fmt.Sprintf("%d:svc%d,%s,%d-%d", id, p.Svc, p.Amt, p.Start+genTime.UnixMilli(), p.End+genTime.UnixMilli())
		}
		if got != exp {
			Fail("query:plan", "plan %d is reported as %q (%v), expected %q", id, got, err, exp)
		}
	}
	px, err := q.Params(ctx, &rewardstypes.QueryParamsRequest{})
	if err != nil || amtOf(px.Params.RewardsPlanCreationFee).String() != w.Fee.String() {
		Fail("query:params", "the rewards parameters are reported as %v (%v)", px, err)
	}
}

func init() {
	rewardOwn := []string{"reward/"}
	register(&Property{
		ID: "C14", Title: "Everything earned can be paid: the rewards pool is always solvent",
		Assumptions: []string{noSlash},
		Need:        []string{"withdrawn", "block", "claim:ok", "commission:ok"},
		Run: func(r *Run) {
			// the model is not consulted: whatever amounts the code computes, they must be covered
			run := func(name string, depth int, setup []Op, ops ...Op) {
				r.RM(&RMConf{Name: name, Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd", "rwx"}, Depth: depth, Setup: setup, Loose: true, Check: solvency, Ops: ops})
			}
			run("small amounts", r.Pick(4, 5), append(rwSetup("", Op{K: "plan", U: "sa", ID: 1, A: "86400rwd,43200rwx", S: "0,100000|b1|b1|b1"}, Op{K: "fund", U: "f", ID: 1, A: "200rwd,200rwx"}),
				Op{K: "params_op", U: "oa", ID: 1, S: "0.333333333333333333"},
				Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_pool", U: "u1", A: "1tka"}),
				Op{K: "del_pool", U: "u2", A: "2tka"}, Op{K: "del_op", U: "u2", ID: 1, A: "1tka"}, Op{K: "del_svc", U: "u2", ID: 1, A: "2tka"},
				Op{K: "und_pool", U: "u1", A: "1tka"}, Op{K: "und_op", U: "u1", ID: 1, A: "1tka"}, Op{K: "und_svc", U: "u1", ID: 1, A: "1tka"},
				Op{K: "claim", U: "u1", S: "op", ID: 1}, Op{K: "claim", U: "u2", S: "pool", ID: 1}, Op{K: "commission", U: "oa", ID: 1},
				Op{K: "params_op", U: "oa", ID: 1, S: "0.07"}, Op{K: "price", S: "TKB", ID: 7},
				block(1), block(7))
			run("status and trust", r.Pick(4, 5), rwSetup(always, Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_svc", U: "u1", ID: 1, A: "1tka"},
				Op{K: "del_pool", U: "u1", A: "1tka"}, Op{K: "del_pool", U: "u2", A: "1tka"}, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "params_op", U: "oa", ID: 1, S: "0.1"}),
				Op{K: "prefs", U: "u1", S: "n"}, Op{K: "prefs", U: "u1", S: ":1"}, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "revoke", U: "gov", ID: 1},
				Op{K: "deactivate_op", U: "oa", ID: 1}, Op{K: "reactivate_op", U: "oa", ID: 1}, Op{K: "delete_op", U: "oa", ID: 1},
				Op{K: "deactivate_svc", U: "sa", ID: 1}, Op{K: "delete_svc", U: "sa", ID: 1}, Op{K: "params_svc", U: "sa", ID: 1, S: "tka"},
				Op{K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "und_svc", U: "u1", ID: 1, A: "1tka"}, Op{K: "und_pool", U: "u2", A: "1tka"},
				Op{K: "commission", U: "oa", ID: 1}, Op{K: "claim", U: "u1", S: "pool", ID: 1}, Op{K: "unasset", U: "gov", S: "tka"},
				block(10), block(15))
			run("plans", r.Pick(4, 6), append(rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}), Op{K: "del_op", U: "u1", ID: 1, A: "2tka"}, Op{K: "del_pool", U: "u2", A: "1tka"}),
				Op{K: "plan", U: "sa", ID: 1, A: "86400000rwd,1000rwx", S: "15,40|b0|e1|b0"}, Op{K: "plan", U: "sa", ID: 1, A: "86400000rwx", S: "15,100000|b3|w1:1=2|b0"},
				Op{K: "fund", U: "f", ID: 2, A: "25000rwd"}, Op{K: "fund", U: "f", ID: 2, A: "3000rwd,15000rwx"}, Op{K: "edit_plan", U: "sa", ID: 1, A: "86400000rwd", S: "0,45|b0|b1|b0"},
				Op{K: "del_op", U: "u2", ID: 1, A: "3tka"}, Op{K: "claim", U: "u1", S: "op", ID: 1}, Op{K: "delete_svc", U: "sa", ID: 1}, Op{K: "deactivate_svc", U: "sa", ID: 1},
				block(5), block(10))
			splits(r)
		},
	})
	register(&Property{
		ID: "C15", Title: "Plan rewards are debited exactly and split by the configured weights",
		Need: []string{"block", "fund:ok", "paid"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"planbal/", "remainder/", "reward/"}}
			c := &RMConf{Name: "debits", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd", "rwx"}, Own: own, Depth: r.Pick(4, 6),
				Setup: rwSetup("", Op{K: "accredit", U: "gov", ID: 1}, Op{K: "plan", U: "sa", ID: 1, A: "86400000000rwd,8640000000rwx", S: "15,40|b0|b0|b0"}, Op{K: "plan", U: "sa", ID: 1, A: "86400000000rwd", S: "0,100000|b1|b2|b3"},
					Op{K: "fund", U: "f", ID: 1, A: "40000000rwd,4000000rwx"}),
				Ops: []Op{
					{K: "fund", U: "f", ID: 1, A: "5000000rwx"}, {K: "fund", U: "f", ID: 2, A: "25000000rwd"}, {K: "fund", U: "f", ID: 2, A: "5000000rwd"},
					{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "del_pool", U: "u2", A: "1tka"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "activate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "price", S: "TKA", ID: 0}, {K: "price", S: "TKA", ID: 3},
					block(5), block(10), block(31), ticks(700),
				}}
			c.Check = c.entitled
			r.RM(c)
			weights(r)
		},
	})
	register(&Property{
		ID: "C16", Title: "Each delegator earns exactly the share his stake is entitled to",
		Assumptions: []string{noSlash, "rounding: a withdrawal may pay less than one unit per staked denom below the exact share"},
		Need:        []string{"paid", "block", "claim:ok"},
		Run: func(r *Run) {
			conf := func(name string, depth int, setup []Op, ops ...Op) {
				c := &RMConf{Name: name, Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: rewardOwn, Admit: []string{"claim"}}, Depth: depth, Setup: setup, Ops: ops}
				c.Check = c.entitled
				r.RM(c)
			}
			conf("shares", r.Pick(4, 6), rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}),
				Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}, Op{K: "del_op", U: "u2", ID: 1, A: "1tka"}, Op{K: "und_op", U: "u1", ID: 1, A: "1tka"},
				Op{K: "del_svc", U: "u1", ID: 1, A: "1tka,2tkb"}, Op{K: "del_svc", U: "u2", ID: 1, A: "3tka"}, Op{K: "und_svc", U: "u1", ID: 1, A: "2tkb"},
				Op{K: "del_pool", U: "u1", A: "2tka"}, Op{K: "del_pool", U: "u2", A: "1tka"}, Op{K: "und_pool", U: "u1", A: "1tka"}, Op{K: "del_pool", U: "u1", A: "1tkb"},
				Op{K: "claim", U: "u1", S: "op", ID: 1}, Op{K: "claim", U: "u1", S: "svc", ID: 1}, Op{K: "claim", U: "u1", S: "pool", ID: 1},
				block(10))
			conf("restakable denoms and prices", r.Pick(4, 5), rwSetup("0,100000|b0|e0|b0", Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_op", U: "u1", ID: 1, A: "1tka,2tkb"}, Op{K: "del_svc", U: "u2", ID: 1, A: "1tka"},
				Op{K: "del_pool", U: "u1", A: "2tka"}, Op{K: "del_pool", U: "u1", A: "1tkb"}),
				Op{K: "params_svc", U: "sa", ID: 1, S: "tka"}, Op{K: "params_svc", U: "sa", ID: 1, S: "tkb"}, Op{K: "params_svc", U: "sa", ID: 1, S: ""},
				Op{K: "rparams", U: "gov", ID: 10, S: "tka"}, Op{K: "rparams", U: "gov", ID: 10, S: "tkb"}, Op{K: "rparams", U: "gov", ID: 10, S: "tka,tkb"}, Op{K: "rparams", U: "gov", ID: 10},
				Op{K: "price", S: "TKA", ID: 0}, Op{K: "price", S: "TKA", ID: 7}, Op{K: "asset", U: "gov", ID: 12, S: "tkb|TKB"}, Op{K: "asset", U: "gov", ID: 0, S: "tkb|TKA"}, Op{K: "unasset", U: "gov", S: "tka"},
				Op{K: "und_op", U: "u1", ID: 1, A: "2tkb"}, Op{K: "cease", U: "sa", ID: 1, ID2: 1}, Op{K: "cease", U: "sa", ID: 1, ID2: 2},
				block(10))
			big := cloneMap(rwBal)
			big["u1"], big["u2"], big["z"] = "6tka,90000000000000000tkb", "6tka,40000000000000000tkb", "1tka,1tkb"
			c := &RMConf{Name: "large exponents", Bal: big, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: rewardOwn, Halt: true}, Depth: r.Pick(4, 5), Setup: rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}),
				Ops: []Op{
					{K: "asset", U: "gov", ID: 17, S: "tkb|TKB"}, {K: "asset", U: "gov", ID: 18, S: "tkb|TKB"}, {K: "asset", U: "gov", ID: 19, S: "tkb|TKB"}, {K: "asset", U: "gov", ID: 24, S: "tkb|TKB"},
					{K: "price", S: "TKB", ID: 1000}, {K: "price", S: "TKB", ID: 100000000},
					{K: "del_op", U: "u1", ID: 1, A: "1tka,20000000000000000tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "30000000000000000tkb"}, {K: "del_pool", U: "u2", A: "30000000000000000tkb"}, {K: "del_svc", U: "u2", ID: 1, A: "3tka"},
					block(10),
				}}
			c.Check = c.entitled
			r.RM(c)
			two := rwSetup("0,100000|b2|b1|b1", Op{K: "accredit", U: "gov", ID: 1}, Op{K: "register_op", U: "ob", S: "op two|w|p"}, Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"},
				Op{K: "activate_svc", U: "sx", ID: 2}, Op{K: "accredit", U: "gov", ID: 2}, Op{K: "plan", U: "sx", ID: 2, A: perDay, S: "0,100000|b0|w1:2=3;1=1|b0"}, Op{K: "fund", U: "f", ID: 2, A: "500000000rwd"},
				Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}, Op{K: "del_op", U: "u1", ID: 2, A: "2tka"}, Op{K: "del_pool", U: "u1", A: "2tka"}, Op{K: "del_pool", U: "u2", A: "1tka"})
			conf("two services and operators", r.Pick(4, 5), two,
				Op{K: "join", U: "oa", ID: 1, ID2: 2}, Op{K: "join", U: "ob", ID: 2, ID2: 1}, Op{K: "join", U: "ob", ID: 2, ID2: 2}, Op{K: "leave", U: "oa", ID: 1, ID2: 1},
				Op{K: "allow", U: "sa", ID: 1, ID2: 2}, Op{K: "allow", U: "sx", ID: 2, ID2: 1}, Op{K: "disallow", U: "sa", ID: 1, ID2: 2},
				Op{K: "deactivate_op", U: "ob", ID: 2}, Op{K: "deactivate_svc", U: "sx", ID: 2}, Op{K: "borrow", U: "sx", ID: 2, ID2: 1}, Op{K: "cease", U: "sa", ID: 1, ID2: 1},
				Op{K: "del_op", U: "u2", ID: 2, A: "1tka"}, Op{K: "claim", U: "u1", S: "op", ID: 2}, Op{K: "delete_svc", U: "sx", ID: 2},
				block(10))
		},
	})
	register(&Property{
		ID: "C17", Title: "Pool delegators earn only, and fully, from the services they trust",
		Need: []string{"paid", "block", "prefs:ok", "accredit:ok", "revoke:ok"},
		Run: func(r *Run) {
			two := rwSetup("0,100000|b0|b0|b0", Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"},
				Op{K: "activate_svc", U: "sx", ID: 2}, Op{K: "plan", U: "sx", ID: 2, A: perDay, S: "0,100000|b0|b0|b0"}, Op{K: "fund", U: "f", ID: 2, A: "500000000rwd"},
				Op{K: "borrow", U: "sx", ID: 2, ID2: 1}, Op{K: "del_pool", U: "u1", A: "2tka"})
			c := &RMConf{Name: "trust", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: rewardOwn}, Depth: r.Pick(4, 5), Setup: two,
				Ops: []Op{
					{K: "prefs", U: "u1", S: ":1"}, {K: "prefs", U: "u1", S: ":2"}, {K: "prefs", U: "u1", S: "n"}, {K: "prefs", U: "u1", S: "a"}, {K: "prefs", U: "u1", S: "na:1"}, {K: "prefs", U: "u1", S: ""},
					{K: "prefs", U: "u2", S: "n"}, {K: "prefs", U: "u2", S: ":1,2"},
					{K: "accredit", U: "gov", ID: 1}, {K: "revoke", U: "gov", ID: 1}, {K: "accredit", U: "gov", ID: 2}, {K: "revoke", U: "gov", ID: 2},
					{K: "del_pool", U: "u2", A: "3tka"}, {K: "und_pool", U: "u1", A: "1tka"}, {K: "und_pool", U: "u1", A: "2tka"}, {K: "del_pool", U: "u1", A: "1tkb"},
					{K: "deactivate_svc", U: "sx", ID: 2}, {K: "delete_svc", U: "sx", ID: 2}, {K: "cease", U: "sa", ID: 1, ID2: 1}, {K: "borrow", U: "sa", ID: 1, ID2: 1},
					{K: "claim", U: "u1", S: "pool", ID: 1},
					block(10),
				}}
			c.Check = c.entitled
			r.RM(c)
		},
	})
	register(&Property{
		ID: "C18", Title: "Operator commissions are exact and go to the operator's admin",
		Need: []string{"paid", "block", "commission:ok", "commission:rejected"},
		Run: func(r *Run) {
			c := &RMConf{Name: "commissions", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: rewardOwn, Admit: []string{"commission"}}, Depth: r.Pick(4, 6),
				Setup: rwSetup("0,100000|b0|b0|b0", Op{K: "params_op", U: "oa", ID: 1, S: "0.1"}, Op{K: "del_op", U: "u1", ID: 1, A: "2tka,1tkb"}),
				Ops: []Op{
					{K: "params_op", U: "oa", ID: 1, S: "0.1"}, {K: "params_op", U: "oa", ID: 1, S: "0.25"}, {K: "params_op", U: "oa", ID: 1, S: "1"}, {K: "params_op", U: "oa", ID: 1, S: "0"},
					{K: "commission", U: "oa", ID: 1}, {K: "commission", U: "ob", ID: 1}, {K: "commission", U: "u1", ID: 1}, {K: "commission", U: "oa", ID: 2},
					{K: "transfer_op", U: "oa", ID: 1, S: "ob"}, {K: "waddr", U: "oa", S: "sx"},
					{K: "und_op", U: "u1", ID: 1, A: "2tka,1tkb"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "claim", U: "u1", S: "op", ID: 1},
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "deactivate_op", U: "ob", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, {K: "delete_op", U: "ob", ID: 1},
					block(10), block(15),
				}}
			c.Check = c.entitled
			r.RM(c)
		},
	})
	register(&Property{
		ID: "C19", Title: "Rewards plans are created, edited, run and ended only as specified",
		Need: []string{"plan:ok", "plan:rejected", "edit_plan:ok", "edit_plan:rejected", "block", "wparams:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"plan/", "planbal/", "remainder/", "params/rewards", "community"}, Admit: []string{"plan", "edit_plan", "wparams"}}
			r.RM(&RMConf{Name: "lifecycle", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: own, Depth: r.Pick(5, 7),
				Setup: rwSetup("", Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}),
				Ops: []Op{
					{K: "plan", U: "sa", ID: 1, A: perDay, S: "10,25|b0|b0|b0"}, {K: "plan", U: "sa", ID: 1, A: perDay, S: "0,5|b0|b0|b0"},
					{K: "fund", U: "f", ID: 1, A: "25000000rwd"}, {K: "fund", U: "f", ID: 2, A: "15000000rwd"},
					{K: "edit_plan", U: "sa", ID: 1, A: "86400rwd", S: "20,40|b1|b0|b0"}, {K: "edit_plan", U: "sa", ID: 1, A: perDay, S: "0,15|b0|b0|b0"}, {K: "edit_plan", U: "sx", ID: 1, A: perDay, S: "0,15|b0|b0|b0"},
					{K: "edit_plan", U: "sa", ID: 2, A: perDay, S: "0,100|b0|b0|b0"},
					{K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, {K: "transfer_svc", U: "sa", ID: 1, S: "sx"},
					block(5), block(10), ticks(9500),
				}})
			long := strings.Repeat("x", 1001)
			var ops []Op
			for _, s := range []string{"0,10|b0|b0|b0", "10,10|b0|b0|b0", "20,10|b0|b0|b0", "0,10|w1:1=1|w1:1=1|b0", "0,10|w1:1=0|b0|b0", "0,10|w1:9=1|b0|b0", "0,10|b0|w1:9=1|b0", "0,10|b0|w1:1=1;1=2|b0", "0,10|b0|w1:1=1;2=0|b0", "0,10|b0|w1|b0"} {
				ops = append(ops, Op{K: "plan", U: "sa", ID: 1, A: "100rwd", S: s})
			}
			ops = append(ops, Op{K: "plan", U: "sa", ID: 1, A: "0rwd", S: "0,10|b0|b0|b0"}, Op{K: "plan", U: "sa", ID: 1, A: "-5rwd", S: "0,10|b0|b0|b0"}, Op{K: "plan", U: "sa", ID: 1, A: "10rwd,-5rwx", S: "0,10|b0|b0|b0"},
				Op{K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0||" + long}, Op{K: "plan", U: "sx", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"}, Op{K: "plan", U: "gov", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"},
				Op{K: "plan", U: "sa", ID: 2, A: "10rwd", S: "0,10|b0|b0|b0"}, Op{K: "plan", U: "bad", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"},
				Op{K: "deactivate_svc", U: "sa", ID: 1}, Op{K: "delete_svc", U: "sa", ID: 1}, Op{K: "del_pool", U: "u1", A: "1tka"}, block(10))
			for _, s := range []string{"0,10|b0|b0|b0", "0,100|b0|b0|b0", "10,10|b0|b0|b0", "0,10|w1:1=0|b0|b0", "0,10|b0|w1:9=1|b0", "0,10|b0|w1:1=1|b0"} {
				ops = append(ops, Op{K: "edit_plan", U: "sa", ID: 1, A: "100rwd", S: s})
			}
			ops = append(ops, Op{K: "edit_plan", U: "sa", ID: 1, A: "0rwd", S: "0,10|b0|b0|b0"}, Op{K: "edit_plan", U: "sx", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"}, Op{K: "edit_plan", U: "gov", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"},
				Op{K: "edit_plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0||" + long}, Op{K: "edit_plan", U: "sa", ID: 2, A: "10rwd", S: "0,10|b0|b0|b0"})
			r.RM(&RMConf{Name: "admission", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: own, Depth: r.Pick(3, 4), Setup: stdSetup(), Ops: ops})
			fb := cloneMap(rwBal)
			fb["sa"] = "7fee,3fex"
			r.RM(&RMConf{Name: "creation fee", Bal: fb, Denoms: append([]string{"fee", "fex"}, stdDenoms...), RDenoms: []string{"rwd"}, Own: Own{Facts: append([]string{"bal/sa", "bal/community"}, own.Facts...), Admit: own.Admit}, Depth: r.Pick(4, 5), Setup: stdSetup(),
				Ops: []Op{
					{K: "wparams", U: "gov", A: "3fee"}, {K: "wparams", U: "gov", A: "3fee,2fex"}, {K: "wparams", U: "gov"}, {K: "wparams", U: "sa", A: "1fee"},
					{K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0"}, {K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|3fee"}, {K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|2fee"},
					{K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|2fex"}, {K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|4fee,1fex"}, {K: "plan", U: "sa", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|8fee"},
					{K: "plan", U: "sx", ID: 1, A: "10rwd", S: "0,10|b0|b0|b0|3fee"},
				}})
		},
	})
	register(&Property{
		ID: "C20", Title: "Rewards are paid to the address the delegator chose, and only there",
		Need: []string{"waddr:ok", "waddr:rejected", "paid", "block"},
		Run: func(r *Run) {
			c := &RMConf{Name: "withdraw address", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: []string{"waddr/", "reward/"}, Admit: []string{"waddr"}}, Depth: r.Pick(4, 6),
				Setup: rwSetup(always, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_op", U: "u1", ID: 1, A: "2tka"}, Op{K: "del_pool", U: "u1", A: "1tka"}, Op{K: "params_op", U: "oa", ID: 1, S: "0.1"}),
				Ops: []Op{
					{K: "waddr", U: "u1", S: "sx"}, {K: "waddr", U: "u1", S: "u2"}, {K: "waddr", U: "u1", S: "u1"}, {K: "waddr", U: "u1", S: "bad"}, {K: "waddr", U: "u1", S: "mod:distribution"}, {K: "waddr", U: "u1", S: "mod:rewards_pool"},
					{K: "waddr", U: "oa", S: "sx"}, {K: "waddr", U: "u2", S: "u1"},
					{K: "claim", U: "u1", S: "op", ID: 1}, {K: "claim", U: "u1", S: "pool", ID: 1}, {K: "claim", U: "u2", S: "op", ID: 1}, {K: "commission", U: "oa", ID: 1},
					{K: "und_op", U: "u1", ID: 1, A: "2tka"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "prefs", U: "u1", S: "n"}, {K: "del_pool", U: "u1", A: "1tka"},
					block(10),
				}}
			c.Check = c.entitled
			r.RM(c)
		},
	})
	register(&Property{
		ID: "C36", Title: "Reward queries report exactly what a withdrawal would pay",
		Need: []string{"query:delegation:pool", "query:delegation:op", "query:delegation:svc", "query:commission"},
		Run: func(r *Run) {
			r.RM(&RMConf{Name: "reward queries", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd", "rwx"}, Depth: r.Pick(4, 5), Check: rewardQueries,
				Setup: rwSetup(always, Op{K: "params_op", U: "oa", ID: 1, S: "0.1"}, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "create_svc", U: "sx", S: "svc two|d|w|p"}, Op{K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"},
					Op{K: "del_svc", U: "u1", ID: 1, A: "2tka"}, Op{K: "del_pool", U: "u1", A: "1tka"}),
				Ops: []Op{
					{K: "del_op", U: "u2", ID: 1, A: "2tka"}, {K: "del_pool", U: "u2", A: "2tka"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "und_svc", U: "u1", ID: 1, A: "2tka"}, {K: "del_pool", U: "u1", A: "1tkb"},
					{K: "prefs", U: "u1", S: "n"}, {K: "revoke", U: "gov", ID: 1}, {K: "accredit", U: "gov", ID: 1}, {K: "claim", U: "u1", S: "pool", ID: 1}, {K: "commission", U: "oa", ID: 1},
					{K: "waddr", U: "u1", S: "sx"}, {K: "wparams", U: "gov", A: "1fee"}, {K: "plan", U: "sx", ID: 2, A: "86400000rwx", S: "15,100000|b1|b1|b0|1fee"}, {K: "plan", U: "sa", ID: 1, A: "86400000rwx", S: "15,100000|b1|b1|b0"},
					{K: "fund", U: "f", ID: 2, A: "200000rwx"}, {K: "deactivate_op", U: "oa", ID: 1}, {K: "params_svc", U: "sa", ID: 1, S: "tka"},
					block(10),
				}})
		},
	})
}

// weights enumerates the distribution of one block of rewards over every combination of category weights,
// distribution types and categories with stake.
func weights(r *Run) {
	type cs struct {
		w       [3]int64
		pt, ot  int
		present int
	}
	ws := []int64{0, 1, 2, 1 << 31, 1<<32 - 1}
	types := []string{"b%d", "e%d", "w%d:1=1;2=3", "w%d:2=4294967295", "w%d:2=4294967295;1=4294967295"}
	if !r.Thorough() {
		ws = []int64{0, 1, 1 << 31, 1<<32 - 1}
		types = types[:4]
	}
	var cases []cs
	for _, a := range ws {
		for _, b := range ws {
			for _, c := range ws {
				for pt := range types {
					for ot := range types {
						for p := 0; p < 16; p++ {
							cases = append(cases, cs{[3]int64{a, b, c}, pt, ot, p})
						}
					}
				}
			}
		}
	}
	spec := func(c cs) string {
		return fmt.Sprintf("0,100000|"+types[c.pt]+"|"+types[c.ot]+"|b%d", c.w[0], c.w[1], c.w[2])
	}
	conf := &RMConf{Name: "weights", Bal: rwBal, Denoms: stdDenoms, RDenoms: []string{"rwd"}, Own: Own{Facts: []string{"planbal/", "reward/"}},
		Setup: rwSetup("", Op{K: "register_op", U: "ob", S: "op two|w|p"}, Op{K: "join", U: "ob", ID: 2, ID2: 1}, Op{K: "accredit", U: "gov", ID: 1})}
	if r.dry {
		r.ForAll("weights", 0, nil, nil)
		return
	}
	base := conf.root(r, r.App)
	stake := [][]Op{
		{{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u2", A: "2tka"}},
		{{K: "del_pool", U: "u1", A: "3tkb"}},
		{{K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "del_op", U: "u1", ID: 2, A: "2tka"}},
		{{K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 1, A: "1tka"}},
	}
	// one prepared state per combination of categories with stake
	var prep []*State
	for p := 0; p < 16; p++ {
		s := base.Branch()
		for i, os := range stake {
			if p&(1<<i) != 0 {
				for _, o := range os {
					if !conf.step(r, s, o) {
						Fail("setup:"+o.K, "%s does not behave as specified: %s", o, deliver(s, o))
					}
				}
			}
		}
		prep = append(prep, s)
	}
	r.ForAll("weights", len(cases), func(i int) string { return fmt.Sprintf("%s with stake %04b", spec(cases[i]), cases[i].present) }, func(i int) {
		s := prep[cases[i].present].Branch()
		for _, o := range []Op{{K: "plan", U: "sa", ID: 1, A: perDay, S: spec(cases[i])}, {K: "fund", U: "f", ID: 1, A: "50000000rwd"}, block(10)} {
			if !conf.step(r, s, o) {
				r.Count("pruned:weights:" + o.K)
				return
			}
		}
		conf.entitled(r, s)
	})
}

// splits: amounts which do not divide evenly among three pools, three operators and the users, whatever the
// kind of distribution: the parts together are covered by what the plan has paid.
func splits(r *Run) {
	type cs struct {
		plan, stake int
		amt         int64
	}
	kinds := []string{"b", "e", "w:1=1;2=1;3=1", "w:1=1;2=2;3=4"}
	cats := [][3]int64{{1, 0, 0}, {0, 1, 0}, {1, 1, 1}, {0, 0, 0}, {3, 2, 2}}
	var plans []string
	for _, w := range cats {
		for _, p := range kinds {
			for _, o := range kinds {
				part := func(k string, w int64) string { return fmt.Sprintf("%s%d%s", k[:1], w, k[1:]) }
				plans = append(plans, "0,100000|"+part(p, w[0])+"|"+part(o, w[1])+fmt.Sprintf("|b%d", w[2]))
			}
		}
	}
	var cases []cs
	for p := range plans {
		for s := 0; s < 3; s++ {
			for a := int64(1); a <= int64(r.Pick(7, 30)); a++ {
				cases = append(cases, cs{p, s, a})
			}
		}
	}
	bal := cloneMap(rwBal)
	bal["u1"], bal["u2"], bal["z"] = "20tka,20tkb,20tkc", "20tka,20tkb,20tkc", "5tka,5tkb,5tkc"
	conf := &RMConf{Name: "splits", Bal: bal, Denoms: []string{"tka", "tkb", "tkc"}, RDenoms: []string{"rwd"}, Loose: true,
		Setup: append(rwSetup("", Op{K: "register_op", U: "ob", S: "op two|w|p"}, Op{K: "register_op", U: "oc", S: "op three|w|p"}, Op{K: "join", U: "ob", ID: 2, ID2: 1}, Op{K: "join", U: "oc", ID: 3, ID2: 1},
			Op{K: "asset", U: "gov", ID: 0, S: "tkc|TKB"}, Op{K: "accredit", U: "gov", ID: 1}, Op{K: "del_pool", U: "z", A: "1tkc"}, Op{K: "borrow", U: "sa", ID: 1, ID2: 3}))}
	if r.dry {
		r.ForAll("splits", 0, nil, nil)
		return
	}
	base := conf.root(r, r.App)
	stake := [][]Op{
		{{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u1", A: "1tkb"}, {K: "del_pool", U: "u1", A: "1tkc"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "u1", ID: 2, A: "1tka"}, {K: "del_op", U: "u1", ID: 3, A: "1tka"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"}},
		{{K: "del_pool", U: "u1", A: "1tka"}, {K: "del_pool", U: "u2", A: "2tka"}, {K: "del_pool", U: "u2", A: "4tkb"}, {K: "del_pool", U: "u2", A: "4tkc"}, {K: "params_op", U: "oa", ID: 1, S: "0.333333333333333333"}, {K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "u2", ID: 1, A: "2tka,2tkb"}, {K: "del_op", U: "u1", ID: 2, A: "2tkb"}, {K: "del_op", U: "u1", ID: 3, A: "4tka"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 1, A: "5tka,1tkb"}},
		{{K: "del_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"}, {K: "del_op", U: "z", ID: 1, A: "1tka"}, {K: "params_op", U: "ob", ID: 2, S: "0.07"}, {K: "del_op", U: "u1", ID: 2, A: "1tka,1tkb,1tkc"}, {K: "del_op", U: "u2", ID: 2, A: "3tka,1tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "1tka"}, {K: "del_svc", U: "u2", ID: 1, A: "1tka"}, {K: "del_svc", U: "z", ID: 1, A: "1tkb"}},
	}
	var prep []*State
	for _, os := range stake {
		s := base.Branch()
		for _, o := range os {
			if !conf.step(r, s, o) {
				Fail("setup:"+o.K, "%s does not behave as specified: %s", o, deliver(s, o))
			}
		}
		prep = append(prep, s)
	}
	r.ForAll("splits", len(cases), func(i int) string {
		return fmt.Sprintf("%s with stake %d and %d per second", plans[cases[i].plan], cases[i].stake, cases[i].amt)
	}, func(i int) {
		c := cases[i]
		s := prep[c.stake].Branch()
		conf.step(r, s, Op{K: "plan", U: "sa", ID: 1, A: fmt.Sprintf("%drwd", c.amt*86400), S: plans[c.plan]})
		conf.step(r, s, Op{K: "fund", U: "f", ID: 1, A: "5000rwd"})
		for j := 0; j < 2; j++ {
			conf.step(r, s, block(1))
			solvency(r, s)
		}
	})
}
