package main

import (
	"fmt"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// corruption is a change of the stores that no transaction can make and that one invariant is there to notice.
type corruption struct {
	name, route string
	do          func(ctx sdk.Context) error
}

type outstandingMap = collections.Map[uint32, rewardstypes.OutstandingRewards]
type historicalMap = collections.Map[collections.Pair[uint32, uint64], rewardstypes.HistoricalRewards]

// corruptions lists the ones of a state.
func corruptions(app *App, ctx sdk.Context) []corruption {
	var out []corruption
	add := func(route, name string, do func(ctx sdk.Context) error) {
		out = append(out, corruption{name, route, do})
	}
	ops, err := app.OperatorsKeeper.GetOperators(ctx)
	check(err)
	svcs, err := app.ServicesKeeper.GetServices(ctx)
	check(err)
	pools, err := app.PoolsKeeper.GetPools(ctx)
	check(err)

	// a target account without the bonded tokens
	steal := func(name, from string, coins sdk.Coins) {
		for _, c := range coins {
			add("restaking/accounts-balances", "take the "+c.Denom+" of "+name, func(ctx sdk.Context) error {
				a := sdk.MustAccAddressFromBech32(from)
				have := app.BankKeeper.GetBalance(ctx, a, c.Denom)
				return app.BankKeeper.SendCoins(ctx, a, addr("z"), sdk.NewCoins(sdk.NewCoin(c.Denom, have.Amount)))
			})
		}
	}
	for _, p := range pools {
		if p.Tokens.IsPositive() {
			steal(fmt.Sprintf("pool %d", p.ID), p.Address, sdk.NewCoins(sdk.NewCoin(p.Denom, p.Tokens)))
		}
		add("restaking/pools-delegators-shares", fmt.Sprintf("more shares of pool %d", p.ID), func(ctx sdk.Context) error {
			q := p
			q.DelegatorShares = q.DelegatorShares.Add(math.LegacySmallestDec())
			return app.PoolsKeeper.SavePool(ctx, q)
		})
		add("pools/unique-pools", fmt.Sprintf("second pool for the denom of pool %d", p.ID), func(ctx sdk.Context) error {
			n, err := app.PoolsKeeper.GetNextPoolID(ctx)
			if err != nil {
				return err
			}
			return app.PoolsKeeper.SavePool(ctx, poolstypes.NewPool(n, p.Denom))
		})
		add("pools/valid-pools", fmt.Sprintf("next pool number %d", p.ID), func(ctx sdk.Context) error { return app.PoolsKeeper.SetNextPoolID(ctx, p.ID) })
		add("pools/valid-pools", fmt.Sprintf("pool %d without a valid denom", p.ID), func(ctx sdk.Context) error {
			q := p
			q.Denom = "!"
			return app.PoolsKeeper.SavePool(ctx, q)
		})
	}
	for _, o := range ops {
		steal(fmt.Sprintf("operator %d", o.ID), o.Address, o.Tokens)
		add("restaking/operators-delegators-shares", fmt.Sprintf("more shares of operator %d", o.ID), func(ctx sdk.Context) error {
			q := o
			q.DelegatorShares = q.DelegatorShares.Add(sdk.NewDecCoinFromDec(fmt.Sprintf("operator/%d/tka", o.ID), math.LegacySmallestDec()))
			return app.OperatorsKeeper.SaveOperator(ctx, q)
		})
		add("operators/valid-operators", fmt.Sprintf("next operator number %d", o.ID), func(ctx sdk.Context) error { return app.OperatorsKeeper.SetNextOperatorID(ctx, o.ID) })
		add("operators/valid-operators", fmt.Sprintf("operator %d without name", o.ID), func(ctx sdk.Context) error {
			q := o
			q.Moniker = ""
			return app.OperatorsKeeper.SaveOperator(ctx, q)
		})
		add("operators/valid-operators", fmt.Sprintf("operator %d without status", o.ID), func(ctx sdk.Context) error {
			q := o
			q.Status = operatorstypes.OPERATOR_STATUS_UNSPECIFIED
			return app.OperatorsKeeper.SaveOperator(ctx, q)
		})
	}
	for _, o := range svcs {
		steal(fmt.Sprintf("service %d", o.ID), o.Address, o.Tokens)
		add("restaking/services-delegators-shares", fmt.Sprintf("more shares of service %d", o.ID), func(ctx sdk.Context) error {
			q := o
			q.DelegatorShares = q.DelegatorShares.Add(sdk.NewDecCoinFromDec(fmt.Sprintf("service/%d/tka", o.ID), math.LegacySmallestDec()))
			return app.ServicesKeeper.SaveService(ctx, q)
		})
		add("services/valid-services", fmt.Sprintf("next service number %d", o.ID), func(ctx sdk.Context) error { return app.ServicesKeeper.SetNextServiceID(ctx, o.ID) })
		add("services/valid-services", fmt.Sprintf("service %d without name", o.ID), func(ctx sdk.Context) error {
			q := o
			q.Name = ""
			return app.ServicesKeeper.SaveService(ctx, q)
		})
		add("services/valid-services", fmt.Sprintf("service %d without status", o.ID), func(ctx sdk.Context) error {
			q := o
			q.Status = servicestypes.SERVICE_STATUS_UNSPECIFIED
			return app.ServicesKeeper.SaveService(ctx, q)
		})
	}
	// delegations which do not add up, or are empty
	dels, err := app.RestakingKeeper.GetAllDelegations(ctx)
	check(err)
	kind := map[restakingtypes.DelegationType]string{restakingtypes.DELEGATION_TYPE_POOL: "pools", restakingtypes.DELEGATION_TYPE_OPERATOR: "operators", restakingtypes.DELEGATION_TYPE_SERVICE: "services"}
	for _, d := range dels {
		k := kind[d.Type]
		name := fmt.Sprintf("delegation %s %d of %s", k, d.TargetID, d.UserAddress[:16])
		for i := range d.Shares {
			add("restaking/"+k+"-delegators-shares", fmt.Sprintf("more shares of %s in the %s", d.Shares[i].Denom, name), func(ctx sdk.Context) error {
				q := d
				q.Shares = append(sdk.DecCoins{}, d.Shares...)
				q.Shares[i].Amount = q.Shares[i].Amount.Add(math.LegacySmallestDec())
				return app.RestakingKeeper.SetDelegation(ctx, q)
			})
			add("restaking/positive-"+k+"-delegations", fmt.Sprintf("negative shares of %s in the %s", d.Shares[i].Denom, name), func(ctx sdk.Context) error {
				q := d
				q.Shares = append(sdk.DecCoins{}, d.Shares...)
				q.Shares[i].Amount = q.Shares[i].Amount.Neg()
				return app.RestakingKeeper.SetDelegation(ctx, q)
			})
		}
		add("restaking/positive-"+k+"-delegations", "empty "+name, func(ctx sdk.Context) error {
			q := d
			q.Shares = sdk.DecCoins{}
			return app.RestakingKeeper.SetDelegation(ctx, q)
		})
		add("restaking/"+k+"-delegators-shares", "empty "+name, func(ctx sdk.Context) error {
			q := d
			q.Shares = sdk.DecCoins{}
			return app.RestakingKeeper.SetDelegation(ctx, q)
		})
	}
	// references to nothing
	for _, o := range ops {
		add("restaking/operators-joined-services-exist", fmt.Sprintf("operator %d joined a missing service", o.ID), func(ctx sdk.Context) error {
			return app.RestakingKeeper.AddServiceToOperatorJoinedServices(ctx, o.ID, 77)
		})
	}
	for _, o := range svcs {
		add("restaking/allowed-operators-exist", fmt.Sprintf("service %d allows a missing operator", o.ID), func(ctx sdk.Context) error {
			return app.RestakingKeeper.AddOperatorToServiceAllowList(ctx, o.ID, 77)
		})
	}
	// rewards
	rk := app.RewardsKeeper
	outs := map[string]outstandingMap{"pools": rk.PoolOutstandingRewards, "operators": rk.OperatorOutstandingRewards, "services": rk.ServiceOutstandingRewards}
	owed := sdk.DecCoins{}
	for _, k := range sortedKeys(outs) {
		m := outs[k]
		check(m.Walk(ctx, nil, func(id uint32, v rewardstypes.OutstandingRewards) (bool, error) {
			owed = owed.Add(v.Rewards.Sum()...)
			add("rewards/nonnegative-outstanding", fmt.Sprintf("negative outstanding rewards of %s %d", k, id), func(ctx sdk.Context) error {
				return m.Set(ctx, id, rewardstypes.OutstandingRewards{Rewards: rewardstypes.DecPools{{Denom: "tka", DecCoins: sdk.DecCoins{{Denom: "rwd", Amount: math.LegacySmallestDec().Neg()}}}}})
			})
			return false, nil
		}))
	}
	whole, _ := owed.TruncateDecimal()
	for _, c := range whole {
		add("rewards/module-account", "take the "+c.Denom+" of the rewards pool", func(ctx sdk.Context) error {
			a := moduleAddr(rewardstypes.RewardsPoolName)
			have := app.BankKeeper.GetBalance(ctx, a, c.Denom)
			return app.BankKeeper.SendCoins(ctx, a, addr("z"), sdk.NewCoins(sdk.NewCoin(c.Denom, have.Amount.Sub(c.Amount).AddRaw(1))))
		})
	}
	hists := map[string]historicalMap{"pools": rk.PoolHistoricalRewards, "operators": rk.OperatorHistoricalRewards, "services": rk.ServiceHistoricalRewards}
	for _, k := range sortedKeys(hists) {
		m := hists[k]
		seen := map[uint32]bool{}
		check(m.Walk(ctx, nil, func(id collections.Pair[uint32, uint64], v rewardstypes.HistoricalRewards) (bool, error) {
			if seen[id.K1()] {
				return false, nil
			}
			seen[id.K1()] = true
			add("rewards/reference-count", fmt.Sprintf("one more reference to the rewards of %s %d", k, id.K1()), func(ctx sdk.Context) error {
				w := v
				w.ReferenceCount++
				return m.Set(ctx, id, w)
			})
			add("rewards/reference-count", fmt.Sprintf("lost rewards record of %s %d", k, id.K1()), func(ctx sdk.Context) error { return m.Remove(ctx, id) })
			return false, nil
		}))
	}
	return out
}

// catchCorruption: every corruption of the state is noticed by the invariant that is there for it.
func catchCorruption(r *Run, s *State) {
	routes := map[string]func(ctx sdk.Context) (string, bool){}
	for _, rt := range s.App.CrisisKeeper.Routes() {
		routes[rt.ModuleName+"/"+rt.Route] = rt.Invar
	}
	for _, c := range corruptions(s.App, s.Probe()) {
		ctx := s.Probe()
		inv, ok := routes[c.route]
		if !ok {
			Fail("invariant:missing:"+c.route, "the invariant %s is not registered", c.route)
		}
		if err := c.do(ctx); err != nil {
			Fail("corruption:"+c.name, "harness: cannot plant %q: %v", c.name, err)
		}
		broken := false
		err, pan := catch(func() error {
			_, broken = inv(ctx)
			return nil
		})
		if err == nil && pan == "" && !broken {
			Fail("corruption:"+c.route, "the invariant %s does not notice the corruption %q", c.route, c.name)
		}
		r.Count("noticed:" + c.route)
	}
}
