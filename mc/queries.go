package main

import (
	"fmt"
	"sort"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"

	operatorskeeper "github.com/milkyway-labs/milkyway/v3/x/operators/keeper"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolskeeper "github.com/milkyway-labs/milkyway/v3/x/pools/keeper"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingkeeper "github.com/milkyway-labs/milkyway/v3/x/restaking/keeper"
	rt "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	serviceskeeper "github.com/milkyway-labs/milkyway/v3/x/services/keeper"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

var (
	_ operatorstypes.QueryServer = (*operatorskeeper.Keeper)(nil)
	_ servicestypes.QueryServer  = (*serviceskeeper.Keeper)(nil)
	_ poolstypes.QueryServer     = (*poolskeeper.Keeper)(nil)
)

// page is one call of a paginated query, returning rendered items and the page response.
type page func(p *query.PageRequest) ([]string, *query.PageResponse, error)

// walk collects a paginated query with a given page size, following next keys.
func walk(name string, limit uint64, f page) []string {
	var out []string
	var key []byte
	for i := 0; i < 100; i++ {
		items, pr, err := f(&query.PageRequest{Key: key, Limit: limit})
		if err != nil {
			Fail("query:"+name, "query %s failed: %v", name, err)
		}
		if uint64(len(items)) > limit {
			Fail("query:"+name, "query %s returned %d items for a page of %d", name, len(items), limit)
		}
		out = append(out, items...)
		if pr == nil || len(pr.NextKey) == 0 {
			sort.Strings(out)
			return out
		}
		key = pr.NextKey
	}
	Fail("query:"+name, "query %s never ends", name)
	return nil
}

// expectPages compares a paginated query, in one page and with pages of one and two, with the expected items.
func expectPages(name string, want []string, f page) {
	sort.Strings(want)
	for _, lim := range []uint64{100, 1, 2} {
		got := walk(name, lim, f)
		if strings.Join(got, " ") != strings.Join(want, " ") {
			Fail("query:"+name, "query %s (page size %d) returns [%s], expected [%s]", name, lim, strings.Join(got, " "), strings.Join(want, " "))
		}
	}
}

func expectOne(name, want string, f func() (string, error)) {
	got, err := f()
	if err != nil {
		got = ""
	}
	if got != want {
		Fail("query:"+name, "query %s returns %q (%v), expected %q", name, got, err, want)
	}
}

func keys[V any](m map[string]V) []string { return sortedKeys(m) }

// queries compares every query of the restaking, operators, services and pools modules with the
// reference model.
func queries(r *Run, s *State) { queriesOnly(s) }

func queriesRelations(r *Run, s *State) {
	queriesOnly(s, "OperatorJoinedServices", "ServiceAllowedOperators", "ServiceSecuringPools", "ServiceOperators")
}

func poolQueries(r *Run, s *State) { queriesOnly(s, "PoolByID", "PoolByDenom", "Pools") }

func queriesOnly(s *State, only ...string) {
	expectPages := func(name string, want []string, f page) {
		if len(only) == 0 || in(only, name) {
			expectPages(name, want, f)
		}
	}
	expectOne := func(name, want string, f func() (string, error)) {
		if len(only) == 0 || in(only, name) {
			expectOne(name, want, f)
		}
	}
	m := rm(s)
	f := m.Facts()
	ctx := s.Probe()
	q := restakingkeeper.NewQuerier(s.App.RestakingKeeper)
	nm := nameMap(m.Users)
	del := func(d rt.DelegationResponse) string {
		k := kindOf(d.Delegation.Type)
		sh := sharesAmt(k, d.Delegation.TargetID, d.Delegation.Shares)
		bal := amtOf(d.Balance).String()
		if sh != bal {
			return fmt.Sprintf("shares %s balance %s", sh, bal)
		}
		return fmt.Sprintf("%s/%s/%d=%s", nm.of(d.Delegation.UserAddress), k, d.Delegation.TargetID, sh)
	}
	dels := func(ds []rt.DelegationResponse) (out []string) {
		for _, d := range ds {
			out = append(out, del(d))
		}
		return
	}
	ubd := func(u rt.UnbondingDelegation) string {
		v := map[int64]Amt{}
		for _, e := range u.Entries {
			t := e.CompletionTime.UnixMilli()
			v[t] = v[t].add(amtOf(e.Balance))
		}
		return fmt.Sprintf("%s/%s/%d=%s", nm.of(u.DelegatorAddress), kindOf(u.Type), u.TargetID, fmtUbd(v))
	}
	ubds := func(us []rt.UnbondingDelegation) (out []string) {
		for _, u := range us {
			out = append(out, ubd(u))
		}
		return
	}
	// expected lists out of the model
	sel := func(prefix string, keep func(user, kind string, id uint32) bool) (out []string) {
		for k, v := range f {
			if !strings.HasPrefix(k, prefix) {
				continue
			}
			p := strings.Split(k, "/")
			var id uint32
			fmt.Sscanf(p[3], "%d", &id)
			if keep(p[1], p[2], id) {
				out = append(out, strings.TrimPrefix(k, prefix)+"="+v)
			}
		}
		return
	}
	byTarget := func(kind string, id uint32) func(u, k string, i uint32) bool {
		return func(u, k string, i uint32) bool { return k == kind && i == id }
	}
	byUser := func(user, kind string) func(u, k string, i uint32) bool {
		return func(u, k string, i uint32) bool { return k == kind && u == user }
	}
	opStr := func(o operatorstypes.Operator) string {
		return fmt.Sprintf("%d:%s:%s|%s|%s:%s", o.ID, o.Admin, o.Moniker, o.Website, o.PictureURL, amtOf(o.Tokens))
	}
	wantOp := func(id uint32) string {
		o := m.Ops[id]
		if o == nil {
			return ""
		}
		return fmt.Sprintf("%d:%s:%s|%s|%s:%s", id, who(o.Admin), o.Moniker, o.Web, o.Pic, f[fmt.Sprintf("tokens/op/%d", id)])
	}
	svStr := func(o servicestypes.Service) string {
		return fmt.Sprintf("%d:%s:%s:%v:%s", o.ID, o.Admin, o.Name, o.Accredited, amtOf(o.Tokens))
	}
	wantSv := func(id uint32) string {
		o := m.Svcs[id]
		if o == nil {
			return ""
		}
		return fmt.Sprintf("%d:%s:%s:%v:%s", id, who(o.Admin), o.Name, o.Accredited, f[fmt.Sprintf("tokens/svc/%d", id)])
	}
	plStr := func(p poolstypes.Pool) string {
		t := ""
		if p.Tokens.IsPositive() {
			t = p.Tokens.String() + p.Denom
		}
		return fmt.Sprintf("%d:%s:%s", p.ID, p.Denom, t)
	}
	wantPl := func(denom string) string {
		id := m.Pools[denom]
		if id == 0 {
			return ""
		}
		return fmt.Sprintf("%d:%s:%s", id, denom, f[fmt.Sprintf("tokens/pool/%d", id)])
	}
	denomOf := func(id uint32) string {
		for d, i := range m.Pools {
			if i == id {
				return d
			}
		}
		return ""
	}

	for _, id := range ids(m.NextPl) {
		expectPages("PoolDelegations", sel("del/", byTarget("pool", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.PoolDelegations(ctx, rt.NewQueryPoolDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("PoolUnbondingDelegations", sel("ubd/", byTarget("pool", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.PoolUnbondingDelegations(ctx, rt.NewQueryPoolUnbondingDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		expectOne("PoolByID", wantPl(denomOf(id)), func() (string, error) {
			x, err := s.App.PoolsKeeper.PoolByID(ctx, &poolstypes.QueryPoolByIdRequest{PoolId: id})
			if err != nil {
				return "", err
			}
			return plStr(x.Pool), nil
		})
	}
	var allPools []string
	for _, d := range m.Denoms {
		expectOne("PoolByDenom", wantPl(d), func() (string, error) {
			x, err := s.App.PoolsKeeper.PoolByDenom(ctx, &poolstypes.QueryPoolByDenomRequest{Denom: d})
			if err != nil {
				return "", err
			}
			return plStr(x.Pool), nil
		})
		if w := wantPl(d); w != "" {
			allPools = append(allPools, w)
		}
	}
	expectPages("Pools", allPools, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
		x, err := s.App.PoolsKeeper.Pools(ctx, &poolstypes.QueryPoolsRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, pl := range x.Pools {
			out = append(out, plStr(pl))
		}
		return out, x.Pagination, nil
	})
	var allOps, allSv []string
	for id := uint32(1); id <= m.NextOp; id++ {
		if w := wantOp(id); w != "" {
			allOps = append(allOps, w)
		}
		expectOne("Operator", wantOp(id), func() (string, error) {
			x, err := s.App.OperatorsKeeper.Operator(ctx, &operatorstypes.QueryOperatorRequest{OperatorId: id})
			if err != nil {
				return "", err
			}
			return opStr(x.Operator), nil
		})
		if m.Ops[id] == nil {
			continue
		}
		expectOne("OperatorParams", "r"+normRate(m.Ops[id].Rate), func() (string, error) {
			x, err := s.App.OperatorsKeeper.OperatorParams(ctx, &operatorstypes.QueryOperatorParamsRequest{OperatorId: id})
			if err != nil {
				return "", err
			}
			return "r" + normRate(x.OperatorParams.CommissionRate.String()), nil
		})
		expectPages("OperatorDelegations", sel("del/", byTarget("op", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.OperatorDelegations(ctx, rt.NewQueryOperatorDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("OperatorUnbondingDelegations", sel("ubd/", byTarget("op", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.OperatorUnbondingDelegations(ctx, rt.NewQueryOperatorUnbondingDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		var joined []string
		for k := range m.Joined {
			if k[0] == id {
				joined = append(joined, fmt.Sprint(k[1]))
			}
		}
		expectPages("OperatorJoinedServices", joined, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.OperatorJoinedServices(ctx, rt.NewQueryOperatorJoinedServicesRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			for _, i := range x.ServiceIds {
				out = append(out, fmt.Sprint(i))
			}
			return out, x.Pagination, nil
		})
	}
	expectPages("Operators", allOps, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
		x, err := s.App.OperatorsKeeper.Operators(ctx, &operatorstypes.QueryOperatorsRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, o := range x.Operators {
			out = append(out, opStr(o))
		}
		return out, x.Pagination, nil
	})
	for id := uint32(1); id <= m.NextSv; id++ {
		if w := wantSv(id); w != "" {
			allSv = append(allSv, w)
		}
		expectOne("Service", wantSv(id), func() (string, error) {
			x, err := s.App.ServicesKeeper.Service(ctx, &servicestypes.QueryServiceRequest{ServiceId: id})
			if err != nil {
				return "", err
			}
			return svStr(x.Service), nil
		})
		if m.Svcs[id] == nil {
			continue
		}
		expectOne("ServiceParams", "d"+m.Svcs[id].Denoms, func() (string, error) {
			x, err := s.App.ServicesKeeper.ServiceParams(ctx, &servicestypes.QueryServiceParamsRequest{ServiceId: id})
			if err != nil {
				return "", err
			}
			return "d" + strings.Join(x.ServiceParams.AllowedDenoms, ","), nil
		})
		expectPages("ServiceDelegations", sel("del/", byTarget("svc", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.ServiceDelegations(ctx, rt.NewQueryServiceDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("ServiceUnbondingDelegations", sel("ubd/", byTarget("svc", id)), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.ServiceUnbondingDelegations(ctx, rt.NewQueryServiceUnbondingDelegationsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		var allowed, securing, valid []string
		for k := range m.Allow {
			if k[0] == id {
				allowed = append(allowed, fmt.Sprint(k[1]))
			}
		}
		for k := range m.Secure {
			if k[0] == id {
				securing = append(securing, fmt.Sprint(k[1]))
			}
		}
		for k := range m.Joined {
			if k[1] == id && (!m.hasAllow(id) || m.Allow[[2]uint32{id, k[0]}]) {
				valid = append(valid, wantOp(k[0]))
			}
		}
		expectPages("ServiceAllowedOperators", allowed, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.ServiceAllowedOperators(ctx, rt.NewQueryServiceAllowedOperatorsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			for _, i := range x.OperatorIds {
				out = append(out, fmt.Sprint(i))
			}
			return out, x.Pagination, nil
		})
		expectPages("ServiceSecuringPools", securing, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.ServiceSecuringPools(ctx, rt.NewQueryServiceSecuringPoolsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			for _, i := range x.PoolIds {
				out = append(out, fmt.Sprint(i))
			}
			return out, x.Pagination, nil
		})
		expectPages("ServiceOperators", valid, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.ServiceOperators(ctx, rt.NewQueryServiceOperatorsRequest(id, p))
			if err != nil {
				return nil, nil, err
			}
			for _, o := range x.Operators {
				out = append(out, opStr(o))
			}
			return out, x.Pagination, nil
		})
	}
	expectPages("Services", allSv, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
		x, err := s.App.ServicesKeeper.Services(ctx, &servicestypes.QueryServicesRequest{Pagination: p})
		if err != nil {
			return nil, nil, err
		}
		for _, o := range x.Services {
			out = append(out, svStr(o))
		}
		return out, x.Pagination, nil
	})
	for _, u := range m.Users {
		ua := bech(u)
		expectPages("DelegatorPoolDelegations", sel("del/", byUser(u, "pool")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorPoolDelegations(ctx, rt.NewQueryDelegatorPoolDelegationsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("DelegatorOperatorDelegations", sel("del/", byUser(u, "op")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorOperatorDelegations(ctx, rt.NewQueryDelegatorOperatorDelegationsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("DelegatorServiceDelegations", sel("del/", byUser(u, "svc")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorServiceDelegations(ctx, rt.NewQueryDelegatorServiceDelegationsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			return dels(x.Delegations), x.Pagination, nil
		})
		expectPages("DelegatorPoolUnbondingDelegations", sel("ubd/", byUser(u, "pool")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorPoolUnbondingDelegations(ctx, &rt.QueryDelegatorPoolUnbondingDelegationsRequest{DelegatorAddress: ua, Pagination: p})
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		expectPages("DelegatorOperatorUnbondingDelegations", sel("ubd/", byUser(u, "op")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorOperatorUnbondingDelegations(ctx, rt.NewQueryDelegatorOperatorUnbondingDelegationsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		expectPages("DelegatorServiceUnbondingDelegations", sel("ubd/", byUser(u, "svc")), func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
			x, err := q.DelegatorServiceUnbondingDelegations(ctx, rt.NewQueryDelegatorServiceUnbondingDelegationsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			return ubds(x.UnbondingDelegations), x.Pagination, nil
		})
		var pls, ops, svs []string
		for k := range m.Del {
			if k.User != u {
				continue
			}
			switch k.Kind {
			case "pool":
				pls = append(pls, wantPl(denomOf(k.ID)))
			case "op":
				ops = append(ops, wantOp(k.ID))
			case "svc":
				svs = append(svs, wantSv(k.ID))
			}
		}
		expectPages("DelegatorPools", pls, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.DelegatorPools(ctx, rt.NewQueryDelegatorPoolsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			for _, o := range x.Pools {
				out = append(out, plStr(o))
			}
			return out, x.Pagination, nil
		})
		expectPages("DelegatorOperators", ops, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.DelegatorOperators(ctx, rt.NewQueryDelegatorOperatorsRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			for _, o := range x.Operators {
				out = append(out, opStr(o))
			}
			return out, x.Pagination, nil
		})
		expectPages("DelegatorServices", svs, func(p *query.PageRequest) (out []string, _ *query.PageResponse, _ error) {
			x, err := q.DelegatorServices(ctx, rt.NewQueryDelegatorServicesRequest(ua, p))
			if err != nil {
				return nil, nil, err
			}
			for _, o := range x.Services {
				out = append(out, svStr(o))
			}
			return out, x.Pagination, nil
		})
		for id := uint32(1); id <= 2; id++ {
			one := func(prefix, kind string) string {
				k := fmt.Sprintf("%s/%s/%d", u, kind, id)
				if v := f[prefix+k]; v != "" {
					return k + "=" + v
				}
				return ""
			}
			expectOne("PoolDelegation", one("del/", "pool"), func() (string, error) {
				x, err := q.PoolDelegation(ctx, rt.NewQueryPoolDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return del(x.Delegation), nil
			})
			expectOne("OperatorDelegation", one("del/", "op"), func() (string, error) {
				x, err := q.OperatorDelegation(ctx, rt.NewQueryOperatorDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return del(x.Delegation), nil
			})
			expectOne("ServiceDelegation", one("del/", "svc"), func() (string, error) {
				x, err := q.ServiceDelegation(ctx, rt.NewQueryServiceDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return del(x.Delegation), nil
			})
			expectOne("PoolUnbondingDelegation", one("ubd/", "pool"), func() (string, error) {
				x, err := q.PoolUnbondingDelegation(ctx, rt.NewQueryPoolUnbondingDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return ubd(x.UnbondingDelegation), nil
			})
			expectOne("OperatorUnbondingDelegation", one("ubd/", "op"), func() (string, error) {
				x, err := q.OperatorUnbondingDelegation(ctx, rt.NewQueryOperatorUnbondingDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return ubd(x.UnbondingDelegation), nil
			})
			expectOne("ServiceUnbondingDelegation", one("ubd/", "svc"), func() (string, error) {
				x, err := q.ServiceUnbondingDelegation(ctx, rt.NewQueryServiceUnbondingDelegationRequest(id, ua))
				if err != nil {
					return "", err
				}
				return ubd(x.UnbondingDelegation), nil
			})
			has := func(kind string, w string) string {
				if m.Del[delKey{u, kind, id}] == nil {
					return ""
				}
				return w
			}
			expectOne("DelegatorPool", has("pool", wantPl(denomOf(id))), func() (string, error) {
				x, err := q.DelegatorPool(ctx, rt.NewQueryDelegatorPoolRequest(ua, id))
				if err != nil {
					return "", err
				}
				return plStr(x.Pool), nil
			})
			expectOne("DelegatorOperator", has("op", wantOp(id)), func() (string, error) {
				x, err := q.DelegatorOperator(ctx, rt.NewQueryDelegatorOperatorRequest(ua, id))
				if err != nil {
					return "", err
				}
				return opStr(x.Operator), nil
			})
			expectOne("DelegatorService", has("svc", wantSv(id)), func() (string, error) {
				x, err := q.DelegatorService(ctx, rt.NewQueryDelegatorServiceRequest(ua, id))
				if err != nil {
					return "", err
				}
				return svStr(x.Service), nil
			})
		}
		p := m.Prefs[u]
		if _, ok := m.Prefs[u]; !ok {
			p = mPref{Acc: true}
		}
		expectOne("UserPreferences", "p"+fmtPref(p.Non, p.Acc, p.IDs), func() (string, error) {
			x, err := q.UserPreferences(ctx, rt.NewQueryUserPreferencesRequest(ua))
			if err != nil {
				return "", err
			}
			var ids []string
			for _, id := range x.Preferences.TrustedServicesIDs {
				ids = append(ids, fmt.Sprint(id))
			}
			return "p" + fmtPref(x.Preferences.TrustNonAccreditedServices, x.Preferences.TrustAccreditedServices, strings.Join(ids, ",")), nil
		})
	}
	expectOne("Params", f["params/restaking"], func() (string, error) {
		x, err := q.Params(ctx, rt.NewQueryParamsRequest())
		if err != nil {
			return "", err
		}
		return fmt.Sprintf("%d %s", x.Params.UnbondingTime.Milliseconds(), strings.Join(x.Params.AllowedDenoms, ",")), nil
	})
}

var _ = sdk.Coins{}

type (
	pageRequest  = query.PageRequest
	pageResponse = query.PageResponse
)
