package main

import (
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	"github.com/milkyway-labs/milkyway/v3/utils"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// vec is an amount in tenths per "service/pool/coin".
type vec map[string]int64

func (v vec) String() string {
	var p []string
	for _, k := range sortedKeys(v) {
		if v[k] != 0 {
			p = append(p, fmt.Sprintf("%s=%d", k, v[k]))
		}
	}
	return strings.Join(p, " ")
}

func (v vec) merge(o vec, f func(a, b int64) int64) vec {
	out := vec{}
	for k, a := range v {
		out[k] = f(a, o[k])
	}
	for k, b := range o {
		if _, ok := v[k]; !ok {
			out[k] = f(0, b)
		}
	}
	return out
}

func (v vec) negative() bool {
	for _, x := range v {
		if x < 0 {
			return true
		}
	}
	return false
}

func tenths(n int64) math.LegacyDec { return math.LegacyNewDec(n).QuoInt64(10) }

func untenths(d math.LegacyDec) int64 {
	x := d.MulInt64(10)
	if !x.IsInteger() {
		Fail("arith:precision", "the amount %s is not a multiple of a tenth", d)
	}
	return x.TruncateInt64()
}

// digits enumerates vectors over the keys with amounts out of vals; the i-th one.
func digits(i int, ks []string, vals []int64) vec {
	v := vec{}
	for _, k := range ks {
		if x := vals[i%len(vals)]; x != 0 {
			v[k] = x
		}
		i /= len(vals)
	}
	return v
}

func pow(b, e int) int {
	n := 1
	for ; e > 0; e-- {
		n *= b
	}
	return n
}

// decPools builds the canonical value of keys "pool/coin".
func decPools(v vec) rewardstypes.DecPools {
	by := map[string]sdk.DecCoins{}
	for _, k := range sortedKeys(v) {
		p := strings.Split(k, "/")
		by[p[0]] = append(by[p[0]], sdk.DecCoin{Denom: p[1], Amount: tenths(v[k])})
	}
	var out rewardstypes.DecPools
	for _, d := range sortedKeys(by) {
		out = append(out, rewardstypes.DecPool{Denom: d, DecCoins: by[d]})
	}
	return out
}

// ofDecPools reads a value back, which must be sorted and free of zeros and duplicates.
func ofDecPools(what string, ps rewardstypes.DecPools) vec {
	v := vec{}
	for i, p := range ps {
		if i > 0 && ps[i-1].Denom >= p.Denom {
			Fail("arith:order:"+what, "the pools of %s are not sorted: %s", what, ps)
		}
		if len(p.DecCoins) == 0 {
			Fail("arith:empty:"+what, "an empty pool is left in %s: %s", what, ps)
		}
		for j, c := range p.DecCoins {
			if j > 0 && p.DecCoins[j-1].Denom >= c.Denom {
				Fail("arith:order:"+what, "the coins of %s are not sorted: %s", what, ps)
			}
			if c.Amount.IsZero() {
				Fail("arith:zero:"+what, "a zero coin is left in %s: %s", what, ps)
			}
			v[p.Denom+"/"+c.Denom] = untenths(c.Amount)
		}
	}
	return v
}

func servicePools(v vec) rewardstypes.ServicePools {
	by := map[string]vec{}
	for k, x := range v {
		p := strings.SplitN(k, "/", 2)
		if by[p[0]] == nil {
			by[p[0]] = vec{}
		}
		by[p[0]][p[1]] = x
	}
	ids := map[string]uint32{"s1": 1, "s2": 2, "s10": 10}
	names := sortedKeys(by)
	sort.Slice(names, func(i, j int) bool { return ids[names[i]] < ids[names[j]] })
	var out rewardstypes.ServicePools
	for _, n := range names {
		out = append(out, rewardstypes.NewServicePool(ids[n], decPools(by[n])))
	}
	return out
}

func ofServicePools(what string, ps rewardstypes.ServicePools) vec {
	v := vec{}
	for i, p := range ps {
		if i > 0 && ps[i-1].ServiceID >= p.ServiceID {
			Fail("arith:order:"+what, "the services of %s are not sorted: %s", what, ps)
		}
		if len(p.DecPools) == 0 {
			Fail("arith:empty:"+what, "an empty service is left in %s: %s", what, ps)
		}
		for k, x := range ofDecPools(what, p.DecPools) {
			v[fmt.Sprintf("s%d/%s", p.ServiceID, k)] = x
		}
	}
	return v
}

func sumCoins(v vec, depth int) vec {
	out := vec{}
	for k, x := range v {
		p := strings.Split(k, "/")
		out[p[depth]] += x
	}
	return out
}

func ofDecCoins(cs sdk.DecCoins) vec {
	v := vec{}
	for _, c := range cs {
		v[c.Denom] += untenths(c.Amount)
	}
	return v
}

func same(sig, what string, got, want vec) {
	if got.String() != want.String() {
		Fail("arith:"+sig, "%s is [%s], expected [%s]", what, got, want)
	}
}

func arithPools(r *Run) {
	ks := []string{"aaa/xxx", "aaa/yyy", "aaab/xxx", "bbb/xxx", "bbb/yyy"}
	vals := []int64{0, 5, 20}
	n := pow(len(vals), len(ks))
	if r.Thorough() {
		ks = append(ks, "aaab/yyy")
		n = pow(len(vals), len(ks))
	}
	all := make([]vec, n)
	for i := range all {
		all[i] = digits(i, ks, vals)
	}
	r.ForAll("rewards by pool", n*n, func(i int) string { return fmt.Sprintf("[%s] and [%s]", all[i%n], all[i/n]) }, func(i int) {
		u, v := all[i%n], all[i/n]
		a, b := decPools(u), decPools(v)
		what := func(op string) string { return fmt.Sprintf("[%s] %s [%s]", u, op, v) }
		sum := u.merge(v, func(x, y int64) int64 { return x + y })
		same("add", what("plus"), ofDecPools("sum", a.Add(b...)), sum)
		diff := u.merge(v, func(x, y int64) int64 { return x - y })
		d, neg := a.SafeSub(b)
		same("safesub", what("minus"), ofDecPools("difference", d), diff)
		if neg != diff.negative() || d.IsAnyNegative() != diff.negative() {
			Fail("arith:negative", "%s is reported negative: %v", what("minus"), neg)
		}
		err, pan := catch(func() error {
			same("sub", what("minus"), ofDecPools("difference", a.Sub(b)), diff)
			return nil
		})
		if (pan != "" || err != nil) != diff.negative() {
			Fail("arith:sub", "%s fails with %q", what("minus"), pan)
		}
		common := u.merge(v, func(x, y int64) int64 { return min(x, y) })
		same("intersect", what("intersect"), ofDecPools("intersection", a.Intersect(b)), common)
		if a.IsEqual(b) != (u.String() == v.String()) {
			Fail("arith:equal", "%s equal: %v", what("and"), a.IsEqual(b))
		}
		same("operand", "the left operand", ofDecPools("operand", a), u)
		same("operand", "the right operand", ofDecPools("operand", b), v)
		r.Count("pools")
		if i/n > 0 {
			return
		}
		same("sum", fmt.Sprintf("the sum of [%s]", u), ofDecCoins(a.Sum()), sumCoins(u, 1))
		same("coinsamount", fmt.Sprintf("the amount of [%s]", u), ofDecCoins(a.CoinsAmount()), sumCoins(u, 1))
		if a.IsEmpty() != (u.String() == "") {
			Fail("arith:isempty", "[%s] is empty: %v", u, a.IsEmpty())
		}
		for _, p := range []string{"aaa", "aaab", "bbb", "ccc"} {
			w := vec{}
			for k, x := range u {
				if strings.HasPrefix(k, p+"/") {
					w[strings.Split(k, "/")[1]] = x
				}
			}
			same("coinsof", fmt.Sprintf("the coins of %q in [%s]", p, u), ofDecCoins(a.CoinsOf(p)), w)
		}
		whole, change := a.TruncateDecimal()
		back := ofDecPools("change", change)
		for _, p := range whole {
			for _, c := range p.Coins {
				back[p.Denom+"/"+c.Denom] += 10 * c.Amount.Int64()
			}
		}
		same("truncate", fmt.Sprintf("whole part plus change of [%s]", u), back, u)
		for k, x := range ofDecPools("change", change) {
			if x >= 10 {
				Fail("arith:truncate", "the change of [%s] has %d tenths of %s", u, x, k)
			}
		}
	})
	sk := []string{"s1/aaa/xxx", "s1/bbb/xxx", "s2/aaa/xxx", "s10/aaa/xxx", "s10/aaa/yyy"}
	sn := pow(len(vals), len(sk))
	sall := make([]vec, sn)
	for i := range sall {
		sall[i] = digits(i, sk, vals)
	}
	r.ForAll("rewards by service", sn*sn, func(i int) string { return fmt.Sprintf("[%s] and [%s]", sall[i%sn], sall[i/sn]) }, func(i int) {
		u, v := sall[i%sn], sall[i/sn]
		a, b := servicePools(u), servicePools(v)
		what := func(op string) string { return fmt.Sprintf("[%s] %s [%s]", u, op, v) }
		same("service:add", what("plus"), ofServicePools("sum", a.Add(b...)), u.merge(v, func(x, y int64) int64 { return x + y }))
		diff := u.merge(v, func(x, y int64) int64 { return x - y })
		d, neg := a.SafeSub(b)
		same("service:safesub", what("minus"), ofServicePools("difference", d), diff)
		if neg != diff.negative() {
			Fail("arith:service:negative", "%s is reported negative: %v", what("minus"), neg)
		}
		err, pan := catch(func() error {
			same("service:sub", what("minus"), ofServicePools("difference", a.Sub(b)), diff)
			return nil
		})
		if (pan != "" || err != nil) != diff.negative() {
			Fail("arith:service:sub", "%s fails with %q", what("minus"), pan)
		}
		same("service:operand", "the left operand", ofServicePools("operand", a), u)
		same("service:operand", "the right operand", ofServicePools("operand", b), v)
		r.Count("services")
	})
}

// target is the part of pools, operators and services that keeps the shares.
type shareTarget struct {
	kind   string
	add    func(x sdk.Coins) (shareTarget, sdk.DecCoins)
	remove func(x sdk.DecCoins) (shareTarget, sdk.Coins)
	worth  func(x sdk.DecCoins) sdk.DecCoins
	tokens func() sdk.Coins
	shares func() sdk.DecCoins
	denom  func(d string) string
}

func opTarget(o operatorstypes.Operator) shareTarget {
	return shareTarget{"operator",
		func(x sdk.Coins) (shareTarget, sdk.DecCoins) {
			n, s := o.AddTokensFromDelegation(x)
			return opTarget(n), s
		},
		func(x sdk.DecCoins) (shareTarget, sdk.Coins) { n, c := o.RemoveDelShares(x); return opTarget(n), c },
		o.TokensFromShares, o.GetTokens, o.GetDelegatorShares, o.GetSharesDenom}
}

func svcTarget(o servicestypes.Service) shareTarget {
	return shareTarget{"service",
		func(x sdk.Coins) (shareTarget, sdk.DecCoins) {
			n, s := o.AddTokensFromDelegation(x)
			return svcTarget(n), s
		},
		func(x sdk.DecCoins) (shareTarget, sdk.Coins) { n, c := o.RemoveDelShares(x); return svcTarget(n), c },
		o.TokensFromShares, o.GetTokens, o.GetDelegatorShares, o.GetSharesDenom}
}

func poolTarget(o poolstypes.Pool) shareTarget {
	return shareTarget{"pool",
		func(x sdk.Coins) (shareTarget, sdk.DecCoins) {
			n, s, err := o.AddTokensFromDelegation(x[0])
			check(err)
			return poolTarget(n), sdk.DecCoins{s}
		},
		func(x sdk.DecCoins) (shareTarget, sdk.Coins) {
			n, c, err := o.RemoveDelShares(x)
			check(err)
			return poolTarget(n), c
		},
		o.TokensFromShares, o.GetTokens, o.GetDelegatorShares, o.GetSharesDenom}
}

// arithShares: issuing and redeeming shares, also when a share is not worth one token.
func arithShares(r *Run) {
	rates := []string{"1", "0.5", "3", "0.333333333333333333", "1.000000000000000001"}
	kinds := []string{"pool", "operator", "service"}
	maxT := int64(r.Pick(6, 12))
	nT, nX := int(maxT)+1, int(maxT)
	n := len(kinds) * len(rates) * nT * nX * nX
	r.ForAll("shares", n, func(i int) string {
		return fmt.Sprintf("%s, %d tokens at %s shares each, deposits of %d and %d", kinds[i%3], i/3/len(rates)%nT, rates[i/3%len(rates)], 1+i/3/len(rates)/nT%nX, 1+i/3/len(rates)/nT/nX)
	}, func(i int) {
		k, rate, t, x, y := kinds[i%3], math.LegacyMustNewDecFromStr(rates[i/3%len(rates)]), int64(i/3/len(rates)%nT), int64(1+i/3/len(rates)/nT%nX), int64(1+i/3/len(rates)/nT/nX)
		coin := func(n int64) sdk.Coins { return sdk.NewCoins(sdk.NewInt64Coin("tka", n)) }
		sd := k + "/1/tka"
		have := sdk.DecCoins{}
		if t > 0 {
			have = sdk.DecCoins{sdk.NewDecCoinFromDec(sd, rate.MulInt64(t))}
		}
		other := k != "pool"
		tok := coin(t)
		if other { // a second denom at rate one, which must not be touched
			tok = tok.Add(sdk.NewInt64Coin("tkb", 5))
			have = have.Add(sdk.NewInt64DecCoin(k+"/1/tkb", 5))
		}
		var g shareTarget
		switch k {
		case "pool":
			g = poolTarget(poolstypes.Pool{ID: 1, Denom: "tka", Tokens: math.NewInt(t), DelegatorShares: have.AmountOf(sd)})
		case "operator":
			g = opTarget(operatorstypes.Operator{ID: 1, Tokens: tok, DelegatorShares: have})
		default:
			g = svcTarget(servicestypes.Service{ID: 1, Tokens: tok, DelegatorShares: have})
		}
		fail := func(f string, a ...any) { Fail("shares:"+k, f, a...) }
		if g.denom("tka") != sd || utils.GetTokenDenomFromSharesDenom(sd) != "tka" {
			fail("the shares of tka are called %s", g.denom("tka"))
		}
		step := func(g shareTarget, n int64) (shareTarget, math.LegacyDec) {
			T, S := g.tokens().AmountOf("tka"), g.shares().AmountOf(sd)
			h, issued := g.add(coin(n))
			want := math.LegacyNewDec(n)
			if !T.IsZero() {
				want = S.MulInt64(n).QuoInt(T)
			}
			if len(issued) != 1 || issued[0].Denom != sd || !issued.AmountOf(sd).Equal(want) {
				fail("%d tokens on %s tokens and %s shares get %s, expected %s", n, T, S, issued, want)
			}
			if !h.tokens().AmountOf("tka").Equal(T.AddRaw(n)) || !h.shares().AmountOf(sd).Equal(S.Add(want)) {
				fail("adding %d tokens: tokens %s -> %s, shares %s -> %s", n, T, h.tokens(), S, h.shares())
			}
			return h, want
		}
		g1, sx := step(g, x)
		g2, sy := step(g1, y)
		for _, s := range []math.LegacyDec{sx, sy, sx.Add(sy)} {
			T, S := g2.tokens().AmountOf("tka"), g2.shares().AmountOf(sd)
			w := g2.worth(sdk.DecCoins{sdk.NewDecCoinFromDec(sd, s)}).AmountOf("tka")
			if !w.Equal(s.MulInt(T).Quo(S)) {
				fail("%s of %s shares of %s tokens are worth %s", s, S, T, w)
			}
			h, paid := g2.remove(sdk.DecCoins{sdk.NewDecCoinFromDec(sd, s)})
			want := w.TruncateInt()
			if s.Equal(S) {
				want = T // the last one gets the rest
			}
			if len(paid) > 1 || !paid.AmountOf("tka").Equal(want) {
				fail("%s of %s shares of %s tokens are paid %s, expected %s", s, S, T, paid, want)
			}
			if !h.tokens().AmountOf("tka").Equal(T.Sub(want)) || !h.shares().AmountOf(sd).Equal(S.Sub(s)) {
				fail("removing %s shares: tokens %s -> %s, shares %s -> %s", s, T, h.tokens(), S, h.shares())
			}
			if other && (!h.tokens().AmountOf("tkb").Equal(math.NewInt(5)) || !h.shares().AmountOf(k+"/1/tkb").Equal(math.LegacyNewDec(5))) {
				fail("the other denom changes: %s %s", h.tokens(), h.shares())
			}
		}
		if !g2.shares().AmountOf(sd).Equal(g.shares().AmountOf(sd).Add(sx).Add(sy)) {
			fail("the shares do not add up")
		}
		r.Count("shares")
	})
}

// arithCoins: comparisons used by the checks on shares.
func arithCoins(r *Run) {
	ks := []string{"aaa", "bbb", "ccc"}
	vals := []int64{0, 5, 10, 15}
	n := pow(len(vals), len(ks))
	coinsOf := func(v vec) sdk.DecCoins {
		var out sdk.DecCoins
		for _, k := range sortedKeys(v) {
			out = append(out, sdk.DecCoin{Denom: k, Amount: tenths(v[k])})
		}
		return out
	}
	r.ForAll("coin comparisons", n*n, func(i int) string {
		return fmt.Sprintf("[%s] and [%s]", digits(i%n, ks, vals), digits(i/n, ks, vals))
	}, func(i int) {
		u, v := digits(i%n, ks, vals), digits(i/n, ks, vals)
		a, b := coinsOf(u), coinsOf(v)
		allGTE, anyGT, allGT, subset := true, false, len(u) > 0, true
		keep := vec{}
		for _, k := range ks {
			allGTE = allGTE && u[k] >= v[k]
			anyGT = anyGT || v[k] > 0 && u[k] > v[k]
			allGT = allGT && (v[k] == 0 || u[k] > v[k])
			subset = subset && (u[k] == 0 || v[k] > 0)
			if v[k] > 0 {
				keep[k] = u[k]
			}
		}
		for _, c := range []struct {
			name      string
			got, want bool
		}{{"IsAllGTE", utils.IsAllGTE(a, b), allGTE}, {"IsAnyLT", utils.IsAnyLT(a, b), !allGTE}, {"IsAnyGT", utils.IsAnyGT(a, b), anyGT}, {"IsAllGT", utils.IsAllGT(a, b), allGT}, {"DenomsSubsetOf", utils.DenomsSubsetOf(a, b), subset}} {
			if c.got != c.want {
				Fail("coins:"+c.name, "%s([%s], [%s]) is %v", c.name, u, v, c.got)
			}
		}
		same("filter", fmt.Sprintf("[%s] restricted to the denoms of [%s]", u, v), ofDecCoins(utils.FilterDecCoinsByDenom(a, b)), keep)
		r.Count("coins")
	})
}

func init() {
	register(&Property{
		ID: "C32", Title: "The arithmetic on rewards by pool and service and on shares is exact and canonical",
		Need: []string{"pools", "services", "shares", "coins"},
		Run: func(r *Run) {
			arithPools(r)
			arithShares(r)
			arithCoins(r)
		},
	})
}
