package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	rewardstypes "github.com/milkyway-labs/milkyway/v3/x/rewards/types"
)

// ---------------------------------------------------------------- exact amounts

// Rats are exact rational amounts by denom.
type Rats map[string]*big.Rat

func (a Rats) add(d string, v *big.Rat) {
	if v.Sign() == 0 {
		return
	}
	if a[d] == nil {
		a[d] = new(big.Rat)
	}
	a[d] = new(big.Rat).Add(a[d], v)
}

func (a Rats) clone() Rats {
	n := Rats{}
	for k, v := range a {
		n[k] = v // never mutated in place
	}
	return n
}

func (a Rats) String() string {
	var parts []string
	for _, d := range sortedKeys(a) {
		if a[d].Sign() != 0 {
			parts = append(parts, a[d].FloatString(4)+d)
		}
	}
	return strings.Join(parts, ",")
}

func rat(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

// ---------------------------------------------------------------- model

type mDistr struct {
	W    int64
	Type byte // b(asic), e(galitarian), w(eighted)
	Wts  [][2]uint32
}

// parseDistr: "b2", "e0", "w1:1=3;2=1".
func parseDistr(s string) mDistr {
	p := strings.SplitN(s, ":", 2)
	w, err := strconv.ParseInt(p[0][1:], 10, 64)
	if err != nil {
		panic(err)
	}
	d := mDistr{W: w, Type: p[0][0]}
	if len(p) == 2 {
		for _, x := range strings.Split(p[1], ";") {
			kv := strings.Split(x, "=")
			a, _ := strconv.ParseUint(kv[0], 10, 32)
			b, _ := strconv.ParseUint(kv[1], 10, 32)
			d.Wts = append(d.Wts, [2]uint32{uint32(a), uint32(b)})
		}
	}
	return d
}

func (d mDistr) real(kind string) rewardstypes.Distribution {
	var ws []rewardstypes.DistributionWeight
	for _, w := range d.Wts {
		ws = append(ws, rewardstypes.NewDistributionWeight(w[0], w[1]))
	}
	t := restakingtypes.DELEGATION_TYPE_POOL
	if kind == "op" {
		t = restakingtypes.DELEGATION_TYPE_OPERATOR
	}
	switch d.Type {
	case 'e':
		return rewardstypes.NewDistribution(t, uint32(d.W), &rewardstypes.DistributionTypeEgalitarian{})
	case 'w':
		return rewardstypes.NewDistribution(t, uint32(d.W), &rewardstypes.DistributionTypeWeighted{Weights: ws})
	}
	return rewardstypes.NewDistribution(t, uint32(d.W), &rewardstypes.DistributionTypeBasic{})
}

type mPlan struct {
	Svc        uint32
	Spec       string // "start,end|pools|operators|users"
	Amt        Amt    // per day
	Start, End int64  // milliseconds after genesis
	Pools, Ops mDistr
	UsersW     int64
}

type mAsset struct {
	Ticker string
	Exp    uint32
}

// payout is a transfer of rewards out of the rewards pool which the current step must make: between
// A - Slack and A to the account To.
type payout struct {
	To    string
	A     Rats
	Slack int64
	Op    uint32 // commission of this operator
}

// RW is the reference model of the rewards and assets modules.
type RW struct {
	Denoms  []string // reward denoms
	Plans   map[uint32]*mPlan
	Next    uint32
	PlanBal map[uint32]Amt
	Assets  map[string]mAsset
	Price   map[string]int64 // ticker -> price
	Acc     map[delKey]Rats  // earned since the last withdrawal
	Comm    map[uint32]Rats
	CommNow map[uint32]bool // something was ever added since the record was exactly empty
	WAddr   map[string]string
	Bal     map[string]Amt // reward denoms: users, "svc/1"
	Moved   Amt            // taken out of plan pools and not yet paid out
	Last    int64          // last allocation time (0: never)
	Fee     Amt
	Pay     []payout
}

func NewRW(denoms []string) *RW {
	return &RW{Denoms: denoms, Plans: map[uint32]*mPlan{}, Next: 1, PlanBal: map[uint32]Amt{}, Assets: map[string]mAsset{}, Price: map[string]int64{},
		Acc: map[delKey]Rats{}, Comm: map[uint32]Rats{}, CommNow: map[uint32]bool{}, WAddr: map[string]string{}, Bal: map[string]Amt{}, Moved: Amt{}, Fee: Amt{}}
}

func (w *RW) clone() *RW {
	if w == nil {
		return nil
	}
	n := *w
	n.Plans = cloneMap(w.Plans) // plans are replaced, never changed in place
	n.PlanBal = cloneMap(w.PlanBal)
	n.Assets, n.Price = cloneMap(w.Assets), cloneMap(w.Price)
	n.Acc = make(map[delKey]Rats, len(w.Acc))
	for k, v := range w.Acc {
		n.Acc[k] = v.clone()
	}
	n.Comm = make(map[uint32]Rats, len(w.Comm))
	for k, v := range w.Comm {
		n.Comm[k] = v.clone()
	}
	n.CommNow, n.WAddr, n.Bal = cloneMap(w.CommNow), cloneMap(w.WAddr), cloneMap(w.Bal)
	n.Pay = append([]payout(nil), w.Pay...)
	return &n
}

// key is the history carried by the model: exact pending amounts.
func (w *RW) key() string {
	var parts []string
	for k, v := range w.Acc {
		parts = append(parts, k.String()+"="+v.String())
	}
	for k, v := range w.Comm {
		parts = append(parts, fmt.Sprintf("c%d=%s", k, v))
	}
	sort.Strings(parts)
	return strings.Join(parts, "\n")
}

func (m *RM) trusts(user string, svc uint32) bool {
	if m.Svcs[svc] == nil {
		return false
	}
	p, ok := m.Prefs[user]
	if !ok {
		p = mPref{Acc: true}
	}
	return p.trusts(svc, m.Svcs[svc])
}

// secured: a service without a list of pools is secured by all of them.
func (m *RM) secured(svc, pool uint32) bool {
	any := false
	for k := range m.Secure {
		any = any || k[0] == svc
	}
	return !any || m.Secure[[2]uint32{svc, pool}]
}

func (p mPref) trusts(id uint32, s *mSvc) bool {
	return in(splitList(p.IDs), fmt.Sprint(id)) || s.Accredited && p.Acc || !s.Accredited && p.Non
}

// poolDenom of a pool id.
func (m *RM) poolDenom(id uint32) string {
	for d, p := range m.Pools {
		if p == id {
			return d
		}
	}
	return ""
}

// value of some tokens.
func (m *RM) value(a Amt) *big.Rat {
	v := new(big.Rat)
	for d, n := range a {
		v.Add(v, m.valueOf(d, n))
	}
	return v
}

func (m *RM) valueOf(d string, n int64) *big.Rat {
	as, ok := m.RW.Assets[d]
	if !ok {
		return new(big.Rat)
	}
	den := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(as.Exp)), nil)
	return new(big.Rat).Mul(new(big.Rat).Mul(rat(n), rat(m.RW.Price[as.Ticker])), new(big.Rat).SetFrac(big.NewInt(1), den))
}

func filterAmt(a Amt, list []string) Amt {
	if len(list) == 0 {
		return a
	}
	out := Amt{}
	for d, v := range a {
		if in(list, d) {
			out[d] = v
		}
	}
	return out
}

func (m *RM) targetTokens(kind string, id uint32) Amt {
	t := Amt{}
	for k, a := range m.Del {
		if k.Kind == kind && k.ID == id {
			t = t.add(a)
		}
	}
	return t
}

// allocate distributes the rewards of the time since the last allocation.
func (m *RM) allocate(now int64) {
	w := m.RW
	last := w.Last
	w.Last = now
	if last == 0 || now == last {
		return
	}
	ms := now - last
	at := now - genTime.UnixMilli()
	var ids []int
	for id := range w.Plans {
		ids = append(ids, int(id))
	}
	sort.Ints(ids)
	for _, i := range ids {
		id := uint32(i)
		p := w.Plans[id]
		s := m.Svcs[p.Svc]
		if at < p.Start || at >= p.End || s.Status != "active" {
			continue
		}
		glob, own := splitList(m.Allowed), splitList(s.Denoms)
		list := glob
		switch {
		case len(glob) == 0:
			list = own
		case len(own) > 0:
			list = nil
			for _, d := range glob {
				if in(own, d) {
					list = append(list, d)
				}
			}
			if len(list) == 0 {
				continue
			}
		}
		give := Amt{}
		for d, v := range p.Amt {
			x := new(big.Int).Mul(big.NewInt(v), big.NewInt(ms))
			if n := x.Quo(x, big.NewInt(86400000)).Int64(); n > 0 {
				give[d] = n
			}
		}
		if !w.PlanBal[id].gte(give) {
			continue
		}
		type target struct {
			kind  string
			id    uint32
			toks  Amt // restakable tokens which earn
			value *big.Rat
		}
		var pools, opers []target
		pv, ov := new(big.Rat), new(big.Rat)
		for d, pid := range m.Pools {
			if !m.secured(p.Svc, pid) || len(list) > 0 && !in(list, d) {
				continue
			}
			trusted := false
			for k := range m.Del {
				trusted = trusted || k.Kind == "pool" && k.ID == pid && m.trusts(k.User, p.Svc)
			}
			t := target{"pool", pid, m.targetTokens("pool", pid), nil}
			t.value = m.value(t.toks)
			if trusted && t.value.Sign() > 0 {
				pools = append(pools, t)
				pv.Add(pv, t.value)
			}
		}
		for oid, o := range m.Ops {
			if o.Status != "active" || !m.Joined[[2]uint32{oid, p.Svc}] || m.hasAllow(p.Svc) && !m.Allow[[2]uint32{p.Svc, oid}] {
				continue
			}
			t := target{"op", oid, filterAmt(m.targetTokens("op", oid), list), nil}
			t.value = m.value(t.toks)
			if t.value.Sign() > 0 {
				opers = append(opers, t)
				ov.Add(ov, t.value)
			}
		}
		ut := target{"svc", p.Svc, filterAmt(m.targetTokens("svc", p.Svc), list), nil}
		ut.value = m.value(ut.toks)
		uv := ut.value
		total := new(big.Rat).Add(pv, ov)
		total.Add(total, uv)
		if total.Sign() == 0 {
			continue
		}
		w.PlanBal[id] = w.PlanBal[id].sub(give)
		w.Moved = w.Moved.add(give)
		// share of each category
		weight := func(c int64, v *big.Rat) int64 {
			if v.Sign() > 0 {
				return c
			}
			return 0
		}
		wsum := weight(p.Pools.W, pv) + weight(p.Ops.W, ov) + weight(p.UsersW, uv)
		share := func(c int64, v *big.Rat) *big.Rat {
			if v.Sign() == 0 {
				return new(big.Rat)
			}
			if wsum > 0 {
				return big.NewRat(c, wsum)
			}
			return new(big.Rat).Quo(v, total)
		}
		split := func(ts []target, d mDistr, sum, cat *big.Rat) {
			n := int64(len(ts))
			var elig int64
			wt := func(t target) int64 {
				for _, x := range d.Wts {
					if x[0] == t.id {
						return int64(x[1])
					}
				}
				return 0
			}
			for _, t := range ts {
				elig += wt(t)
			}
			for _, t := range ts {
				var f *big.Rat
				switch d.Type {
				case 'e':
					f = big.NewRat(1, n)
				case 'w':
					if elig == 0 {
						continue
					}
					f = big.NewRat(wt(t), elig)
				default:
					f = new(big.Rat).Quo(t.value, sum)
				}
				f.Mul(f, cat)
				for tok, n := range t.toks {
					tv := m.valueOf(tok, n)
					if tv.Sign() == 0 {
						continue
					}
					ft := new(big.Rat).Quo(tv, t.value)
					ft.Mul(ft, f)
					if t.kind == "op" && m.Ops[t.id].Rate != "" {
						rate, _ := new(big.Rat).SetString(m.Ops[t.id].Rate)
						for d, g := range give {
							if w.Comm[t.id] == nil {
								w.Comm[t.id] = Rats{}
							}
							c := new(big.Rat).Mul(rat(g), ft)
							w.Comm[t.id].add(d, c.Mul(c, rate))
						}
						ft.Mul(ft, new(big.Rat).Sub(rat(1), rate))
					}
					// by stake, among those entitled
					var stake int64
					for k, a := range m.Del {
						if k.Kind == t.kind && k.ID == t.id && (t.kind != "pool" || m.trusts(k.User, p.Svc)) {
							stake += a[tok]
						}
					}
					for k, a := range m.Del {
						if k.Kind == t.kind && k.ID == t.id && a[tok] > 0 && (t.kind != "pool" || m.trusts(k.User, p.Svc)) {
							fs := new(big.Rat).Mul(ft, big.NewRat(a[tok], stake))
							if w.Acc[k] == nil {
								w.Acc[k] = Rats{}
							}
							for d, g := range give {
								w.Acc[k].add(d, new(big.Rat).Mul(rat(g), fs))
							}
						}
					}
				}
			}
		}
		split(pools, p.Pools, pv, share(p.Pools.W, pv))
		split(opers, p.Ops, ov, share(p.Ops.W, ov))
		if uv.Sign() > 0 {
			split([]target{ut}, mDistr{Type: 'b'}, uv, share(p.UsersW, uv))
		}
	}
}

// terminate gives what is left of a plan to its service.
func (m *RM) terminate(id uint32) {
	w := m.RW
	to := fmt.Sprintf("svc/%d", w.Plans[id].Svc)
	w.Bal[to] = w.Bal[to].add(w.PlanBal[id])
	w.PlanBal[id] = Amt{}
	delete(w.Plans, id)
}

func (w *RW) waddr(u string) string {
	if x, ok := w.WAddr[u]; ok {
		return x
	}
	return u
}

// withdraw makes the current step pay out a delegation.
func (m *RM) withdraw(k delKey) {
	w := m.RW
	if a := w.Acc[k]; len(a) > 0 {
		w.Pay = append(w.Pay, payout{To: w.waddr(k.User), A: a, Slack: int64(len(m.Denoms))})
	}
	delete(w.Acc, k)
}

func (m *RM) withdrawPools(user string) {
	for k := range m.Del {
		if k.Kind == "pool" && k.User == user {
			m.withdraw(k)
		}
	}
}

// trustChange pays the pool rewards of the users whose trust in a service is different before and
// after f.
func (m *RM) trustChange(svcs []uint32, f func()) {
	before := map[string]map[uint32]bool{}
	users := map[string]bool{}
	for k := range m.Del {
		if k.Kind == "pool" {
			users[k.User] = true
		}
	}
	for u := range users {
		before[u] = map[uint32]bool{}
		for _, s := range svcs {
			before[u][s] = m.trusts(u, s)
		}
	}
	f()
	for u := range users {
		for _, s := range svcs {
			if m.Svcs[s] == nil && before[u][s] || m.Svcs[s] != nil && m.trusts(u, s) != before[u][s] {
				m.withdrawPools(u)
				break
			}
		}
	}
}

func (m *RM) svcIDs() []uint32 {
	var out []uint32
	for id := range m.Svcs {
		out = append(out, id)
	}
	return out
}

// validPlan is the admission of the content of a plan.
func (m *RM) validPlan(o Op) (*mPlan, bool) {
	f := strings.Split(o.S, "|")
	a := amt(o.A)
	p := &mPlan{Amt: a, Pools: parseDistr(f[1]), Ops: parseDistr(f[2]), UsersW: parseDistr(f[3]).W}
	if _, err := fmt.Sscanf(f[0], "%d,%d", &p.Start, &p.End); err != nil {
		panic(err)
	}
	p.Start, p.End = p.Start*1000, p.End*1000
	p.Spec = fmt.Sprintf("%d,%d|%s", p.Start, p.End, strings.Join(f[1:4], "|"))
	for _, v := range a {
		if v <= 0 {
			return nil, false
		}
	}
	if p.End <= p.Start || len(f) > 5 && len(f[5]) > 1000 {
		return nil, false
	}
	for kind, d := range map[string]mDistr{"pool": p.Pools, "op": p.Ops} {
		seen := map[uint32]bool{}
		for _, w := range d.Wts {
			if w[1] == 0 || seen[w[0]] || kind == "pool" && !m.hasPool(w[0]) || kind == "op" && m.Ops[w[0]] == nil {
				return nil, false
			}
			seen[w[0]] = true
		}
	}
	return p, true
}

// planTimes of "start,end|..."
func planTimes(s string) (time.Time, time.Time) {
	var a, b int64
	if _, err := fmt.Sscanf(strings.Split(s, "|")[0], "%d,%d", &a, &b); err != nil {
		panic(err)
	}
	return genTime.Add(time.Duration(a) * time.Second), genTime.Add(time.Duration(b) * time.Second)
}

// rwMsg builds the messages of the rewards and assets modules.
func (o Op) rwMsg() sdk.Msg {
	u := who(o.U)
	a := amt(o.A).coins()
	switch o.K {
	case "plan", "edit_plan":
		f := strings.Split(o.S, "|")
		st, en := planTimes(o.S)
		pd, od, ud := parseDistr(f[1]).real("pool"), parseDistr(f[2]).real("op"), rewardstypes.NewBasicUsersDistribution(uint32(parseDistr(f[3]).W))
		desc := "plan"
		if len(f) > 5 {
			desc = f[5]
		}
		if o.K == "edit_plan" {
			return rewardstypes.NewMsgEditRewardsPlan(uint64(o.ID), desc, a, st, en, pd, od, ud, u)
		}
		fee := sdk.Coins{}
		if len(f) > 4 {
			fee = amt(f[4]).coins()
		}
		return rewardstypes.NewMsgCreateRewardsPlan(o.ID, desc, a, st, en, pd, od, ud, fee, u)
	case "fund":
		return banktypes.NewMsgSend(addr(o.U), rewardstypes.GetRewardsPoolAddress(uint64(o.ID)), a)
	case "claim":
		t := map[string]restakingtypes.DelegationType{"pool": restakingtypes.DELEGATION_TYPE_POOL, "op": restakingtypes.DELEGATION_TYPE_OPERATOR, "svc": restakingtypes.DELEGATION_TYPE_SERVICE}[o.S]
		return rewardstypes.NewMsgWithdrawDelegatorReward(t, o.ID, u)
	case "commission":
		return rewardstypes.NewMsgWithdrawOperatorCommission(o.ID, u)
	case "waddr":
		to := who(o.S)
		if strings.HasPrefix(o.S, "mod:") {
			to = moduleAddr(o.S[4:]).String()
		}
		return rewardstypes.NewMsgSetWithdrawAddress(to, u)
	case "asset":
		return assetstypes.NewMsgRegisterAsset(u, assetstypes.NewAsset(field(o.S, 0), field(o.S, 1), o.ID))
	case "unasset":
		return assetstypes.NewMsgDeregisterAsset(u, o.S)
	case "wparams":
		return &rewardstypes.MsgUpdateParams{Authority: u, Params: rewardstypes.NewParams(a)}
	}
	return nil
}

// setPrice is what the oracle does.
func (a *App) setPrice(ctx sdk.Context, ticker string, price int64) {
	err := a.OracleKeeper.SetPriceForCurrencyPair(ctx, connecttypes.NewCurrencyPair(ticker, "USD"), oracletypes.QuotePrice{
		Price: math.NewInt(price * 1_00000000), BlockTimestamp: genTime, BlockHeight: 1})
	if err != nil {
		panic(err)
	}
}

// applyRW predicts the messages of the rewards and assets modules. handled is false for the others.
func (m *RM) applyRW(o Op) (ok, handled bool) {
	w := m.RW
	a := amt(o.A)
	svc := m.Svcs[o.ID]
	switch o.K {
	case "plan":
		if svc == nil || svc.Admin != o.U || o.S == "" {
			return false, true
		}
		p, ok := m.validPlan(o)
		if !ok {
			return false, true
		}
		p.Svc = o.ID
		fee := amt(field(o.S, 4))
		if !w.Fee.zero() {
			enough := false
			for d, v := range w.Fee {
				if v > 0 && fee[d] >= v {
					enough = true
				}
			}
			if !enough || !m.move(o.U, "community", fee) {
				return false, true
			}
		}
		w.Plans[w.Next] = p
		w.Next++
		return true, true
	case "edit_plan":
		old := w.Plans[o.ID]
		if old == nil || m.Svcs[old.Svc].Admin != o.U || m.Now-genTime.UnixMilli() >= old.End {
			return false, true
		}
		p, ok := m.validPlan(o)
		if !ok {
			return false, true
		}
		p.Svc = old.Svc
		w.Plans[o.ID] = p
		return true, true
	case "fund":
		if !a.positive() || !w.Bal[o.U].gte(a) {
			return false, true
		}
		w.Bal[o.U] = w.Bal[o.U].sub(a)
		w.PlanBal[o.ID] = w.PlanBal[o.ID].add(a)
		return true, true
	case "claim":
		k := delKey{o.U, o.S, o.ID}
		if m.Del[k] == nil {
			return false, true
		}
		m.withdraw(k)
		return true, true
	case "commission":
		op := m.Ops[o.ID]
		if op == nil || op.Admin != o.U || len(w.Comm[o.ID]) == 0 {
			return false, true
		}
		w.Pay = append(w.Pay, payout{To: w.waddr(op.Admin), A: w.Comm[o.ID], Slack: int64(len(m.Denoms)), Op: o.ID})
		return true, true
	case "waddr":
		if o.S == "bad" || strings.HasPrefix(o.S, "mod:") && o.S != "mod:gov" {
			return false, true
		}
		w.WAddr[o.U] = o.S
		return true, true
	case "asset":
		if o.U != "gov" || sdk.ValidateDenom(field(o.S, 0)) != nil || !validTicker(field(o.S, 1)) || o.ID > 36 {
			return false, true
		}
		w.Assets[field(o.S, 0)] = mAsset{field(o.S, 1), o.ID}
		return true, true
	case "unasset":
		if _, ok := w.Assets[o.S]; o.U != "gov" || !ok {
			return false, true
		}
		delete(w.Assets, o.S)
		return true, true
	case "wparams":
		if o.U != "gov" {
			return false, true
		}
		w.Fee = a
		return true, true
	}
	return false, false
}

// validTicker: one to ten letters and digits.
func validTicker(t string) bool {
	for _, c := range t {
		if !(c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z') {
			return false
		}
	}
	return len(t) >= 1 && len(t) <= 10
}

// ---------------------------------------------------------------- comparison

func (w *RW) facts(m *RM) Facts {
	f := Facts{}
	for id, p := range w.Plans {
		f[fmt.Sprintf("plan/%d", id)] = fmt.Sprintf("svc %d %s %s", p.Svc, p.Amt, p.Spec)
	}
	for id := uint32(1); id < w.Next+2; id++ {
		f.set(fmt.Sprintf("planbal/%d", id), w.PlanBal[id].String())
	}
	for _, id := range ids(m.NextSv) {
		f.set(fmt.Sprintf("remainder/%d", id), w.Bal[fmt.Sprintf("svc/%d", id)].String())
	}
	for u, x := range w.WAddr {
		if x != u {
			f["waddr/"+u] = wname(x)
		}
	}
	for d, a := range w.Assets {
		f["asset/"+d] = fmt.Sprintf("%s %d", a.Ticker, a.Exp)
	}
	f.set("params/rewards", w.Fee.String())
	return f
}

func wname(x string) string {
	if strings.HasPrefix(x, "mod:") {
		return moduleAddr(x[4:]).String()
	}
	return who(x)
}

func (w *RW) observe(app *App, ctx sdk.Context, m *RM) Facts {
	f := Facts{}
	check(app.RewardsKeeper.RewardsPlans.Walk(ctx, nil, func(id uint64, p rewardstypes.RewardsPlan) (bool, error) {
		spec := fmt.Sprintf("%d,%d|%s|%s|b%d", p.StartTime.UnixMilli()-genTime.UnixMilli(), p.EndTime.UnixMilli()-genTime.UnixMilli(),
			showDistr(app, p.PoolsDistribution), showDistr(app, p.OperatorsDistribution), p.UsersDistribution.Weight)
		f[fmt.Sprintf("plan/%d", id)] = fmt.Sprintf("svc %d %s %s", p.ServiceID, amtOf(p.AmountPerDay), spec)
		return false, nil
	}))
	for id := uint32(1); id < w.Next+2; id++ {
		f.set(fmt.Sprintf("planbal/%d", id), app.balance(ctx, rewardstypes.GetRewardsPoolAddress(uint64(id)), w.Denoms))
	}
	for _, id := range ids(m.NextSv) {
		f.set(fmt.Sprintf("remainder/%d", id), app.balance(ctx, escrowAddr("svc", id), w.Denoms))
	}
	for _, u := range m.Users {
		x, err := app.RewardsKeeper.GetDelegatorWithdrawAddr(ctx, addr(u))
		check(err)
		if !x.Equals(addr(u)) {
			f["waddr/"+u] = x.String()
		}
	}
	check(app.AssetsKeeper.Assets.Walk(ctx, nil, func(d string, a assetstypes.Asset) (bool, error) {
		f["asset/"+d] = fmt.Sprintf("%s %d", a.Ticker, a.Exponent)
		return false, nil
	}))
	p, err := app.RewardsKeeper.Params.Get(ctx)
	check(err)
	f.set("params/rewards", amtOf(p.RewardsPlanCreationFee).String())
	return f
}

func showDistr(app *App, d rewardstypes.Distribution) string {
	t, err := rewardstypes.GetDistributionType(app.AppCodec(), d)
	check(err)
	switch x := t.(type) {
	case *rewardstypes.DistributionTypeBasic:
		return fmt.Sprintf("b%d", d.Weight)
	case *rewardstypes.DistributionTypeEgalitarian:
		return fmt.Sprintf("e%d", d.Weight)
	case *rewardstypes.DistributionTypeWeighted:
		var ws []string
		for _, w := range x.Weights {
			ws = append(ws, fmt.Sprintf("%d=%d", w.DelegationTargetID, w.Weight))
		}
		if len(ws) == 0 {
			return fmt.Sprintf("w%d", d.Weight)
		}
		return fmt.Sprintf("w%d:%s", d.Weight, strings.Join(ws, ";"))
	}
	return "?"
}

// settle compares the reward balances of the users with the payouts the step had to make, and takes
// over the actual amounts, which may fall short by the permitted rounding only.
func (c *RMConf) settle(r *Run, s *State, o Op) bool {
	m := rm(s)
	w := m.RW
	ctx := s.Ctx()
	pay := w.Pay
	w.Pay = nil
	accounts := append([]string(nil), m.Users...)
	for _, p := range pay {
		if !in(accounts, p.To) {
			accounts = append(accounts, p.To)
		}
	}
	paid := Amt{}
	for _, u := range accounts {
		due := Rats{}
		var slack int64
		for _, p := range pay {
			if p.To == u {
				for d, v := range p.A {
					due.add(d, v)
				}
				slack += p.Slack
			}
		}
		ad := addr(u)
		if strings.HasPrefix(u, "mod:") {
			ad = moduleAddr(u[4:])
		}
		got := amt(s.App.balance(ctx, ad, w.Denoms))
		delta := got.sub(w.Bal[u])
		for _, d := range w.Denoms {
			x := rat(delta[d])
			want := due[d]
			if want == nil {
				want = new(big.Rat)
			}
			hi := new(big.Rat).Add(want, big.NewRat(1, 1000))
			lo := new(big.Rat).Sub(want, rat(slack))
			lo.Sub(lo, big.NewRat(1, 1000))
			if slack == 0 {
				lo, hi = want, want
			}
			if x.Cmp(lo) < 0 || x.Cmp(hi) > 0 {
				if c.Own.fact("reward/") {
					Fail("reward:"+o.K, "%s pays %s%s to %s, who is entitled to %s", o, x.FloatString(0), d, u, want.FloatString(4))
				}
				r.Count("pruned:reward")
				return false
			}
		}
		w.Bal[u] = got
		paid = paid.add(delta)
	}
	for _, p := range pay {
		if p.Op != 0 {
			left := p.A.clone()
			for d, v := range paid {
				left.add(d, rat(-v))
			}
			for d, v := range left {
				if v.Sign() == 0 {
					delete(left, d)
				}
			}
			w.Comm[p.Op] = left
			if len(left) == 0 {
				delete(w.Comm, p.Op)
			}
		}
	}
	if o.K != "fund" {
		w.Moved = w.Moved.sub(paid)
	}
	if len(pay) > 0 {
		r.Count("paid")
	}
	return true
}
