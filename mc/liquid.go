package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	vestingtypes "github.com/cosmos/cosmos-sdk/x/auth/vesting/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	clienttypes "github.com/cosmos/ibc-go/v8/modules/core/02-client/types"
	channeltypes "github.com/cosmos/ibc-go/v8/modules/core/04-channel/types"

	lvkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	lvtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
)

// LV is the reference model of liquid vesting, on top of the restaking model.
type LV struct {
	Pct       int64 // insurance percentage, thousandths of a percent
	Minters   string
	Burners   string
	Delegates string
	Channels  string
	Fund      map[string]Amt
	Queue     []mBurn
	Supply    Amt  // locked tokens minted and not burned
	Raised    bool // the insurance percentage was raised: stakes restaked before need not be covered
}

type mBurn struct {
	User string
	At   int64
	A    Amt
}

const (
	lvMod    = "lvmod"
	ibcEsc   = "ibcesc"
	ibcSrc   = "channel-7" // the counterparty's channel
	foreign  = "uatom"     // native token of the counterparty
	outsider = "out"
)

// ibcDenom is the denom of the counterparty's tokens which arrived through a channel of this chain.
func ibcDenom(ch uint32, base string) string {
	return transfertypes.ParseDenomTrace(fmt.Sprintf("transfer/channel-%d/%s", ch, base)).IBCDenom()
}

func NewLV() *LV { return &LV{Pct: 2000, Fund: map[string]Amt{}, Supply: Amt{}} }

func (l *LV) clone() *LV {
	if l == nil {
		return nil
	}
	n := *l
	n.Fund = cloneMap(l.Fund)
	n.Queue = append([]mBurn(nil), l.Queue...)
	return &n
}

func isLocked(d string) bool { return strings.HasPrefix(d, "locked/") }

// active is what a user has restaked or is unbonding, in locked tokens.
func (m *RM) activeLocked(u string) Amt {
	out := Amt{}
	for k, a := range m.Del {
		if k.User == u {
			out = out.add(onlyLocked(a))
		}
	}
	for _, x := range m.Ubd {
		if x.User == u {
			out = out.add(onlyLocked(x.A))
		}
	}
	return out
}

func onlyLocked(a Amt) Amt {
	out := Amt{}
	for d, n := range a {
		if isLocked(d) {
			out[d] = n
		}
	}
	return out
}

// required is the insurance that covers some locked tokens: the percentage of each, rounded up.
func (l *LV) required(a Amt) Amt {
	out := Amt{}
	for d, n := range a {
		q := n * l.Pct
		r := q / 100000
		if q%100000 != 0 {
			r++
		}
		if r > 0 {
			out[strings.TrimPrefix(d, "locked/")] = r
		}
	}
	return out
}

// covered: the fund of a user, changed by delta, covers his active locked tokens plus more.
func (m *RM) covered(u string, delta, more Amt) bool {
	return m.LV.Fund[u].add(delta).gte(m.LV.required(m.activeLocked(u).add(more)))
}

// account maps a name of the scenario to an address.
func account(name string) sdk.AccAddress {
	p := strings.SplitN(name, "/", 2)
	if len(p) == 2 {
		n, _ := strconv.Atoi(p[1])
		return escrowAddr(p[0], uint32(n))
	}
	switch name {
	case lvMod:
		return moduleAddr("liquidvesting")
	case ibcEsc:
		return transfertypes.GetEscrowAddress("transfer", "channel-0")
	case "bonded":
		return moduleAddr("bonded_tokens_pool")
	}
	return addr(name)
}

func lvParams(s string) lvtypes.Params {
	pct, _ := strconv.ParseInt(field(s, 0), 10, 64)
	addrs := func(s string) (out []string) {
		for _, n := range splitList(s) {
			if n == "bad" {
				out = append(out, "notanaddress")
			} else {
				out = append(out, bech(n))
			}
		}
		return
	}
	return lvtypes.NewParams(math.LegacyNewDecWithPrec(pct, 3), addrs(field(s, 2)), addrs(field(s, 1)), addrs(field(s, 3)), splitList(field(s, 4)))
}

func (o Op) lvMsg() sdk.Msg {
	u := who(o.U)
	a := amt(o.A).coins()
	switch o.K {
	case "mint":
		return lvtypes.NewMsgMintLockedRepresentation(u, account(o.S).String(), a)
	case "burn":
		return lvtypes.NewMsgBurnLockedRepresentation(u, account(o.S).String(), a)
	case "withdraw_fund":
		return lvtypes.NewMsgWithdrawInsuranceFund(u, a)
	case "lvparams":
		return lvtypes.NewMsgUpdateParams(u, lvParams(o.S))
	case "send":
		return &banktypes.MsgSend{FromAddress: u, ToAddress: account(o.S).String(), Amount: a}
	case "msend":
		return &banktypes.MsgMultiSend{Inputs: []banktypes.Input{{Address: u, Coins: a}}, Outputs: []banktypes.Output{{Address: account(o.S).String(), Coins: a}}}
	case "fundcp":
		return distrtypes.NewMsgFundCommunityPool(a, u)
	case "vest":
		return vestingtypes.NewMsgCreateVestingAccount(addr(o.U), account(o.S), a, genTime.Unix()+1_000_000, true)
	case "out":
		return transfertypes.NewMsgTransfer("transfer", "channel-0", a[0], u, "cosmos1remote", clienttypes.ZeroHeight(), uint64(genTime.Add(24*time.Hour).UnixNano()), "")
	}
	return nil
}

// deposit is one insurance deposit of an ICS20 memo.
type mDeposit struct {
	User string
	N    int64
	Nil  bool
}

// ibcMemo renders the memo of an `ibc` op: "receiver;kind;alice:10,bob:5".
func (o Op) ibcMemo() (memo string, deps []mDeposit, kind, recv string) {
	p := strings.Split(o.S, ";")
	recv, kind = p[0], p[1]
	for _, d := range splitList(p[2]) {
		x := strings.SplitN(d, ":", 2)
		n, err := strconv.ParseInt(x[1], 10, 64)
		deps = append(deps, mDeposit{x[0], n, err != nil})
	}
	type jd map[string]any
	var list []jd
	for _, d := range deps {
		e := jd{"depositor": who(d.User)}
		if !d.Nil {
			e["amount"] = fmt.Sprint(d.N)
		}
		list = append(list, e)
	}
	if list == nil {
		list = []jd{}
	}
	var v any
	switch kind {
	case "ok":
		v = jd{"liquidvesting": jd{"amounts": list}}
	case "other":
		return "", deps, kind, recv
	case "malformed":
		v = jd{"liquidvesting": jd{"amounts": "x"}}
	case "string":
		v = jd{"liquidvesting": "x"}
	}
	bz, _ := json.Marshal(v)
	return string(bz), deps, kind, recv
}

// deliverIBC hands an ICS20 packet to the transfer stack the way the channel keeper does: state is
// only kept when the acknowledgement is a success.
func (o Op) deliverIBC(s *State) Outcome {
	memo, _, _, recv := o.ibcMemo()
	a := amt(o.A)
	d := sortedKeys(a)[0]
	data := transfertypes.NewFungibleTokenPacketData(d, fmt.Sprint(a[d]), who(o.U), account(recv).String(), memo)
	pkt := channeltypes.NewPacket(data.GetBytes(), 1, "transfer", ibcSrc, "transfer", fmt.Sprintf("channel-%d", o.ID),
		clienttypes.ZeroHeight(), uint64(genTime.Add(24*time.Hour).UnixNano()))
	ctx := s.Ctx()
	route, ok := s.App.IBCKeeper.Router.GetRoute("transfer")
	if !ok {
		panic("no transfer route")
	}
	cctx, write := ctx.CacheContext()
	var out Outcome
	out.Err, out.Panic = catch(func() error {
		ack := route.OnRecvPacket(cctx, pkt, addr("relayer"))
		if ack == nil || ack.Success() {
			write()
			return nil
		}
		return fmt.Errorf("%s", ack.Acknowledgement())
	})
	return out
}

// target: the account is the escrow of an existing restaking target.
func (m *RM) target(name string) bool {
	p := strings.SplitN(name, "/", 2)
	if len(p) != 2 {
		return false
	}
	n, _ := strconv.Atoi(p[1])
	switch p[0] {
	case "op":
		return m.Ops[uint32(n)] != nil
	case "svc":
		return m.Svcs[uint32(n)] != nil
	}
	return m.hasPool(uint32(n))
}

// maySend: the restrictions on moving coins between two accounts.
func (m *RM) maySend(from, to string, a Amt) bool {
	if from == lvMod || to == lvMod {
		return true
	}
	if m.target(from) && m.target(to) {
		return false
	}
	for d := range a {
		if isLocked(d) && !m.target(from) && !m.target(to) {
			return false
		}
	}
	return true
}

func (m *RM) applyLV(o Op) (ok, handled bool) {
	l := m.LV
	a := amt(o.A)
	switch o.K {
	case "lvparams":
		p := lvParams(o.S)
		pct, _ := strconv.ParseInt(field(o.S, 0), 10, 64)
		if o.U != "gov" || p.Validate() != nil || pct <= 0 || pct > 100000 {
			return false, true
		}
		if pct > l.Pct {
			l.Raised = true
		}
		l.Pct, l.Minters, l.Burners, l.Delegates, l.Channels = pct, field(o.S, 1), field(o.S, 2), field(o.S, 3), field(o.S, 4)
		return true, true
	case "mint":
		if !in(splitList(l.Minters), o.U) || !a.positive() || o.S == "bonded" {
			return false, true
		}
		out := Amt{}
		for d, n := range a {
			if isLocked(d) {
				return false, true
			}
			out["locked/"+d] = n
		}
		l.Supply = l.Supply.add(out)
		m.Bal[o.S] = m.Bal[o.S].add(out)
		return true, true
	case "burn":
		if !in(splitList(l.Burners), o.U) || !a.positive() {
			return false, true
		}
		liquid, unbond := Amt{}, Amt{}
		for d, n := range a {
			if !isLocked(d) {
				return false, true
			}
			x := min(n, m.Bal[o.S][d])
			if x > 0 {
				liquid[d] = x
			}
			if n > x {
				unbond[d] = n - x
			}
		}
		// take the rest out of the delegations: pools, services, operators, by id
		rest := unbond
		var keys []delKey
		for k := range m.Del {
			if k.User == o.S {
				keys = append(keys, k)
			}
		}
		order := map[string]int{"pool": 0, "svc": 1, "op": 2}
		sort.Slice(keys, func(i, j int) bool {
			if order[keys[i].Kind] != order[keys[j].Kind] {
				return order[keys[i].Kind] < order[keys[j].Kind]
			}
			return keys[i].ID < keys[j].ID
		})
		take := map[delKey]Amt{}
		for _, k := range keys {
			t := Amt{}
			for d, n := range rest {
				if x := min(n, m.Del[k][d]); x > 0 {
					t[d] = x
				}
			}
			if len(t) > 0 {
				take[k] = t
				rest = rest.sub(t)
			}
		}
		if !rest.zero() {
			return false, true
		}
		for _, k := range keys {
			if t := take[k]; t != nil {
				if !m.undelegate(k.User, k.Kind, k.ID, t) {
					panic("model: burn")
				}
			}
		}
		if !unbond.zero() {
			l.Queue = append(l.Queue, mBurn{o.S, m.Now + m.UnbondTime, unbond})
		}
		m.Bal[o.S] = m.Bal[o.S].sub(liquid)
		l.Supply = l.Supply.sub(liquid)
		return true, true
	case "withdraw_fund":
		for _, n := range a {
			if n <= 0 {
				return false, true
			}
		}
		if !l.Fund[o.U].gte(a) || !m.covered(o.U, a.neg(), nil) {
			return false, true
		}
		if !m.move(lvMod, o.U, a) {
			panic("model: the insurance funds are not held")
		}
		l.Fund[o.U] = l.Fund[o.U].sub(a)
		return true, true
	case "send", "msend":
		if !a.positive() || o.S == "bonded" || !m.maySend(o.U, o.S, a) {
			return false, true
		}
		return m.move(o.U, o.S, a), true
	case "fundcp", "vest", "out":
		if !a.positive() || !m.maySend(o.U, o.S, a) {
			return false, true
		}
		if o.K != "fundcp" {
			return false, true // existing account; no such channel
		}
		return m.move(o.U, "community", a), true
	case "ibc":
		_, deps, kind, recv := o.ibcMemo()
		d := sortedKeys(a)[0]
		n := a[d]
		ret := strings.HasPrefix(d, "transfer/"+ibcSrc+"/")
		if n <= 0 || recv == "bonded" {
			return false, true
		}
		var local string
		switch {
		case ret:
			local = strings.TrimPrefix(d, "transfer/"+ibcSrc+"/")
			if o.ID != 0 || m.Bal[ibcEsc][local] < n {
				return false, true // nothing escrowed for this channel
			}
		default:
			local = ibcDenom(o.ID, d)
		}
		if kind != "other" {
			if kind != "ok" || !in(splitList(l.Delegates), o.U) || !in(splitList(l.Channels), fmt.Sprintf("channel-%d", o.ID)) || recv != lvMod {
				return false, true
			}
			var sum int64
			for _, x := range deps {
				if x.Nil || x.N < 0 || x.User == "bad" {
					return false, true
				}
				sum += x.N
			}
			if sum != n {
				return false, true
			}
		}
		if isLocked(local) && recv != lvMod && !m.target(recv) {
			return false, true
		}
		if ret {
			m.Bal[ibcEsc] = m.Bal[ibcEsc].sub(Amt{local: n})
		}
		m.Bal[recv] = m.Bal[recv].add(Amt{local: n})
		if kind == "ok" {
			for _, x := range deps {
				l.Fund[x.User] = l.Fund[x.User].add(Amt{local: x.N})
			}
		}
		return true, true
	}
	return false, false
}

// endBlock burns what is due, after the undelegations have been paid.
func (l *LV) endBlock(m *RM) {
	var rest []mBurn
	for _, b := range l.Queue {
		if b.At > m.Now {
			rest = append(rest, b)
			continue
		}
		if !m.Bal[b.User].gte(b.A) {
			panic("model: the coins to burn are gone")
		}
		m.Bal[b.User] = m.Bal[b.User].sub(b.A)
		l.Supply = l.Supply.sub(b.A)
	}
	l.Queue = rest
}

func (l *LV) key() string { return fmt.Sprint(l.Raised) }

func (l *LV) facts(m *RM) Facts {
	f := Facts{}
	f.set("bal/"+lvMod, m.Bal[lvMod].String())
	f.set("bal/"+ibcEsc, m.Bal[ibcEsc].String())
	for u, a := range l.Fund {
		f.set("fund/"+u, a.String())
	}
	f.set("supply/locked", onlyLocked(l.Supply).String())
	q := map[string]Amt{}
	for _, b := range l.Queue {
		k := fmt.Sprintf("%s@%d", b.User, b.At)
		q[k] = q[k].add(b.A)
	}
	for k, a := range q {
		f.set("burnq/"+k, a.String())
	}
	f["params/lv"] = fmt.Sprintf("%d|%s|%s|%s|%s", l.Pct, l.Minters, l.Burners, l.Delegates, l.Channels)
	return f
}

func (l *LV) observe(app *App, ctx sdk.Context, m *RM) Facts {
	f := Facts{}
	nm := nameMap(append([]string{"minter", "burner", "remote"}, m.Users...))
	f.set("bal/"+lvMod, app.balance(ctx, account(lvMod), m.Denoms))
	f.set("bal/"+ibcEsc, app.balance(ctx, account(ibcEsc), m.Denoms))
	funds, err := app.LiquidVestingKeeper.GetAllUsersInsuranceFundsEntries(ctx)
	check(err)
	for _, e := range funds {
		f.set("fund/"+nm.of(e.UserAddress), amtOf(e.Balance).String())
	}
	sup := Amt{}
	for _, d := range m.Denoms {
		if isLocked(d) {
			if n := app.BankKeeper.GetSupply(ctx, d).Amount.Int64(); n != 0 {
				sup[d] = n
			}
		}
	}
	f.set("supply/locked", sup.String())
	q := map[string]Amt{}
	for _, b := range app.LiquidVestingKeeper.GetAllBurnCoins(ctx) {
		k := fmt.Sprintf("%s@%d", nm.of(b.DelegatorAddress), b.CompletionTime.UnixMilli())
		q[k] = q[k].add(amtOf(b.Amount))
	}
	for k, a := range q {
		f.set("burnq/"+k, a.String())
	}
	p, err := app.LiquidVestingKeeper.GetParams(ctx)
	check(err)
	f["params/lv"] = renderLVParams(nm, p)
	return f
}

func renderLVParams(nm names, p lvtypes.Params) string {
	list := func(l []string) string {
		var out []string
		for _, x := range l {
			out = append(out, nm.of(x))
		}
		return strings.Join(out, ",")
	}
	return fmt.Sprintf("%d|%s|%s|%s|%s", p.InsurancePercentage.MulInt64(1000).TruncateInt64(), list(p.Minters), list(p.Burners), list(p.TrustedDelegates), strings.Join(p.AllowedChannels, ","))
}

// lvQueries compares every query of the module with the model.
func lvQueries(s *State) {
	m := rm(s)
	l := m.LV
	ctx := s.Probe()
	q := lvkeeper.NewQuerier(s.App.LiquidVestingKeeper)
	nm := nameMap(append([]string{"minter", "burner", "remote"}, m.Users...))
	used := func(u string) Amt {
		out := Amt{}
		for d, n := range l.required(m.activeLocked(u)) {
			if x := min(n, l.Fund[u][d]); x > 0 {
				out[d] = x
			}
		}
		return out
	}
	var all []string
	for _, u := range m.Users {
		want := fmt.Sprintf("%s used %s", l.Fund[u], used(u))
		expectOne("UserInsuranceFund", want, func() (string, error) {
			x, err := q.UserInsuranceFund(ctx, lvtypes.NewQueryUserInsuranceFundRequest(bech(u)))
			if err != nil {
				return "", err
			}
			return fmt.Sprintf("%s used %s", amtOf(x.Balance), amtOf(x.Used)), nil
		})
		if !l.Fund[u].zero() {
			all = append(all, u+":"+want)
		}
		can := Amt{}
		for d, n := range l.Fund[u] {
			if x := n * 100000 / l.Pct; x > 0 {
				can["locked/"+d] = x
			}
		}
		expectOne("UserRestakableAssets", can.String()+".", func() (string, error) {
			x, err := q.UserRestakableAssets(ctx, lvtypes.NewQueryUserRestakableAssetsRequest(bech(u)))
			if err != nil {
				return "", err
			}
			return amtOf(x.Amount).String() + ".", nil
		})
	}
	expectPages("UserInsuranceFunds", all, func(p *pageRequest) (out []string, _ *pageResponse, _ error) {
		x, err := q.UserInsuranceFunds(ctx, lvtypes.NewQueryUserInsuranceFundsRequest(p))
		if err != nil {
			return nil, nil, err
		}
		for _, e := range x.InsuranceFunds {
			if !e.Balance.IsZero() {
				out = append(out, fmt.Sprintf("%s:%s used %s", nm.of(e.UserAddress), amtOf(e.Balance), amtOf(e.Used)))
			}
		}
		return out, x.Pagination, nil
	})
	expectOne("InsuranceFund", m.Bal[lvMod].String()+".", func() (string, error) {
		x, err := q.InsuranceFund(ctx, lvtypes.NewQueryInsuranceFundRequest())
		if err != nil {
			return "", err
		}
		a := Amt{}
		for d, n := range amtOf(x.Amount) {
			if in(m.Denoms, d) {
				a[d] = n
			}
		}
		return a.String() + ".", nil
	})
	expectOne("Params", l.facts(m)["params/lv"], func() (string, error) {
		x, err := q.Params(ctx, lvtypes.NewQueryParamsRequest())
		if err != nil {
			return "", err
		}
		return renderLVParams(nm, x.Params), nil
	})
}
