package main

import (
	"fmt"
	"strings"

	sdk "github.com/cosmos/cosmos-sdk/types"
)

// The liquid vesting world: the standard restaking world, plus a minter, a burner, a trusted remote
// depositor, tokens of this chain held by the IBC escrow, and a 30% insurance.
var lvBal = map[string]string{"u1": "4tka", "u2": "4tka", "oa": "2tka", "sa": "", "minter": "", "burner": "", "faucet": "60tka,60tkb", "remote": ""}

var (
	lvDenoms = []string{"tka", "tkb", "locked/tka", "locked/tkb", "ibc0", "lockedibc0"}
	ibc0     = ibcDenom(0, foreign)
)

func init() {
	lvDenoms[4], lvDenoms[5] = ibc0, "locked/"+ibc0
}

const roles = "|minter|burner|remote|channel-0"

func lvPrep(app *App, s *State) {
	ctx := s.Ctx()
	check(app.BankKeeper.SendCoins(ctx, addr("faucet"), account(ibcEsc), coins("30tka,30tkb")))
	m := rm(s)
	m.move("faucet", ibcEsc, amt("30tka,30tkb"))
	for _, c := range coins("30tka,30tkb") {
		app.TransferKeeper.SetTotalEscrowForDenom(ctx, c)
	}
}

// dep is an insurance deposit of returning tokens.
func dep(n int64, denom, to string) Op {
	return Op{K: "ibc", U: "remote", A: fmt.Sprintf("%dtransfer/%s/%s", n, ibcSrc, denom), S: "lvmod;ok;" + to}
}

func mint(to, a string) Op { return Op{K: "mint", U: "minter", S: to, A: a} }
func burn(of, a string) Op { return Op{K: "burn", U: "burner", S: of, A: a} }

func lvSetup(more ...Op) []Op {
	return append(append(stdSetup(), Op{K: "lvparams", U: "gov", S: "30000" + roles}), more...)
}

func lvConf(name string, depth int, own Own, setup, ops []Op) *RMConf {
	return &RMConf{Name: name, Bal: lvBal, Users: []string{"u1", "u2", "oa", "sa", "minter", "burner", "faucet", "remote"}, Denoms: lvDenoms, LV: true,
		Prep: lvPrep, Depth: depth, Own: own, Setup: setup, Ops: ops}
}

// coverage: every user's fund covers what he has restaked or is unbonding.
func coverage(r *Run, s *State) {
	m := rm(s)
	if m.LV.Raised {
		return
	}
	f := ObserveRM(s.App, s.Ctx(), m)
	active := map[string]Amt{}
	for k, v := range f {
		p := strings.Split(k, "/")
		switch p[0] {
		case "del":
			active[p[1]] = active[p[1]].add(onlyLocked(amt(v)))
		case "ubd":
			active[p[1]] = active[p[1]].add(onlyLocked(sumUbd(v)))
		}
	}
	for u, a := range active {
		need := m.LV.required(a)
		if have := amt(f["fund/"+u]); !have.gte(need) {
			Fail("coverage", "%s has %s restaked or unbonding, which requires an insurance of %s, but his fund holds %q", u, a, need, have)
		}
	}
}

// held: the module account holds at least the sum of the insurance funds.
func held(r *Run, s *State) {
	m := rm(s)
	f := ObserveRM(s.App, s.Ctx(), m)
	sum := Amt{}
	for k, v := range f {
		if strings.HasPrefix(k, "fund/") {
			sum = sum.add(amt(v))
		}
	}
	if have := amt(f["bal/"+lvMod]); !have.gte(sum) {
		Fail("held", "the insurance funds sum up to %s, but the module account holds %s", sum, have)
	}
}

// confined: locked tokens exist only in the hands of those who received them from the minter, in the
// escrow of restaking targets, or in the module account.
func confined(r *Run, s *State) {
	m := rm(s)
	ctx := s.Ctx()
	ok := map[string]bool{account(lvMod).String(): true, bech("u1"): true, bech("u2"): true}
	for kind, next := range map[string]uint32{"op": m.NextOp, "svc": m.NextSv, "pool": m.NextPl} {
		for id := uint32(1); id < next; id++ {
			ok[escrowAddr(kind, id).String()] = true
		}
	}
	s.App.BankKeeper.IterateAllBalances(ctx, func(a sdk.AccAddress, c sdk.Coin) bool {
		if isLocked(c.Denom) && c.IsPositive() && !ok[a.String()] {
			Fail("confined", "%s holds %s, although locked tokens cannot be transferred", a, c)
		}
		return false
	})
}

func init() {
	lvAssume := []string{noSlash, "a chain without other IBC middleware state: no rate limits, no packet fees"}
	register(&Property{
		ID: "C08", Title: "Burning locked tokens takes exactly what was asked, from the named user, once",
		Assumptions: lvAssume,
		Need:        []string{"burn:ok", "block", "del_op:ok", "und_op:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"bal/", "supply/", "burnq/", "ubd/", "del/", "tokens/", "shares/", "escrow/"}, Admit: []string{"burn"}, Halt: true}
			r.RM(lvConf("burn", r.Pick(5, 7), own,
				lvSetup(dep(4, "tka", "u1:3,u2:1"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u2", ID: 1, A: "2locked/tka"}),
				[]Op{
					burn("u1", "1locked/tka"), burn("u1", "4locked/tka"), burn("u1", "6locked/tka"), burn("u2", "3locked/tka"), burn("u2", "1locked/tka"),
					{K: "del_pool", U: "u1", A: "1locked/tka"}, {K: "del_op", U: "u1", ID: 1, A: "3locked/tka"}, {K: "del_svc", U: "u1", ID: 1, A: "2locked/tka"},
					{K: "und_pool", U: "u1", A: "1locked/tka"}, {K: "und_op", U: "u1", ID: 1, A: "2locked/tka"}, {K: "und_op", U: "u2", ID: 1, A: "1locked/tka"},
					{K: "rparams", U: "gov", ID: 4}, block(4), block(10), ticks(9500),
				}))
			r.RM(lvConf("burn several denoms", r.Pick(4, 6), own,
				lvSetup(dep(4, "tka", "u1:4"), dep(4, "tkb", "u1:4"), mint("u1", "5tka,5tkb"), mint("u2", "1tka,1tkb")),
				[]Op{
					burn("u1", "2locked/tka,2locked/tkb"), burn("u1", "4locked/tka,1locked/tkb"), burn("u1", "5locked/tka,5locked/tkb"), burn("u2", "1locked/tka,2locked/tkb"),
					burn("u1", "1locked/tka,1tka"), burn("u2", "1locked/tkb"),
					{K: "del_pool", U: "u1", A: "2locked/tka"}, {K: "del_pool", U: "u1", A: "2locked/tkb"}, {K: "del_op", U: "u1", ID: 1, A: "2locked/tka,1locked/tkb"}, {K: "del_svc", U: "u1", ID: 1, A: "1locked/tkb,1tka"},
					{K: "del_op", U: "u2", ID: 1, A: "1tka"},
					{K: "und_op", U: "u1", ID: 1, A: "1locked/tka,1locked/tkb"}, {K: "und_svc", U: "u1", ID: 1, A: "1locked/tkb"},
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "deactivate_svc", U: "sa", ID: 1}, {K: "delete_svc", U: "sa", ID: 1}, block(10),
				}))
		},
	})
	register(&Property{
		ID: "C21", Title: "Locked tokens are minted and burned only by their authorised minters and burners",
		Assumptions: lvAssume,
		Need:        []string{"mint:ok", "mint:rejected", "burn:ok", "burn:rejected", "lvparams:ok", "block"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"supply/", "bal/", "burnq/"}, Admit: []string{"mint", "burn", "lvparams"}, Halt: true}
			ops := []Op{
				mint("u1", "2tka"), mint("u2", "1tka,1tkb"), mint("oa", "1"+ibc0), mint("u1", "1locked/tka"), mint("u1", "0tka"), mint("u1", "-1tka"), mint("bonded", "1tka"), mint("op/1", "1tka"), mint("u1", ""),
				{K: "mint", U: "burner", S: "u1", A: "1tka"}, {K: "mint", U: "u1", S: "u1", A: "1tka"}, {K: "mint", U: "gov", S: "u1", A: "1tka"}, {K: "mint", U: "faucet", S: "u1", A: "1tka"},
				burn("u1", "1locked/tka"), burn("u2", "1locked/tka,1locked/tkb"), burn("u1", "1tka"), burn("u1", "1tka,1locked/tka"), burn("u1", "0locked/tka"), burn("u1", "-1locked/tka"), burn("u1", "9locked/tka"), burn("u1", ""),
				{K: "burn", U: "minter", S: "u1", A: "1locked/tka"}, {K: "burn", U: "u1", S: "u1", A: "1locked/tka"}, {K: "burn", U: "gov", S: "u1", A: "1locked/tka"}, {K: "burn", U: "faucet", S: "u2", A: "1locked/tka"},
				{K: "lvparams", U: "gov", S: "30000|faucet|faucet||"}, {K: "lvparams", U: "gov", S: "30000||||"}, {K: "lvparams", U: "gov", S: "30000|faucet,minter|burner,faucet|remote|channel-0"},
				{K: "lvparams", U: "minter", S: "30000|minter|minter||"}, {K: "lvparams", U: "oa", S: "30000|oa|oa||"},
				{K: "lvparams", U: "gov", S: "0" + roles}, {K: "lvparams", U: "gov", S: "100001" + roles}, {K: "lvparams", U: "gov", S: "100000" + roles}, {K: "lvparams", U: "gov", S: "30000|bad|||"},
				{K: "lvparams", U: "gov", S: "30000||bad||"}, {K: "lvparams", U: "gov", S: "30000|||bad|"}, {K: "lvparams", U: "gov", S: "30000||||x"},
				{K: "del_pool", U: "u1", A: "1locked/tka"}, {K: "und_pool", U: "u1", A: "1locked/tka"}, block(10),
			}
			r.RM(lvConf("mint and burn", r.Pick(6, 9), own, lvSetup(dep(4, "tka", "u1:3,u2:1"), mint("u1", "2tka")), ops))
		},
	})
	register(&Property{
		ID: "C22", Title: "Locked tokens cannot be transferred",
		Assumptions: append(lvAssume, "holders may hand locked tokens to the module account or to the escrow of a restaking target, which loses them but transfers them to nobody"),
		Need:        []string{"send:ok", "send:rejected", "msend:ok", "msend:rejected", "fundcp:rejected", "del_op:ok", "block"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"bal/", "escrow/"}, Admit: []string{"send", "msend", "fundcp", "vest", "ibc", "register_op", "create_svc"}}
			c := lvConf("transfers", r.Pick(5, 6), own,
				lvSetup(dep(4, "tka", "u1:3,u2:1"), mint("u1", "4tka"), mint("u2", "1tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}),
				[]Op{
					{K: "send", U: "u1", S: "u2", A: "1locked/tka"}, {K: "send", U: "u1", S: "u2", A: "1tka"}, {K: "send", U: "u1", S: "u2", A: "1locked/tka,1tka"}, {K: "msend", U: "u1", S: "u2", A: "1locked/tka,1tka"},
					{K: "msend", U: "u1", S: "u2", A: "1locked/tka"}, {K: "msend", U: "u1", S: "oa", A: "1tka"}, {K: "send", U: "u2", S: "out", A: "1locked/tka"},
					{K: "send", U: "u1", S: "op/1", A: "1locked/tka"}, {K: "send", U: "u1", S: "svc/1", A: "1locked/tka"}, {K: "send", U: "u1", S: "pool/1", A: "1locked/tka"}, {K: "send", U: "u1", S: "op/7", A: "1locked/tka"},
					{K: "send", U: "u1", S: "pool/7", A: "1locked/tka"}, {K: "send", U: "u1", S: "svc/7", A: "1locked/tka"}, {K: "send", U: "u1", S: "lvmod", A: "1locked/tka"}, {K: "send", U: "u1", S: "u1", A: "1locked/tka"},
					{K: "fundcp", U: "u1", S: "community", A: "1locked/tka"}, {K: "fundcp", U: "u1", S: "community", A: "1tka"}, {K: "vest", U: "u1", S: "out", A: "1locked/tka"},
					{K: "ibc", U: "remote", A: "1transfer/" + ibcSrc + "/tka", S: "u2;other;"}, {K: "ibc", U: "remote", A: "1transfer/" + ibcSrc + "/locked/tka", S: "u2;other;"},
					{K: "oparams", U: "gov", ID: 15, A: "1locked/tka"}, {K: "register_op", U: "u1", S: "x", A: "1locked/tka"}, {K: "sparams", U: "gov", A: "1locked/tka"}, {K: "create_svc", U: "u1", S: "x", A: "1locked/tka"},
					{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}, {K: "del_svc", U: "u1", ID: 1, A: "1locked/tka,1tka"}, {K: "und_op", U: "u1", ID: 1, A: "1locked/tka"}, {K: "und_pool", U: "u1", A: "1locked/tka"},
					{K: "deactivate_op", U: "oa", ID: 1}, {K: "delete_op", U: "oa", ID: 1}, block(15),
				})
			c.Check = confined
			r.RM(c)
			// transfers of several coins, some of which sort before and some after the locked ones
			mixed := lvConf("transfers of several coins", r.Pick(3, 4), own,
				lvSetup(dep(4, "tka", "u1:4"), mint("u1", "2tka"), mint("u1", "2tkb"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}),
				nil)
			mixed.Bal = cloneMap(lvBal)
			mixed.Bal["u1"], mixed.Bal["u2"] = "3abc,3tka", "3abc"
			mixed.Denoms = append([]string{"abc"}, lvDenoms...)
			for _, a := range []string{"1abc", "1abc,1locked/tka", "1abc,1locked/tkb,1tka", "1locked/tka,1locked/tkb", "1abc,1tka"} {
				for _, to := range []string{"u2", "oa", "op/1", "pool/1", "svc/1", "lvmod"} {
					mixed.Ops = append(mixed.Ops, Op{K: "send", U: "u1", S: to, A: a})
				}
				mixed.Ops = append(mixed.Ops, Op{K: "msend", U: "u1", S: "u2", A: a}, Op{K: "fundcp", U: "u1", S: "community", A: a})
				if strings.Contains(a, "locked") {
					mixed.Ops = append(mixed.Ops, Op{K: "vest", U: "u1", S: "out", A: a})
				}
			}
			mixed.Ops = append(mixed.Ops, Op{K: "send", U: "u2", S: "u1", A: "1abc"}, Op{K: "del_svc", U: "u1", ID: 1, A: "1abc,1locked/tka"}, Op{K: "und_pool", U: "u1", A: "1locked/tka"}, block(15))
			mixed.Check = confined
			r.RM(mixed)
		},
	})
	register(&Property{
		ID: "C23", Title: "Restaked locked tokens are covered by the insurance fund",
		Assumptions: lvAssume,
		Need:        []string{"del_op:ok", "del_op:rejected", "del_pool:rejected", "del_svc:rejected", "withdraw_fund:ok", "withdraw_fund:rejected", "burn:ok", "block"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"fund/"}, Admit: []string{"del_pool", "del_op", "del_svc", "withdraw_fund"}}
			c := lvConf("coverage", r.Pick(5, 7), own,
				lvSetup(dep(2, "tka", "u1:2"), mint("u1", "9tka"), mint("u2", "4tka")),
				[]Op{
					{K: "del_pool", U: "u1", A: "3locked/tka"}, {K: "del_pool", U: "u1", A: "4locked/tka"}, {K: "del_op", U: "u1", ID: 1, A: "3locked/tka,1tka"}, {K: "del_op", U: "u1", ID: 1, A: "7locked/tka"}, {K: "del_svc", U: "u1", ID: 1, A: "3locked/tka"},
					{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}, {K: "del_svc", U: "u2", ID: 1, A: "1locked/tka"}, {K: "del_op", U: "u2", ID: 1, A: "1tka"},
					{K: "und_pool", U: "u1", A: "3locked/tka"}, {K: "und_op", U: "u1", ID: 1, A: "3locked/tka"}, {K: "und_svc", U: "u1", ID: 1, A: "2locked/tka"},
					{K: "withdraw_fund", U: "u1", A: "1tka"}, {K: "withdraw_fund", U: "u1", A: "2tka"}, {K: "withdraw_fund", U: "u2", A: "1tka"}, dep(1, "tka", "u1:1"), dep(1, "tka", "u2:1"),
					burn("u1", "9locked/tka"), burn("u1", "7locked/tka"), {K: "lvparams", U: "gov", S: "20000" + roles}, {K: "lvparams", U: "gov", S: "50000" + roles}, block(10),
				})
			c.Check = coverage
			r.RM(c)
			d := lvConf("coverage of several denoms", r.Pick(5, 7), own,
				lvSetup(dep(1, "tka", "u1:1"), dep(1, "tkb", "u1:1"), Op{K: "ibc", U: "remote", A: "2" + foreign, S: "lvmod;ok;u1:1,u2:1"}, mint("u1", "9tka,9tkb,9"+ibc0), mint("u2", "9tka,9"+ibc0)),
				[]Op{
					{K: "del_pool", U: "u1", A: "3locked/tka"}, {K: "del_pool", U: "u1", A: "1locked/tkb"}, {K: "del_pool", U: "u1", A: "1locked/" + ibc0}, {K: "del_op", U: "u1", ID: 1, A: "1locked/tka,3locked/tkb"}, {K: "del_op", U: "u1", ID: 1, A: "1locked/tkb,1tka"},
					{K: "del_svc", U: "u1", ID: 1, A: "3locked/" + ibc0 + ",1locked/tka"}, {K: "del_svc", U: "u2", ID: 1, A: "3locked/" + ibc0}, {K: "del_svc", U: "u2", ID: 1, A: "3locked/" + ibc0 + ",1locked/tka"},
					{K: "und_op", U: "u1", ID: 1, A: "1locked/tkb"}, {K: "und_svc", U: "u1", ID: 1, A: "1locked/tka"},
					{K: "withdraw_fund", U: "u1", A: "1tkb"}, {K: "withdraw_fund", U: "u1", A: "1tka,1tkb"}, {K: "withdraw_fund", U: "u2", A: "1" + ibc0}, {K: "withdraw_fund", U: "u1", A: "1" + ibc0},
					dep(1, "tkb", "u1:1"), burn("u1", "9locked/tkb"), {K: "lvparams", U: "gov", S: "20000" + roles}, {K: "lvparams", U: "gov", S: "33333" + roles}, block(10),
				})
			d.Check = coverage
			r.RM(d)
		},
	})
	register(&Property{
		ID: "C24", Title: "Insurance deposits are credited exactly, and only from trusted sources",
		Assumptions: lvAssume,
		Need:        []string{"ibc:ok", "ibc:rejected", "lvparams:ok"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"fund/", "bal/"}, Admit: []string{"ibc"}}
			var ops []Op
			ops = append(ops, Op{K: "lvparams", U: "gov", S: "30000|minter|burner|remote,faucet|channel-0,channel-1"}, Op{K: "lvparams", U: "gov", S: "30000|minter|burner|faucet|channel-1"},
				Op{K: "lvparams", U: "gov", S: "30000|minter|burner||"})
			full := r.Thorough()
			for _, den := range []string{foreign, "transfer/" + ibcSrc + "/tka", "locked/tka", "transfer/channel-9/tka"} {
				for _, from := range []string{"remote", "faucet"} {
					for _, ch := range []uint32{0, 1} {
						for _, recv := range []string{lvMod, "u1"} {
							for _, deps := range []string{"u1:2", "u1:1,u2:1", "u1:1,u1:1", "u1:1", "u1:3", "", "u1:2,u2:0", "u1:3,u2:-1", "bad:2", "u1:2,u2:nil"} {
								odd := (den != foreign) || from != "remote" || ch != 0 || recv != lvMod
								if !full && odd && deps != "u1:1,u2:1" && deps != "u1:3" {
									continue
								}
								ops = append(ops, Op{K: "ibc", U: from, ID: ch, A: "2" + den, S: recv + ";ok;" + deps})
							}
						}
					}
				}
				for _, kind := range []string{"other", "malformed", "string"} {
					ops = append(ops, Op{K: "ibc", U: "remote", A: "2" + den, S: lvMod + ";" + kind + ";u1:2"}, Op{K: "ibc", U: "remote", A: "2" + den, S: "u1;" + kind + ";u1:2"})
				}
				ops = append(ops, Op{K: "ibc", U: "remote", A: "0" + den, S: lvMod + ";ok;u1:0"}, Op{K: "ibc", U: "remote", A: "40" + den, S: lvMod + ";ok;u1:40"})
			}
			ops = append(ops, Op{K: "withdraw_fund", U: "u1", A: "1tka"})
			c := lvConf("deposits", r.Pick(3, 4), own, lvSetup(), ops)
			c.Denoms = append(append([]string{}, lvDenoms...), ibcDenom(1, foreign), ibcDenom(0, "locked/tka"), ibcDenom(1, "locked/tka"), ibcDenom(0, "transfer/channel-9/tka"), ibcDenom(1, "transfer/channel-9/tka"), ibcDenom(1, "transfer/"+ibcSrc+"/tka"))
			r.RM(c)
		},
	})
	register(&Property{
		ID: "C25", Title: "Insurance funds are fully held, and reported and paid back exactly",
		Assumptions: lvAssume,
		Need:        []string{"ibc:ok", "withdraw_fund:ok", "withdraw_fund:rejected", "burn:ok", "mint:ok", "block"},
		Run: func(r *Run) {
			own := Own{Facts: []string{"fund/", "bal/"}, Admit: []string{"withdraw_fund"}}
			c := lvConf("funds", r.Pick(5, 7), own,
				lvSetup(dep(3, "tka", "u1:2,u2:1"), mint("u1", "6tka"), mint("u2", "3tka")),
				[]Op{
					dep(1, "tka", "u1:1"), dep(2, "tkb", "u1:1,u2:1"), {K: "ibc", U: "remote", A: "1" + foreign, S: "lvmod;ok;u1:1"}, {K: "ibc", U: "remote", A: "1" + foreign, S: "lvmod;other;"},
					{K: "withdraw_fund", U: "u1", A: "1tka"}, {K: "withdraw_fund", U: "u1", A: "2tka"}, {K: "withdraw_fund", U: "u1", A: "1tka,1tkb"}, {K: "withdraw_fund", U: "u1", A: "1" + ibc0},
					{K: "withdraw_fund", U: "u2", A: "1tka"}, {K: "withdraw_fund", U: "u2", A: "2tka"}, {K: "withdraw_fund", U: "oa", A: "1tka"}, {K: "withdraw_fund", U: "u2", A: "-1tka"}, {K: "withdraw_fund", U: "u2", A: "0tka"}, {K: "withdraw_fund", U: "u1", A: ""},
					{K: "send", U: "u1", S: "lvmod", A: "1tka"}, {K: "send", U: "u2", S: "lvmod", A: "1locked/tka"}, mint("u1", "1tka"), burn("u1", "2locked/tka"), burn("u2", "3locked/tka"),
					{K: "del_pool", U: "u1", A: "2locked/tka"}, {K: "del_op", U: "u2", ID: 1, A: "3locked/tka"}, {K: "und_op", U: "u2", ID: 1, A: "2locked/tka"}, {K: "lvparams", U: "gov", S: "70000" + roles}, block(10),
				})
			c.Check = func(r *Run, s *State) { held(r, s); lvQueries(s) }
			r.RM(c)
		},
	})
}
