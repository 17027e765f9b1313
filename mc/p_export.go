package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"regexp"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	sdked25519 "github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	servertypes "github.com/cosmos/cosmos-sdk/server/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
)

// export is what the export command writes.
func (n *Node) export(zero bool, mods ...string) servertypes.ExportedApp {
	return n.exportKeeping(zero, nil, mods...)
}

// exportKeeping jails all the validators but the given ones.
func (n *Node) exportKeeping(zero bool, keep []string, mods ...string) servertypes.ExportedApp {
	out, err := n.ExportAppStateAndValidators(zero, keep, mods)
	if err != nil {
		Fail("export:error", "the state is not exported: %v", err)
	}
	return out
}

// NewNodeFrom starts a chain from an exported state, which says how it goes on.
func NewNodeFrom(x servertypes.ExportedApp, t time.Time) *Node {
	dir, err := os.MkdirTemp("", "mc-app-")
	check(err)
	n := &Node{db: dbm.NewMemDB(), dir: dir, t: t, h: x.Height - 1, oracle: oracleconfig.NewDefaultAppConfig()}
	if x.Height == 0 {
		n.h = 0
	}
	n.start()
	var vals []abci.ValidatorUpdate
	for _, v := range x.Validators {
		vals = append(vals, abci.Ed25519ValidatorUpdate(v.PubKey.Bytes(), v.Power))
	}
	cp := x.ConsensusParams
	if _, err := n.InitChain(&abci.RequestInitChain{Time: t, ChainId: chainID, ConsensusParams: &cp, Validators: vals, AppStateBytes: x.AppState, InitialHeight: n.h + 1}); err != nil {
		Fail("export:init", "no chain starts from the exported state: %v", err)
	}
	return n
}

// exportCtx is the genesis state of every module.
func (n *Node) exportCtx(ctx sdk.Context) map[string]json.RawMessage {
	out := map[string]json.RawMessage{}
	mm := n.manager()
	for _, m := range mm.OrderExportGenesis {
		c, _ := ctx.CacheContext()
		switch x := mm.Modules[m].(type) {
		case module.HasGenesis:
			out[m] = x.ExportGenesis(c, n.AppCodec())
		case module.HasABCIGenesis:
			out[m] = x.ExportGenesis(c, n.AppCodec())
		}
	}
	return out
}

var reHeights = regexp.MustCompile(`"(creation_height|height)":"\d+"`)

// exports: a chain which starts from what a chain exports behaves as that chain does.
func (w *nodeWorld) exports(r *Run, depth int, zero bool) {
	name := w.name + ": export"
	if zero {
		name += " for height zero"
	}
	r.ForAll(name, power(len(w.ops), depth), func(i int) string { return fmt.Sprint(w.history(i, depth)) + " and any operation" }, func(i int) {
		a := NewNode(w.gen, w.t)
		defer a.Close()
		for _, o := range w.history(i, depth) {
			a.Block(o.took(), w.txs(a, o))
		}
		x := a.export(zero)
		if y := a.export(zero); !bytes.Equal(x.AppState, y.AppState) {
			var g, h map[string]json.RawMessage
			check(json.Unmarshal(x.AppState, &g))
			check(json.Unmarshal(y.AppState, &h))
			for m := range g {
				if !bytes.Equal(g[m], h[m]) {
					Fail("export:again:"+m, "exported a second time, the state of %s is\n   %s\ninstead of\n   %s", m, h[m], g[m])
				}
			}
		}
		var whole map[string]json.RawMessage
		check(json.Unmarshal(x.AppState, &whole))
		for _, m := range ourModules {
			var one map[string]json.RawMessage
			check(json.Unmarshal(a.export(zero, m).AppState, &one))
			if !bytes.Equal(one[m], whole[m]) || len(one) != 1 {
				Fail("export:one:"+m, "the export of %s alone differs from its export with all modules", m)
			}
		}
		b := NewNodeFrom(x, a.t)
		defer b.Close()
		a.Block(time.Second, nil)
		b.Block(time.Second, nil)
		norm := func(g map[string]json.RawMessage) map[string]json.RawMessage {
			g = noUnbondingIDs(g)
			if zero {
				for _, m := range ourModules {
					g[m] = reHeights.ReplaceAll(g[m], []byte(`"height":"*"`))
				}
			}
			return g
		}
		same := func(what string, ca, cb sdk.Context) {
			ga, gb := norm(a.exportCtx(ca)), norm(b.exportCtx(cb))
			for m := range ga {
				if m == "ratelimit" || zero && (m == "ibc" || m == "provider") { // they hold heights
					continue
				}
				if !bytes.Equal(ga[m], gb[m]) {
					Fail("export:differs:"+m, "%s, the state of %s of the chain started from the export is\n   %s\ninstead of\n   %s", what, m, gb[m], ga[m])
				}
			}
		}
		same("after the first block", a.committedCtx(), b.committedCtx())
		for _, o := range w.ops {
			ra, rb := a.Finalize(o.took(), w.txs(a, o)), b.Finalize(o.took(), w.txs(b, o))
			for j, t := range ra.TxResults {
				u := rb.TxResults[j]
				if t.Code != u.Code || !bytes.Equal(t.Data, u.Data) {
					Fail("export:result:"+o.K, "on the chain started from the export, %s gives %d %x (%s) instead of %d %x (%s)", o, u.Code, u.Data, u.Log, t.Code, t.Data, t.Log)
				}
				r.Count(fmt.Sprintf("tx:%v", t.Code == 0))
			}
			same("after "+o.String(), a.pending(), b.pending())
			a.Forget()
			b.Forget()
		}
		r.Count("export")
	})
}

// validator makes u2 a second validator.
func validator(app *App, s *State) {
	msg, err := stakingtypes.NewMsgCreateValidator(sdk.ValAddress(addr("u2")).String(), sdked25519.GenPrivKeyFromSecret([]byte("validator 2")).PubKey(), coin("stake", 3_000_000),
		stakingtypes.NewDescription("second", "", "", "", ""), stakingtypes.NewCommissionRates(math.LegacyNewDecWithPrec(1, 1), math.LegacyNewDecWithPrec(2, 1), math.LegacyNewDecWithPrec(1, 2)), math.OneInt())
	check(err)
	app.MustMsg(s.Ctx(), msg)
}

// keeps: a chain started from an export for height zero which keeps some of the validators has exactly
// these validators, and all else as exported.
func (w *nodeWorld) keeps(r *Run, depth int) {
	n := NewNode(w.gen, w.t)
	defer n.Close()
	n.Block(time.Second, nil)
	vals, err := n.StakingKeeper.GetAllValidators(n.committedCtx())
	check(err)
	if len(vals) != 2 || !vals[0].IsBonded() || !vals[1].IsBonded() {
		panic("two validators are needed")
	}
	stranger := sdk.ValAddress(addr("u1")).String()
	keeps := [][]string{{vals[0].OperatorAddress}, {vals[1].OperatorAddress}, {vals[1].OperatorAddress, vals[0].OperatorAddress}, {stranger, vals[0].OperatorAddress}, nil}
	k := power(len(w.ops), depth)
	name := w.name + ": export keeping some validators"
	r.ForAll(name, k*len(keeps), func(i int) string {
		return fmt.Sprint(w.history(i%k, depth)) + fmt.Sprintf(" and any operation, keeping %v", keeps[i/k])
	}, func(i int) {
		keep := keeps[i/k]
		a := NewNode(w.gen, w.t)
		defer a.Close()
		a.Block(time.Second, nil)
		for _, o := range w.history(i%k, depth) {
			a.Block(o.took(), w.txs(a, o))
		}
		x := a.exportKeeping(true, keep)
		kept := func(where string, vals []stakingtypes.Validator) {
			for _, v := range vals {
				if want := keep == nil || in(keep, v.OperatorAddress); v.IsBonded() != want || v.Jailed == want {
					Fail("export:validators", "keeping %v, the validator %s is bonded %v and jailed %v %s", keep, v.OperatorAddress, v.IsBonded(), v.Jailed, where)
				}
			}
		}
		want := 0
		for _, v := range vals {
			if keep == nil || in(keep, v.OperatorAddress) {
				want++
			}
		}
		if len(x.Validators) != want {
			Fail("export:validators", "keeping %v of two validators, %d are exported", keep, len(x.Validators))
		}
		b := NewNodeFrom(x, a.t)
		defer b.Close()
		a.Block(time.Second, nil)
		b.Block(time.Second, nil)
		all, err := b.StakingKeeper.GetAllValidators(b.committedCtx())
		check(err)
		kept("on the chain started from the export", all)
		same := func(what string, ca, cb sdk.Context) {
			ga, gb := noUnbondingIDs(a.exportCtx(ca)), noUnbondingIDs(b.exportCtx(cb))
			for _, m := range ourModules {
				ma, mb := reHeights.ReplaceAll(ga[m], []byte(`"height":"*"`)), reHeights.ReplaceAll(gb[m], []byte(`"height":"*"`))
				if !bytes.Equal(ma, mb) {
					Fail("export:differs:"+m, "keeping %v, %s, the state of %s of the chain started from the export is\n   %s\ninstead of\n   %s", keep, what, m, mb, ma)
				}
			}
		}
		same("after the first block", a.committedCtx(), b.committedCtx())
		for _, o := range w.ops {
			ra, rb := a.Finalize(o.took(), w.txs(a, o)), b.Finalize(o.took(), w.txs(b, o))
			for j, t := range ra.TxResults {
				if u := rb.TxResults[j]; t.Code != u.Code || !bytes.Equal(t.Data, u.Data) {
					Fail("export:result:"+o.K, "keeping %v, on the chain started from the export, %s gives %d %x (%s) instead of %d %x (%s)", keep, o, u.Code, u.Data, u.Log, t.Code, t.Data, t.Log)
				}
			}
			same("after "+o.String(), a.pending(), b.pending())
			a.Forget()
			b.Forget()
		}
		r.Count(fmt.Sprintf("kept:%d", want))
	})
}

func init() {
	register(&Property{
		ID: "C39", Title: "A chain restarted from an export goes on as the exported one",
		Need: []string{"tx:true", "tx:false", "export", "kept:1", "kept:2"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 5
				return
			}
			off := func(app *App, g map[string]json.RawMessage) {
				app.withFees(g, noFees)
				app.noEscrow(g)
			}
			w := r.world(loose("everything", 0, everything(always), systemOps, nil), off)
			w.exports(r, r.Pick(1, 2), false)
			w.exports(r, r.Pick(1, 2), true)
			l := r.world(looseLV("liquid vesting", 0, lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil), off)
			l.exports(r, r.Pick(1, 2), false)
			l.exports(r, r.Pick(1, 2), true)
			two := loose("two validators", 0, everything(always), systemOps, nil)
			two.Bal, two.Prep = cloneMap(rwBal), validator
			two.Bal["u2"] += ",3000000stake"
			r.world(two, off).keeps(r, 1)
		},
	})
}
