package main

import (
	"context"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"cosmossdk.io/math"
	"cosmossdk.io/x/feegrant"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/codec/types"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authsign "github.com/cosmos/cosmos-sdk/x/auth/signing"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"
)

// rawTx is a transaction with every way to get it wrong.
type rawTx struct {
	Msgs    []sdk.Msg
	Signers []string // who has to sign, in order
	Fee     sdk.Coins
	Gas     uint64
	Memo    string
	Timeout uint64
	Granter string
	Sig     string // what is wrong with the signatures
}

var sigFaults = []string{"", "other key", "other chain", "other account number", "old sequence", "next sequence", "changed memo", "changed fee", "changed gas", "none", "empty", "twice", "key of another", "swapped", "only the first", "random"}

func (n *Node) build(ctx sdk.Context, t rawTx, bump map[string]uint64) ([]byte, error) {
	cfg := n.GetTxConfig()
	b := cfg.NewTxBuilder()
	if err := b.SetMsgs(t.Msgs...); err != nil {
		return nil, err
	}
	b.SetMemo(t.Memo)
	b.SetFeeAmount(t.Fee)
	b.SetGasLimit(t.Gas)
	b.SetTimeoutHeight(t.Timeout)
	if t.Granter != "" {
		b.SetFeeGranter(addr(t.Granter))
	}
	mode := signing.SignMode_SIGN_MODE_DIRECT
	signers := t.Signers
	if t.Sig == "swapped" {
		signers = nil
		for i := range t.Signers {
			signers = append(signers, t.Signers[len(t.Signers)-1-i])
		}
	}
	var keys []cryptotypes.PrivKey
	var sigs []signing.SignatureV2
	var data []authsign.SignerData
	for _, u := range signers {
		k := key(u)
		acc := n.AccountKeeper.GetAccount(ctx, addr(u))
		if acc == nil {
			panic("no account of " + u)
		}
		d := authsign.SignerData{Address: bech(u), ChainID: chainID, AccountNumber: acc.GetAccountNumber(), Sequence: acc.GetSequence() + bump[u], PubKey: k.PubKey()}
		pub := k.PubKey()
		switch t.Sig {
		case "other key":
			k = key("mallory")
		case "key of another":
			k = key("mallory")
			pub = k.PubKey()
		case "other chain":
			d.ChainID = "mc-2"
		case "other account number":
			d.AccountNumber++
		case "old sequence":
			d.Sequence--
		case "next sequence":
			d.Sequence++
		}
		keys, data = append(keys, k), append(data, d)
		sigs = append(sigs, signing.SignatureV2{PubKey: pub, Data: &signing.SingleSignatureData{SignMode: mode}, Sequence: d.Sequence})
	}
	check(b.SetSignatures(sigs...))
	for i, k := range keys {
		bz, err := authsign.GetSignBytesAdapter(context.Background(), cfg.SignModeHandler(), mode, data[i], b.GetTx())
		check(err)
		sig, err := k.Sign(bz)
		check(err)
		switch t.Sig {
		case "empty":
			sig = nil
		case "random":
			sig = make([]byte, 64)
		}
		sigs[i].Data.(*signing.SingleSignatureData).Signature = sig
	}
	switch t.Sig {
	case "none":
		sigs = nil
	case "twice":
		sigs = append(sigs, sigs[0])
	case "only the first":
		sigs = sigs[:1]
	case "changed memo":
		b.SetMemo(t.Memo + "x")
	case "changed fee":
		b.SetFeeAmount(t.Fee.Add(coin("stake", 1)))
	case "changed gas":
		b.SetGasLimit(t.Gas + 1)
	}
	check(b.SetSignatures(sigs...))
	return cfg.TxEncoder()(b.GetTx())
}

// ledger is what the chain holds at the end of a block.
type ledger struct {
	Stores map[string]map[string]string // without those of the accounts, the balances and the fees
	Bal    map[string]sdk.Coins
	Seq    map[string]uint64
	Fees   map[string]string // the fee market
}

var feeStores = []string{"acc", "bank", "feemarket", "wasm"}

func (a *App) ledger(n *Node, ctx sdk.Context) *ledger {
	l := &ledger{n.dumpStores(ctx), map[string]sdk.Coins{}, map[string]uint64{}, nil}
	l.Fees = l.Stores["feemarket"]
	for _, s := range feeStores {
		delete(l.Stores, s)
	}
	a.BankKeeper.IterateAllBalances(ctx, func(ad sdk.AccAddress, c sdk.Coin) bool {
		l.Bal[ad.String()] = l.Bal[ad.String()].Add(c)
		return false
	})
	check(a.AccountKeeper.Accounts.Walk(ctx, nil, func(ad sdk.AccAddress, acc sdk.AccountI) (bool, error) {
		l.Seq[ad.String()] = acc.GetSequence()
		return false, nil
	}))
	return l
}

// feeHolders are the accounts which may receive the fees of the transactions.
func feeHolders() []string {
	return []string{moduleAddr(feemarkettypes.FeeCollectorName).String(), moduleAddr("fee_collector").String(), sdk.AccAddress(proposer).String()}
}

func (l *ledger) held() (out sdk.Coins) {
	for _, a := range feeHolders() {
		out = out.Add(l.Bal[a]...)
	}
	return
}

// diff tells how a ledger differs from the expected one, apart from how the fees are divided among those who receive them.
func (l *ledger) diff(want *ledger) string {
	if d := diffStores(want.Stores, l.Stores); len(d) > 0 {
		return fmt.Sprint("the stores ", d)
	}
	names := map[string]bool{}
	for a := range l.Bal {
		names[a] = true
	}
	for a := range want.Bal {
		names[a] = true
	}
	for _, a := range sortedKeys(names) {
		if !in(feeHolders(), a) && !l.Bal[a].Equal(want.Bal[a]) {
			return fmt.Sprintf("the balance of %s is %s instead of %s", a, l.Bal[a], want.Bal[a])
		}
	}
	if h, w := l.held(), want.held(); !h.Equal(w) {
		return fmt.Sprintf("the fees are %s instead of %s", h, w)
	}
	for _, a := range sortedKeys(want.Seq) {
		if got, ok := l.Seq[a]; !in(feeHolders(), a) && (!ok || got != want.Seq[a]) {
			return fmt.Sprintf("the sequence of %s is %d instead of %d", a, got, want.Seq[a])
		}
	}
	for _, a := range sortedKeys(l.Seq) {
		if _, ok := want.Seq[a]; !ok && !in(feeHolders(), a) {
			return fmt.Sprintf("there is an account %s", a)
		}
	}
	return ""
}

func (l *ledger) clone() *ledger {
	return &ledger{l.Stores, cloneMap(l.Bal), cloneMap(l.Seq), l.Fees}
}

// paid is the ledger after the sender of a transaction has been charged.
func (l *ledger) paid(signers []string, payer string, fee sdk.Coins) *ledger {
	n := l.clone()
	for _, u := range signers {
		n.Seq[bech(u)]++
	}
	left, neg := n.Bal[bech(payer)].SafeSub(fee...)
	if neg {
		panic("the fee cannot be paid")
	}
	n.Bal[bech(payer)] = left
	if left.Empty() {
		delete(n.Bal, bech(payer))
	}
	h := feeHolders()[0]
	n.Bal[h] = n.Bal[h].Add(fee...)
	return n
}

// expect executes messages at the next block of a node, all or none, without a transaction.
func (n *Node) expect(d time.Duration, msgs []sdk.Msg) (*ledger, Outcome) {
	return n.expectAfter(d, msgs, func(sdk.Context) {})
}

// expectAfter is expect when something happens before the block begins.
func (n *Node) expectAfter(d time.Duration, msgs []sdk.Msg, before func(sdk.Context)) (*ledger, Outcome) {
	ctx := n.committedCtx().WithBlockHeader(tmheader(n.h+1, n.t.Add(d)))
	before(ctx)
	if o := n.App.BeginBlock(ctx); !o.OK() {
		panic(o.String())
	}
	c, write := ctx.CacheContext()
	var out Outcome
	for _, m := range msgs {
		if out = n.App.Msg(c, m); !out.OK() {
			break
		}
	}
	if out.OK() {
		write()
	}
	if o := n.App.EndBlock(ctx); !o.OK() {
		panic(o.String())
	}
	return n.ledger(n, ctx), out
}

// nodePool hands out nodes started from the same genesis. A node on which a case fails is not used again.
type nodePool struct {
	w    *nodeWorld
	mu   sync.Mutex
	idle []*Node
}

func newPool(w *nodeWorld) *nodePool { return &nodePool{w: w} }

func (p *nodePool) with(f func(n *Node)) {
	var n *Node
	p.mu.Lock()
	if k := len(p.idle); k > 0 {
		n, p.idle = p.idle[k-1], p.idle[:k-1]
	}
	p.mu.Unlock()
	if n == nil {
		n = NewNode(p.w.gen, p.w.t, p.w.opts)
	}
	fine := false
	defer func() {
		if !fine {
			n.Close()
			return
		}
		p.mu.Lock()
		p.idle = append(p.idle, n)
		p.mu.Unlock()
	}()
	f(n)
	fine = true
}

// drop forgets a node whose chain has moved on.
func (p *nodePool) drop(n *Node) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for i, x := range p.idle {
		if x == n {
			p.idle = append(p.idle[:i], p.idle[i+1:]...)
			n.Close()
			return
		}
	}
}

func (p *nodePool) close() {
	for _, n := range p.idle {
		n.Close()
	}
}

// the fee market of a chain
type market struct {
	name    string
	enabled bool
	price   string
}

var markets = []market{{"fee market", true, "0.01"}, {"minimum price", false, "0.01"}, {"no price", false, "0"}}

func (m market) set(app *App, g map[string]json.RawMessage) {
	app.noEscrow(g)
	app.withFees(g, func(fm *feemarkettypes.GenesisState) {
		fm.Params.Enabled = m.enabled
		fm.Params.MinBaseGasPrice = math.LegacyMustNewDecFromStr(m.price)
		if m.price != "0" {
			fm.State.BaseGasPrice = math.LegacyMustNewDecFromStr(m.price)
		}
	})
}

// price is what the gas of a transaction in the next block costs.
func (m market) required(n *Node, gas uint64) int64 {
	ctx := n.committedCtx()
	p := math.LegacyMustNewDecFromStr(m.price)
	if m.enabled {
		x, err := n.FeeMarketKeeper.GetMinGasPrice(ctx, "stake")
		check(err)
		p = x.Amount
	}
	return p.MulInt64(int64(gas)).Ceil().TruncateInt64()
}

// txCase is a list of messages with what has to happen.
type txCase struct {
	name    string
	signers []string
	msgs    func() []sdk.Msg
	refused bool // by the checks which precede the execution
}

func ms(os ...Op) func() []sdk.Msg {
	return func() (out []sdk.Msg) {
		for _, o := range os {
			out = append(out, o.Msg())
		}
		return
	}
}

func txCases() []txCase {
	vote := func(u string) func() []sdk.Msg {
		return func() []sdk.Msg { return []sdk.Msg{govtypes.NewMsgVote(addr(u), 1, govtypes.OptionYes, "")} }
	}
	propose := func(expedited bool, msg sdk.Msg) func() []sdk.Msg {
		return func() []sdk.Msg {
			p, err := govtypes.NewMsgSubmitProposal([]sdk.Msg{msg}, coins("10stake"), bech("u2"), "", "t", "s", expedited)
			check(err)
			return []sdk.Msg{p}
		}
	}
	pool, bad := Op{K: "del_pool", U: "u1", A: "1tka"}, Op{K: "del_op", U: "u1", ID: 7, A: "1tka"}
	send := &banktypes.MsgSend{FromAddress: bech("u1"), ToAddress: bech("u2"), Amount: coins("5stake")}
	exec := func(msgs ...sdk.Msg) func() []sdk.Msg {
		return func() []sdk.Msg {
			m := authz.NewMsgExec(addr("u2"), msgs)
			return []sdk.Msg{&m}
		}
	}
	paramsOfGov := Op{K: "rparams", U: "gov", ID: 4, S: "tka"}
	return []txCase{
		{"delegation", []string{"u1"}, ms(pool), false},
		{"two messages of which the second fails", []string{"u1"}, ms(pool, bad), false},
		{"two messages", []string{"u1"}, ms(pool, Op{K: "del_op", U: "u1", ID: 1, A: "1tka"}), false},
		{"two signers", []string{"u1", "u2"}, func() []sdk.Msg { return []sdk.Msg{send, Op{K: "del_pool", U: "u2", A: "1tka"}.Msg()} }, false},
		{"two signers of whom the second fails", []string{"u1", "u2"}, func() []sdk.Msg {
			return []sdk.Msg{send, Op{K: "del_op", U: "u2", ID: 7, A: "1tka"}.Msg()}
		}, false},
		{"failing message", []string{"u1"}, ms(bad), false},
		{"claim and unbonding", []string{"u1"}, ms(Op{K: "claim", U: "u1", S: "op", ID: 1}, Op{K: "und_op", U: "u1", ID: 1, A: "1tka"}), false},
		{"registration", []string{"oa"}, ms(Op{K: "register_op", U: "oa", S: "new|w|p"}, Op{K: "params_op", U: "oa", ID: 2, S: "0.2"}), false},
		{"message of somebody else", []string{"u2"}, ms(pool), true},
		{"message of the governance", []string{"u1"}, ms(paramsOfGov), true},
		{"malformed message", []string{"u1"}, ms(Op{K: "del_op", U: "u1", ID: 0, A: "1tka"}), true},
		{"vote with stake", []string{"u2"}, vote("u2"), false},
		{"vote without stake", []string{"u1"}, vote("u1"), true},
		{"vote in a granted execution", []string{"u2"}, exec(vote("u1")()...), true},
		{"granted execution", []string{"u2"}, exec(&banktypes.MsgSend{FromAddress: bech("oa"), ToAddress: bech("u2"), Amount: coins("5stake")}), false},
		{"execution that is not granted", []string{"u2"}, exec(pool.Msg()), false},
		{"execution of which the second part fails", []string{"u2"}, exec(&banktypes.MsgSend{FromAddress: bech("oa"), ToAddress: bech("u2"), Amount: coins("5stake")}, &banktypes.MsgSend{FromAddress: bech("oa"), ToAddress: bech("u2"), Amount: coins("5000000000stake")}), false},
		{"proposal", []string{"u2"}, propose(false, paramsOfGov.Msg()), false},
		{"expedited proposal", []string{"u2"}, propose(true, paramsOfGov.Msg()), true},
		{"no message", []string{"u1"}, func() []sdk.Msg { return nil }, true},
	}
}

// txPrep: a delegation to the validator, a proposal in its voting period, allowances.
func txPrep(app *App, s *State) {
	ctx := s.Ctx()
	vals, err := app.StakingKeeper.GetAllValidators(ctx)
	check(err)
	app.MustMsg(ctx, stakingtypes.NewMsgDelegate(bech("u2"), vals[0].OperatorAddress, coin("stake", 1_000_000)))
	p, err := govtypes.NewMsgSubmitProposal([]sdk.Msg{Op{K: "rparams", U: "gov", ID: 9}.Msg()}, coins("20000000stake"), bech("u2"), "", "t", "s", false)
	check(err)
	app.MustMsg(ctx, p)
	g, err := authz.NewMsgGrant(addr("oa"), addr("u2"), authz.NewGenericAuthorization(sdk.MsgTypeURL(&banktypes.MsgSend{})), nil)
	check(err)
	app.MustMsg(ctx, g)
	f, err := feegrant.NewMsgGrantAllowance(&feegrant.BasicAllowance{SpendLimit: coins("100000stake")}, addr("f"), addr("u1"))
	check(err)
	app.MustMsg(ctx, f)
}

var _ = types.NewAnyWithValue

// txDims are the ways in which a transaction may differ from one in order, by dimension.
type txDev struct {
	name    string
	apply   func(n *Node, m market, t *rawTx)
	refused func(m market, t *rawTx) bool
}

func txDims(m market) [][]txDev {
	yes := func(market, *rawTx) bool { return true }
	no := func(market, *rawTx) bool { return false }
	var sigs, fees, gas, memos, outs []txDev
	for _, f := range sigFaults {
		sigs = append(sigs, txDev{"signature: " + f, func(_ *Node, _ market, t *rawTx) { t.Sig = f }, func(_ market, t *rawTx) bool {
			if f == "swapped" || f == "only the first" {
				return len(t.Signers) > 1
			}
			return f != ""
		}})
	}
	fee := func(name string, f func(n *Node, m market, t *rawTx) sdk.Coins, refused func(m market, t *rawTx) bool) {
		fees = append(fees, txDev{"fee: " + name, func(n *Node, m market, t *rawTx) { t.Fee = f(n, m, t) }, refused})
	}
	priced := func(m market, t *rawTx) bool { return m.price != "0" }
	req := func(n *Node, m market, t *rawTx) int64 { return m.required(n, t.Gas) }
	fee("required", func(n *Node, m market, t *rawTx) sdk.Coins { return sdk.NewCoins(coin("stake", req(n, m, t))) }, no)
	fee("one less", func(n *Node, m market, t *rawTx) sdk.Coins {
		if r := req(n, m, t); r > 0 {
			return sdk.NewCoins(coin("stake", r-1))
		}
		return nil
	}, priced)
	fee("more", func(n *Node, m market, t *rawTx) sdk.Coins { return sdk.NewCoins(coin("stake", req(n, m, t)+1234)) }, no)
	fee("none", func(n *Node, m market, t *rawTx) sdk.Coins { return nil }, priced)
	fee("other denom", func(n *Node, m market, t *rawTx) sdk.Coins { return sdk.NewCoins(coin("tkb", 1)) }, priced)
	fee("two denoms", func(n *Node, m market, t *rawTx) sdk.Coins {
		return sdk.NewCoins(coin("stake", req(n, m, t)+1), coin("tkb", 1))
	}, priced)
	fee("more than the balance", func(n *Node, m market, t *rawTx) sdk.Coins {
		return sdk.NewCoins(coin("stake", 9_000_000_000))
	}, yes)
	fee("of a granter", func(n *Node, m market, t *rawTx) sdk.Coins {
		t.Granter = "f"
		return sdk.NewCoins(coin("stake", req(n, m, t)+1))
	}, func(m market, t *rawTx) bool { return t.Signers[0] != "u1" })
	fee("of a granter beyond the grant", func(n *Node, m market, t *rawTx) sdk.Coins {
		t.Granter = "f"
		return sdk.NewCoins(coin("stake", 100_001))
	}, yes)
	fee("of somebody who does not grant", func(n *Node, m market, t *rawTx) sdk.Coins {
		t.Granter = "sx"
		return sdk.NewCoins(coin("stake", req(n, m, t)+1))
	}, yes)
	gas = append(gas, txDev{"", func(*Node, market, *rawTx) {}, no},
		txDev{"gas: none", func(n *Node, m market, t *rawTx) { t.Gas = 0 }, yes},
		txDev{"gas: little", func(n *Node, m market, t *rawTx) { t.Gas = 1000 }, yes},
		txDev{"gas: more than a block", func(n *Node, m market, t *rawTx) { t.Gas = 100_000_000_000 }, no})
	for _, l := range []int{0, 256, 257} {
		memos = append(memos, txDev{fmt.Sprintf("memo: %d", l), func(_ *Node, _ market, t *rawTx) { t.Memo = strings.Repeat("m", l) }, func(market, *rawTx) bool { return l > 256 }})
	}
	for _, h := range []uint64{0, 1, 2, 3} { // the block is the second
		outs = append(outs, txDev{fmt.Sprintf("timeout: %d", h), func(_ *Node, _ market, t *rawTx) { t.Timeout = h }, func(market, *rawTx) bool { return h == 1 }})
	}
	return [][]txDev{sigs, fees, gas[:3], memos, outs}
}

func (r *Run) transactionsWorld(m market) *nodeWorld {
	return r.world(&RMConf{Name: "transactions: " + m.name, Bal: txBal, Denoms: stdDenoms, RDenoms: []string{"rwd", "rwx"}, Setup: everything(always), Loose: true, Own: Own{Halt: true}, Prep: txPrep}, m.set)
}

func (m market) transactions(r *Run, pairs bool) {
	w := r.transactionsWorld(m)
	pool := newPool(w)
	defer pool.close()
	cases := txCases()
	dims := txDims(m)
	var devs [][]int // a choice per dimension
	zero := make([]int, len(dims))
	devs = append(devs, zero)
	for d := range dims {
		for i := 1; i < len(dims[d]); i++ {
			one := append([]int(nil), zero...)
			one[d] = i
			devs = append(devs, one)
			if !pairs {
				continue
			}
			for e := d + 1; e < len(dims); e++ {
				for j := 1; j < len(dims[e]); j++ {
					two := append([]int(nil), one...)
					two[e] = j
					devs = append(devs, two)
				}
			}
		}
	}
	desc := func(i int) string {
		out := cases[i%len(cases)].name
		for d, k := range devs[i/len(cases)] {
			if k > 0 {
				out += ", " + dims[d][k].name
			}
		}
		return out
	}
	r.ForAll("transactions: "+m.name, len(cases)*len(devs), desc, func(i int) {
		pool.with(func(n *Node) {
			c := cases[i%len(cases)]
			t := rawTx{Msgs: c.msgs(), Signers: c.signers, Gas: 2_000_050}
			ctx := n.committedCtx()
			refused := c.refused
			order := []int{2, 0, 1, 3, 4} // the gas before the fee
			for _, d := range order {
				dev := dims[d][devs[i/len(cases)][d]]
				dev.apply(n, m, &t)
				if dev.refused(m, &t) {
					refused = true
				}
			}
			tx, err := n.build(ctx, t, nil)
			check(err)
			fee := t.Fee
			if t.Sig == "changed fee" {
				fee = fee.Add(coin("stake", 1))
			}
			n.verify(r, desc(i), tx, t, fee, refused)
		})
	})
}

// verify executes a block of one transaction and compares it with what has to happen.
func (n *Node) verify(r *Run, desc string, tx []byte, t rawTx, fee sdk.Coins, refused bool) {
	d := 5 * time.Second
	res := n.Finalize(d, [][]byte{tx})
	got := n.ledger(n, n.pending())
	n.Forget()
	code := res.TxResults[0]
	if refused {
		if code.Code == 0 {
			Fail("tx:accepted", "the transaction (%s) is accepted", desc)
		}
		n.Finalize(d, nil)
		want := n.ledger(n, n.pending())
		n.Forget()
		if x := got.diff(want); x != "" {
			Fail("tx:refused:changes", "the refused transaction (%s) changes %s", desc, x)
		}
		if !reflect.DeepEqual(got.Fees, want.Fees) || !reflect.DeepEqual(got.Seq, want.Seq) {
			Fail("tx:refused:changes", "the refused transaction (%s) changes the fee market or the accounts", desc)
		}
		r.Count("refused")
		return
	}
	// what it does, given that the fee has been paid
	payer := t.Signers[0]
	if t.Granter != "" {
		payer = t.Granter
	}
	want, out := n.expect(d, t.Msgs)
	if out.OK() != (code.Code == 0) {
		Fail(fmt.Sprintf("tx:result:%v", out.OK()), "the transaction (%s) should give %s, but gives %d (%s)", desc, out, code.Code, code.Log)
	}
	want = want.paid(t.Signers, payer, fee)
	if t.Granter != "" { // the allowance has been used
		for _, s := range []map[string]map[string]string{got.Stores, want.Stores} {
			s["feegrant"] = nil
		}
	}
	if x := got.diff(want); x != "" {
		Fail(fmt.Sprintf("tx:effect:%v", out.OK()), "after the transaction (%s), which gives %d, %s", desc, code.Code, x)
	}
	r.Count(map[bool]string{true: "executed", false: "failed"}[out.OK()])
}

// gasLimits: with every limit of the gas the transaction is refused, charged or executed, and nothing in between.
func (m market) gasLimits(r *Run, step int) {
	w := r.transactionsWorld(m)
	pool := newPool(w)
	defer pool.close()
	var cases []txCase
	for _, c := range txCases() {
		if in([]string{"two messages", "two signers", "claim and unbonding", "registration", "proposal", "granted execution"}, c.name) {
			cases = append(cases, c)
		}
	}
	limits := 400_000 / step
	d := 5 * time.Second
	name := "gas limits: " + m.name
	r.ForAll(name, len(cases)*limits, func(i int) string { return fmt.Sprintf("%s with %d gas", cases[i%len(cases)].name, i/len(cases)*step) }, func(i int) {
		pool.with(func(n *Node) {
			c := cases[i%len(cases)]
			t := rawTx{Msgs: c.msgs(), Signers: c.signers, Gas: uint64(i / len(cases) * step)}
			t.Fee = sdk.NewCoins(coin("stake", m.required(n, t.Gas)+1))
			tx, err := n.build(n.committedCtx(), t, nil)
			check(err)
			res := n.Finalize(d, [][]byte{tx}).TxResults[0]
			got := n.ledger(n, n.pending())
			n.Forget()
			msgs, how := t.Msgs, "executed"
			if res.Code != 0 {
				msgs, how = nil, "failed"
			}
			want, _ := n.expect(d, msgs)
			if got.Seq[bech(c.signers[0])] != want.Seq[bech(c.signers[0])] {
				want = want.paid(t.Signers, t.Signers[0], t.Fee)
			} else if how = "refused"; res.Code == 0 {
				Fail("gas:free", "%s with %d gas is executed without using a sequence number", c.name, t.Gas)
			}
			if x := got.diff(want); x != "" {
				Fail("gas:"+how, "%s with %d gas is %s, but %s", c.name, t.Gas, how, x)
			}
			r.Count("gas:" + how)
		})
	})
}

// listed is a transaction of a block of several: Seq is the distance of its sequence from the one at the beginning of the block.
type listed struct {
	name    string
	signers []string
	msgs    []sdk.Msg
	seq     uint64
	gas     uint64
	fee     int64
}

func txList() []listed {
	send := func(from, to string, n int64) sdk.Msg {
		return &banktypes.MsgSend{FromAddress: bech(from), ToAddress: bech(to), Amount: sdk.NewCoins(coin("stake", n))}
	}
	one, two := []string{"u1"}, []string{"u1", "u2"}
	pool := Op{K: "del_pool", U: "u1", A: "1tka"}.Msg()
	bad := Op{K: "del_op", U: "u1", ID: 7, A: "1tka"}.Msg()
	const g = 1_000_000
	return []listed{
		{"send", one, []sdk.Msg{send("u1", "oa", 60_000_000)}, 0, g, 0},
		{"send with the next sequence", one, []sdk.Msg{send("u1", "u2", 50_000_000)}, 1, g, 7},
		{"delegation", one, []sdk.Msg{pool}, 0, g, 0},
		{"delegation with the next sequence", one, []sdk.Msg{pool}, 1, g, 0},
		{"delegation with the sequence after", one, []sdk.Msg{pool}, 2, g, 3},
		{"failure", one, []sdk.Msg{pool, bad}, 0, g, 11},
		{"failure with the next sequence", one, []sdk.Msg{pool, bad}, 1, g, 11},
		{"little gas", one, []sdk.Msg{pool}, 0, 1000, 0},
		{"large fee", one, []sdk.Msg{pool}, 0, g, 70_000_000},
		{"of another", []string{"u2"}, []sdk.Msg{send("u2", "u1", 30_000_000), Op{K: "del_pool", U: "u2", A: "1tka"}.Msg()}, 0, g, 0},
		{"of two", two, []sdk.Msg{send("u1", "u2", 1_000_000), send("u2", "u1", 70_000_000)}, 0, g, 0},
		{"of two with the next sequence", two, []sdk.Msg{send("u1", "u2", 1_000_000), send("u2", "u1", 40_000_000)}, 1, g, 0},
	}
}

// blocks: every list of up to k transactions, some of which cannot follow the others.
func (m market) blocks(r *Run, k int) {
	w := r.transactionsWorld(m)
	pool := newPool(w)
	defer pool.close()
	list := txList()
	total, sizes := 0, []int{}
	for i := 1; i <= k; i++ {
		sizes = append(sizes, power(len(list), i))
		total += power(len(list), i)
	}
	decode := func(i int) (out []listed) {
		for l, size := range sizes {
			if i < size {
				for j := 0; j <= l; j++ {
					out = append(out, list[i%len(list)])
					i /= len(list)
				}
				return
			}
			i -= size
		}
		return
	}
	desc := func(i int) string {
		var names []string
		for _, x := range decode(i) {
			names = append(names, x.name)
		}
		return strings.Join(names, "; ")
	}
	d := 5 * time.Second
	r.ForAll("blocks: "+m.name, total, desc, func(i int) {
		pool.with(func(n *Node) {
			var txs [][]byte
			ctx := n.committedCtx().WithBlockHeader(tmheader(n.h+1, n.t.Add(d)))
			if o := n.App.BeginBlock(ctx); !o.OK() {
				panic(o.String())
			}
			seq := map[string]uint64{}
			var want []string
			for _, x := range decode(i) {
				t := rawTx{Msgs: x.msgs, Signers: x.signers, Gas: x.gas}
				t.Fee = sdk.NewCoins(coin("stake", m.required(n, t.Gas)+x.fee))
				bump := map[string]uint64{}
				for _, u := range x.signers {
					bump[u] = x.seq
				}
				tx, err := n.build(n.committedCtx(), t, bump)
				check(err)
				txs = append(txs, tx)
				how := "executed"
				for _, u := range x.signers {
					if seq[u] != x.seq {
						how = "refused"
					}
				}
				if x.gas < 10_000 {
					how = "refused"
				}
				if how != "refused" {
					if err := n.BankKeeper.SendCoinsFromAccountToModule(ctx, addr(x.signers[0]), feemarkettypes.FeeCollectorName, t.Fee); err != nil {
						how = "refused"
					}
				}
				if how != "refused" {
					for _, u := range x.signers {
						seq[u]++
					}
					c, write := ctx.CacheContext()
					for _, msg := range x.msgs {
						if out := n.App.Msg(c, msg); !out.OK() {
							how = "failed"
							break
						}
					}
					if how == "executed" {
						write()
					}
				}
				want = append(want, how)
			}
			if o := n.App.EndBlock(ctx); !o.OK() {
				panic(o.String())
			}
			ref := n.ledger(n, ctx)
			for u, k := range seq {
				ref.Seq[bech(u)] += k
			}
			res := n.Finalize(d, txs)
			got := n.ledger(n, n.pending())
			n.Forget()
			for j, how := range want {
				if (how == "executed") != (res.TxResults[j].Code == 0) {
					Fail("block:result:"+how, "transaction %d of the block (%s) should be %s, but gives %d (%s)", j+1, desc(i), how, res.TxResults[j].Code, res.TxResults[j].Log)
				}
				r.Count("block:" + how)
			}
			if x := got.diff(ref); x != "" {
				Fail("block:effect", "after the block (%s) %s", desc(i), x)
			}
		})
	})
}

// replays: a transaction that has been accepted is refused in the next block, and the mempool admits what a block does.
func (m market) replays(r *Run) {
	w := r.transactionsWorld(m)
	cases := txCases()
	dims := txDims(m)
	type one struct{ d, k int }
	devs := []one{{0, 0}}
	for d := range dims {
		for k := 1; k < len(dims[d]); k++ {
			if d != 4 { // the mempool is one block behind
				devs = append(devs, one{d, k})
			}
		}
	}
	pool := newPool(w)
	defer pool.close()
	desc := func(i int) string {
		c, v := cases[i%len(cases)], devs[i/len(cases)]
		return c.name + ", " + dims[v.d][v.k].name
	}
	r.ForAll("mempool and replays: "+m.name, len(cases)*len(devs), desc, func(i int) {
		var n *Node
		spent := false
		run := func(x *Node) {
			n = x
			c, v := cases[i%len(cases)], devs[i/len(cases)]
			t := rawTx{Msgs: c.msgs(), Signers: c.signers, Gas: 2_000_050}
			refused := c.refused
			for _, d := range []int{2, 0, 1, 3} {
				k := 0
				if d == v.d {
					k = v.k
				}
				dims[d][k].apply(n, m, &t)
				refused = refused || dims[d][k].refused(m, &t)
			}
			tx, err := n.build(n.committedCtx(), t, nil)
			check(err)
			res, err := n.CheckTx(&abci.RequestCheckTx{Tx: tx})
			check(err)
			if (res.Code == 0) == refused {
				Fail("mempool:"+fmt.Sprint(refused), "the transaction (%s) gives %d (%s) when it is submitted", desc(i), res.Code, res.Log)
			}
			r.Count("mempool:" + map[bool]string{true: "refused", false: "admitted"}[refused])
			if refused {
				return
			}
			spent = true
			n.Block(5*time.Second, [][]byte{tx})
			before := n.ledger(n, n.committedCtx())
			again := n.Block(0, [][]byte{tx}).TxResults[0]
			after := n.ledger(n, n.committedCtx())
			if again.Code == 0 {
				Fail("replay", "the transaction (%s) is executed twice", desc(i))
			}
			if before.Bal[bech(t.Signers[0])].Equal(after.Bal[bech(t.Signers[0])]) && reflect.DeepEqual(before.Seq, after.Seq) {
				r.Count("replay:refused")
				return
			}
			Fail("replay:changes", "the transaction (%s), repeated, changes the account of its sender", desc(i))
		}
		pool.with(run)
		if spent {
			pool.drop(n)
		}
	})
}

var txBal = func() map[string]string {
	out := cloneMap(rwBal)
	for u, b := range out {
		if b != "" {
			b += ","
		}
		out[u] = b + "100000000stake"
		if !strings.Contains(b, "tkb") {
			out[u] += ",3tkb"
		}
	}
	return out
}()

var _ = abci.CodeTypeOK

func init() {
	register(&Property{
		ID: "C37", Title: "Only properly signed and paid transactions take effect, entirely or not at all",
		Need: []string{"refused", "executed", "failed", "gas:refused", "gas:failed", "gas:executed", "block:refused", "block:failed", "block:executed", "mempool:admitted", "mempool:refused", "replay:refused"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 10
				return
			}
			for i, m := range markets {
				m.transactions(r, i == 0 || r.Thorough())
			}
			for _, m := range markets[:2] {
				m.gasLimits(r, r.Pick(1000, 200))
				m.blocks(r, r.Pick(3, 4))
			}
			for _, m := range markets {
				m.replays(r)
			}
		},
	})
}
