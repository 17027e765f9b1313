package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"net"
	"reflect"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	sdk "github.com/cosmos/cosmos-sdk/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	protoio "github.com/cosmos/gogoproto/io"
	"github.com/skip-mev/connect/v2/abci/strategies/codec"
	vetypes "github.com/skip-mev/connect/v2/abci/ve/types"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracleserver "github.com/skip-mev/connect/v2/service/servers/oracle/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"
	"google.golang.org/grpc"
)

// The chain of this file has four validators with 1, 2, 3 and 3 of 9 votes.
var voters = []struct {
	name  string
	power int64
}{{"validator", 1}, {"validator v1", 2}, {"validator v2", 3}, {"validator v3", 3}}

const (
	needed    = 7 // votes in a commit
	allVotes  = 9
	noExt     = "-"
	pairCount = 3
)

var (
	pairA = connecttypes.NewCurrencyPair("TKA", "USD") // has a price
	pairB = connecttypes.NewCurrencyPair("NEW", "USD") // has none yet
	pairC = connecttypes.NewCurrencyPair("TKB", "USD") // nobody votes for it, unless said
	pairs = []connecttypes.CurrencyPair{pairA, pairB, pairC}

	extCodec = codec.NewCompressionVoteExtensionCodec(codec.NewDefaultVoteExtensionCodec(), codec.NewZLibCompressor())
	comCodec = codec.NewCompressionExtendedCommitCodec(codec.NewDefaultExtendedCommitCodec(), codec.NewZStdCompressor())
)

func voterKey(i int) *ed25519.PrivKey { return ed25519.GenPrivKeyFromSecret([]byte(voters[i].name)) }

// voterOrder is the order in which the validators appear in a commit.
var voterOrder = func() []int {
	out := []int{0, 1, 2, 3}
	sort.Slice(out, func(a, b int) bool {
		i, j := out[a], out[b]
		if voters[i].power != voters[j].power {
			return voters[i].power > voters[j].power
		}
		return bytes.Compare(voterKey(i).PubKey().Address(), voterKey(j).PubKey().Address()) < 0
	})
	return out
}()

// fourValidators makes three more validators and a pair without a price.
func fourValidators(app *App, s *State) {
	for i := 1; i < len(voters); i++ {
		u := fmt.Sprintf("v%d", i)
		msg, err := stakingtypes.NewMsgCreateValidator(sdk.ValAddress(addr(u)).String(), voterKey(i).PubKey(), coin("stake", voters[i].power*1_000_000),
			stakingtypes.NewDescription(u, "", "", "", ""), stakingtypes.NewCommissionRates(math.LegacyZeroDec(), math.LegacyOneDec(), math.LegacyOneDec()), math.OneInt())
		check(err)
		app.MustMsg(s.Ctx(), msg)
	}
	check(app.OracleKeeper.CreateCurrencyPair(s.Ctx(), pairB))
}

// votesWorld is a chain whose prices come from the votes.
func (r *Run) votesWorld() *nodeWorld {
	c := loose("votes with prices", 0, rwSetup(always, Op{K: "asset", U: "gov", ID: 2, S: "rwx|NEW"}, Op{K: "del_pool", U: "u1", A: "3tka"}, Op{K: "del_op", U: "u2", ID: 1, A: "2tka"}, Op{K: "del_svc", U: "u1", ID: 1, A: "2tkb"}), nil, nil)
	c.Bal = cloneMap(rwBal)
	for i := 1; i < len(voters); i++ {
		c.Bal[fmt.Sprintf("v%d", i)] = fmt.Sprintf("%dstake", voters[i].power*1_000_000)
	}
	c.Prep = fourValidators
	w := r.world(c, func(app *App, g map[string]json.RawMessage) {
		app.withFees(g, noFees)
		app.noEscrow(g)
	})
	w.opts = nodeOpts{votes: true}
	return w
}

// price of a pair at the last committed block: nil if it has none.
func (n *Node) price(ctx sdk.Context, p connecttypes.CurrencyPair) *big.Int {
	q, err := n.OracleKeeper.GetPriceForCurrencyPair(ctx, p)
	if err != nil {
		return nil
	}
	return q.Price.BigInt()
}

// delta encodes a price as what it adds to the present one.
func (n *Node) delta(p connecttypes.CurrencyPair, price *big.Int) []byte {
	d := new(big.Int).Set(price)
	if old := n.price(n.committedCtx(), p); old != nil {
		d.Sub(d, old)
	}
	bz, err := d.GobEncode()
	check(err)
	return bz
}

func (n *Node) pairID(p connecttypes.CurrencyPair) uint64 {
	id, ok := n.OracleKeeper.GetIDForCurrencyPair(n.committedCtx(), p)
	if !ok {
		panic("no pair " + p.String())
	}
	return id
}

func encodeExt(prices map[uint64][]byte) []byte {
	bz, err := extCodec.Encode(vetypes.OracleVoteExtension{Prices: prices})
	check(err)
	return bz
}

// ballot is how a validator votes.
type ballot struct {
	name   string
	flag   cmtproto.BlockIDFlag
	ext    func(n *Node) []byte
	prices map[connecttypes.CurrencyPair]int64 // what it counts for
	bad    bool                                // the extension is not acceptable
	unsig  bool                                // the signature is not valid
}

func prices(m map[connecttypes.CurrencyPair]int64) func(n *Node) []byte {
	return func(n *Node) []byte {
		out := map[uint64][]byte{}
		for p, x := range m {
			out[n.pairID(p)] = n.delta(p, big.NewInt(x))
		}
		return encodeExt(out)
	}
}

type vote = map[connecttypes.CurrencyPair]int64

func forPrices(m vote) ballot {
	var what []string
	for _, p := range pairs {
		if x, ok := m[p]; ok {
			what = append(what, fmt.Sprintf("%s %d", p.Base, x))
		}
	}
	return ballot{name: strings.Join(what, " and "), flag: cmtproto.BlockIDFlagCommit, ext: prices(m), prices: m}
}

const e8 = 100_000_000

func noPrices(n *Node) []byte { return nil }

// ballots which may appear in a proposal.
func ballots() []ballot {
	return []ballot{
		forPrices(vote{pairA: 3 * e8, pairB: 7 * e8}),
		{name: "nothing", flag: cmtproto.BlockIDFlagAbsent},
		{name: "no prices", flag: cmtproto.BlockIDFlagCommit, ext: noPrices},
		forPrices(vote{pairA: 5 * e8}),
		forPrices(vote{pairA: 0, pairB: 1}),
		forPrices(vote{pairB: 11 * e8, pairC: 13 * e8}),
		{name: "no block", flag: cmtproto.BlockIDFlagNil},
		{name: "a pair which does not exist, and TKA 400000000", flag: cmtproto.BlockIDFlagCommit, prices: vote{pairA: 4 * e8}, ext: func(n *Node) []byte {
			return encodeExt(map[uint64][]byte{99: n.delta(pairB, big.NewInt(5)), n.pairID(pairA): n.delta(pairA, big.NewInt(4*e8))})
		}},
		{name: "TKA below zero and TKB not decodable", flag: cmtproto.BlockIDFlagCommit, ext: func(n *Node) []byte {
			return encodeExt(map[uint64][]byte{n.pairID(pairA): n.delta(pairA, big.NewInt(-1)), n.pairID(pairC): {0xff, 1}})
		}},
		forPrices(vote{pairA: 2 * e8, pairB: 0, pairC: 5 * e8}),
	}
}

// wrongBallots are those a proposer has to leave out.
func wrongBallots() []ballot {
	c := cmtproto.BlockIDFlagCommit
	return []ballot{
		{name: "an extension which cannot be decoded", flag: c, bad: true, ext: func(*Node) []byte { return []byte("garbage") }},
		{name: "an extension which is not compressed", flag: c, bad: true, ext: func(n *Node) []byte {
			bz, err := codec.NewDefaultVoteExtensionCodec().Encode(vetypes.OracleVoteExtension{Prices: map[uint64][]byte{n.pairID(pairA): n.delta(pairA, big.NewInt(e8))}})
			check(err)
			return bz
		}},
		{name: "a price of 34 bytes", flag: c, bad: true, ext: func(n *Node) []byte {
			return encodeExt(map[uint64][]byte{n.pairID(pairA): bigDelta(34)})
		}},
		{name: "a price for each pair and another", flag: c, bad: true, ext: func(n *Node) []byte { return manyPairs(n, pairCount+1) }},
	}
}

func bigDelta(size int) []byte {
	bz, err := new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(8*(size-1))), big.NewInt(1)).GobEncode()
	check(err)
	if len(bz) != size {
		panic("wrong size")
	}
	return bz
}

func manyPairs(n *Node, k int) []byte {
	out := map[uint64][]byte{}
	for i := 0; i < k; i++ {
		out[uint64(200+i)] = n.delta(pairB, big.NewInt(1))
	}
	return encodeExt(out)
}

// signing of extensions
type signed struct {
	key    *ed25519.PrivKey
	height int64
	round  int64
	chain  string
}

func (x signed) sign(ext []byte) []byte {
	var buf bytes.Buffer
	check(protoio.NewDelimitedWriter(&buf).WriteMsg(&cmtproto.CanonicalVoteExtension{Extension: ext, Height: x.height, Round: x.round, ChainId: x.chain}))
	sig, err := x.key.Sign(buf.Bytes())
	check(err)
	return sig
}

// commit of the last block by the ballots of the validators.
func (n *Node) commitOf(bs []ballot) (abci.ExtendedCommitInfo, abci.CommitInfo) {
	var ec abci.ExtendedCommitInfo
	var lc abci.CommitInfo
	for _, i := range voterOrder {
		b := bs[i]
		v := abci.Validator{Address: voterKey(i).PubKey().Address(), Power: voters[i].power}
		e := abci.ExtendedVoteInfo{Validator: v, BlockIdFlag: b.flag}
		if b.ext != nil {
			e.VoteExtension = b.ext(n)
			e.ExtensionSignature = signed{voterKey(i), n.h, 0, chainID}.sign(e.VoteExtension)
			if b.unsig {
				e.ExtensionSignature[0] ^= 1
			}
		}
		ec.Votes = append(ec.Votes, e)
		lc.Votes = append(lc.Votes, abci.VoteInfo{Validator: v, BlockIdFlag: b.flag})
	}
	return ec, lc
}

func encodeCommit(ec abci.ExtendedCommitInfo) []byte {
	bz, err := comCodec.Encode(ec)
	check(err)
	return bz
}

// process asks a node whether it accepts a proposal.
func (n *Node) process(d time.Duration, txs [][]byte, lc abci.CommitInfo) bool {
	res, err := n.ProcessProposal(&abci.RequestProcessProposal{Height: n.h + 1, Time: n.t.Add(d), Txs: txs, ProposedLastCommit: lc, ProposerAddress: proposer})
	if err != nil {
		Fail("votes:process", "a proposal is not processed: %v", err)
	}
	return res.Status == abci.ResponseProcessProposal_ACCEPT
}

// sum of the votes for the block.
func commitPower(bs []ballot, prune bool) (p int64) {
	for i, b := range bs {
		if b.flag == cmtproto.BlockIDFlagCommit && !(prune && b.bad) {
			p += voters[i].power
		}
	}
	return
}

// medians are the prices which follow from the ballots.
func medians(bs []ballot) map[connecttypes.CurrencyPair]int64 {
	out := map[connecttypes.CurrencyPair]int64{}
	for _, p := range pairs {
		var list [][2]int64 // price, stake
		total := int64(0)
		for i, b := range bs {
			if x, ok := b.prices[p]; ok && b.flag == cmtproto.BlockIDFlagCommit && !b.bad {
				list = append(list, [2]int64{x, voters[i].power * 1_000_000})
				total += voters[i].power * 1_000_000
			}
		}
		if total*1000 < allVotes*1_000_000*667 {
			continue
		}
		sort.Slice(list, func(i, j int) bool { return list[i][0] < list[j][0] })
		sum := int64(0)
		for _, x := range list {
			if sum += x[1]; 2*sum >= total {
				out[p] = x[0]
				break
			}
		}
	}
	return out
}

// setPrices is what the chain has to do with the prices.
func (n *Node) setPrices(ctx sdk.Context, m map[connecttypes.CurrencyPair]int64) {
	for _, p := range pairs {
		if x, ok := m[p]; ok {
			check(n.OracleKeeper.SetPriceForCurrencyPair(ctx, p, oracletypes.QuotePrice{Price: math.NewInt(x), BlockTimestamp: ctx.BlockTime(), BlockHeight: uint64(ctx.BlockHeight())}))
		}
	}
}

func ballotNames(bs []ballot) string {
	var out []string
	for i, b := range bs {
		out = append(out, fmt.Sprintf("%d votes: %s", voters[i].power, b.name))
	}
	return strings.Join(out, "; ")
}

// choose decodes the i-th assignment of ballots.
func choose(list []ballot, i int) (out []ballot) {
	for range voters {
		out = append(out, list[i%len(list)])
		i /= len(list)
	}
	return
}

// claims are what a block does with the prices: rewards of the block are divided by the values, and withdrawn.
func claims() []Op {
	return []Op{{K: "claim", U: "u1", S: "pool", ID: 1}, {K: "claim", U: "u2", S: "op", ID: 1}}
}

// executes compares what a block does with what it has to do.
func (n *Node) executes(what string, d time.Duration, head []byte, bs []ballot) {
	ops := claims()
	want := medians(bs)
	ref, out := n.expectAfter(d, []sdk.Msg{ops[0].Msg()}, func(ctx sdk.Context) { n.setPrices(ctx, want) })
	if !out.OK() {
		panic(out.String())
	}
	ref = ref.paid([]string{ops[0].U}, ops[0].U, nil)
	tx := n.signed(n.committedCtx(), []string{"u1", "u2"}, txSpec{Msgs: []sdk.Msg{ops[0].Msg()}, Gas: 5_000_000}, nil)
	res := n.Finalize(d, [][]byte{head, tx})
	if len(res.TxResults) != 2 || res.TxResults[0].Code == 0 || res.TxResults[1].Code != 0 {
		Fail("votes:results", "%s, the transactions of the block give %v", what, res.TxResults)
	}
	got := n.ledger(n, n.pending())
	for _, p := range pairs {
		old, now := n.price(n.committedCtx(), p), n.price(n.pending(), p)
		if x, ok := want[p]; ok {
			if now == nil || now.Cmp(big.NewInt(x)) != 0 {
				Fail("votes:price", "%s, the price of %s is %v instead of %d", what, p, now, x)
			}
		} else if !reflect.DeepEqual(old, now) {
			Fail("votes:price", "%s, the price of %s becomes %v instead of staying %v", what, p, now, old)
		}
	}
	if x := got.diff(ref); x != "" {
		Fail("votes:effect", "%s, %s", what, x)
	}
	n.Forget()
}

// votes: every way in which the validators may vote.
func (w *nodeWorld) votes(r *Run, list []ballot) {
	pool := newPool(w)
	defer pool.close()
	r.ForAll("ballots of all validators", power(len(list), len(voters)), func(i int) string { return ballotNames(choose(list, i)) }, func(i int) {
		pool.with(func(n *Node) {
			bs := choose(list, i)
			d := 5 * time.Second
			ec, lc := n.commitOf(bs)
			head := encodeCommit(ec)
			want := commitPower(bs, false) >= needed
			if got := n.process(d, [][]byte{head}, lc); got != want {
				Fail("votes:accept", "the proposal with (%s) is accepted: %v", ballotNames(bs), got)
			}
			r.Count(fmt.Sprintf("proposal:%v", want))
			if !want {
				return
			}
			n.executes("after ("+ballotNames(bs)+")", d, head, bs)
			r.Count(fmt.Sprintf("prices:%d", len(medians(bs))))
		})
	})
}

// prepared: what a node proposes is accepted, and counts the valid ballots only.
func (w *nodeWorld) prepared(r *Run, list []ballot) {
	list = append(append([]ballot{}, list...), wrongBallots()...)
	list = append(list, func() ballot {
		b := forPrices(vote{pairA: 9 * e8})
		b.unsig = true
		b.name += ", wrongly signed"
		return b
	}())
	pool := newPool(w)
	defer pool.close()
	r.ForAll("proposals prepared from all ballots", power(len(list), len(voters)), func(i int) string { return ballotNames(choose(list, i)) }, func(i int) {
		pool.with(func(n *Node) {
			bs := choose(list, i)
			d := 5 * time.Second
			ec, lc := n.commitOf(bs)
			want := commitPower(bs, true) >= needed
			for _, b := range bs {
				want = want && !b.unsig
			}
			tx := n.signed(n.committedCtx(), []string{"u1", "u2"}, txSpec{Msgs: []sdk.Msg{claims()[0].Msg()}, Gas: 5_000_000}, nil)
			// not pruned, it is not acceptable
			raw := n.process(d, [][]byte{encodeCommit(ec)}, lc)
			if pruned := commitPower(bs, false) == commitPower(bs, true); raw != (want && pruned) {
				Fail("votes:raw", "the proposal with (%s) is accepted: %v", ballotNames(bs), raw)
			}
			res, err := n.PrepareProposal(&abci.RequestPrepareProposal{Height: n.h + 1, Time: n.t.Add(d), Txs: [][]byte{tx}, MaxTxBytes: 1 << 20, LocalLastCommit: ec, ProposerAddress: proposer})
			if err != nil {
				Fail("votes:prepare", "no proposal is prepared from (%s): %v", ballotNames(bs), err)
			}
			if got := n.process(d, res.Txs, lc); got != want {
				Fail("votes:prepared", "the proposal prepared from (%s) is accepted: %v", ballotNames(bs), got)
			}
			r.Count(fmt.Sprintf("prepared:%v", want))
			if !want {
				return
			}
			if len(res.Txs) != 2 || !bytes.Equal(res.Txs[1], tx) {
				Fail("votes:prepared", "the proposal prepared from (%s) has %d transactions", ballotNames(bs), len(res.Txs))
			}
			n.executes("prepared from ("+ballotNames(bs)+")", d, res.Txs[0], bs)
		})
	})
}

// fault is something wrong with a commit, at the i-th vote.
type fault struct {
	name string
	do   func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool // whether it has to be accepted
}

func voteFaults() []fault {
	resign := func(f func(n *Node, x *signed)) func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
		return func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			x := signed{voterKey(voterOrder[i]), n.h, 0, chainID}
			f(n, &x)
			ec.Votes[i].ExtensionSignature = x.sign(ec.Votes[i].VoteExtension)
			return false
		}
	}
	with := func(ok bool, ext func(n *Node) []byte) func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
		return func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			e := ext(n)
			ec.Votes[i].VoteExtension = e
			ec.Votes[i].ExtensionSignature = signed{voterKey(voterOrder[i]), n.h, 0, chainID}.sign(e)
			return ok
		}
	}
	type F = func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool
	out := []fault{
		{"nothing wrong", resign(func(*Node, *signed) {})},
		{"signed by another validator", resign(func(n *Node, x *signed) { x.key = ed25519.GenPrivKeyFromSecret([]byte("mallory")) })},
		{"signed for the next block", resign(func(n *Node, x *signed) { x.height++ })},
		{"signed for the block before", resign(func(n *Node, x *signed) { x.height-- })},
		{"signed for another round", resign(func(n *Node, x *signed) { x.round++ })},
		{"signed for another chain", resign(func(n *Node, x *signed) { x.chain = "mc-2" })},
		{"changed after signing", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].VoteExtension = encodeExt(map[uint64][]byte{n.pairID(pairA): n.delta(pairA, big.NewInt(9*e8))})
			return false
		})},
		{"without prices after signing", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].VoteExtension = nil
			return false
		})},
		{"not signed", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].ExtensionSignature = nil
			return false
		})},
		{"signed with zeros", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].ExtensionSignature = make([]byte, 64)
			return false
		})},
		{"neither signed nor with prices", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].ExtensionSignature, ec.Votes[i].VoteExtension = nil, nil
			return false
		})},
		{"with more votes", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].Validator.Power++
			return false
		})},
		{"with fewer votes", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].Validator.Power--
			return false
		})},
		{"of someone else", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			k := ed25519.GenPrivKeyFromSecret([]byte("mallory"))
			ec.Votes[i].Validator.Address = k.PubKey().Address()
			ec.Votes[i].ExtensionSignature = signed{k, n.h, 0, chainID}.sign(ec.Votes[i].VoteExtension)
			return false
		})},
		{"left out", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes = append(ec.Votes[:i:i], ec.Votes[i+1:]...)
			return false
		})},
		{"twice", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes = append(ec.Votes[:i+1:i+1], ec.Votes[i:]...)
			return false
		})},
		{"twice instead of the next", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[(i+1)%len(ec.Votes)] = ec.Votes[i]
			return false
		})},
		{"exchanged with the next", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			j := (i + 1) % len(ec.Votes)
			ec.Votes[i], ec.Votes[j] = ec.Votes[j], ec.Votes[i]
			return false
		})},
		{"marked as for no block", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].BlockIdFlag = cmtproto.BlockIDFlagNil
			return false
		})},
		{"marked as absent with its prices", F(func(n *Node, ec *abci.ExtendedCommitInfo, _ *abci.CommitInfo, i int) bool {
			ec.Votes[i].BlockIdFlag = cmtproto.BlockIDFlagAbsent
			return false
		})},
		{"absent in the commit", F(func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
			lc.Votes[i].BlockIdFlag = cmtproto.BlockIDFlagAbsent
			return false
		})},
		{"for no block in the commit", F(func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
			lc.Votes[i].BlockIdFlag = cmtproto.BlockIDFlagNil
			return false
		})},
		{"counted in another round", F(func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
			ec.Round++
			return false
		})},
		{"removed by the proposer", F(func(n *Node, ec *abci.ExtendedCommitInfo, lc *abci.CommitInfo, i int) bool {
			v := &ec.Votes[i]
			v.BlockIdFlag, v.VoteExtension, v.ExtensionSignature = cmtproto.BlockIDFlagAbsent, nil, nil
			return allVotes-v.Validator.Power >= needed
		})},
		{"with a price of 33 bytes", with(true, func(n *Node) []byte { return encodeExt(map[uint64][]byte{n.pairID(pairA): bigDelta(33)}) })},
		{"with as many prices as pairs", with(true, func(n *Node) []byte { return manyPairs(n, pairCount) })},
	}
	out[0].do = F(func(*Node, *abci.ExtendedCommitInfo, *abci.CommitInfo, int) bool { return true })
	for _, b := range wrongBallots() {
		out = append(out, fault{"with " + b.name, with(false, b.ext)})
	}
	return out
}

// refusals: a proposal in which anything is wrong with the votes is refused.
func (w *nodeWorld) refusals(r *Run) {
	fs := voteFaults()
	all := ballots()
	bases := [][]ballot{{all[0], all[0], all[0], all[0]}, {all[0], all[3], all[5], all[4]}, {all[2], all[2], all[2], all[2]}}
	heads := []string{"", "none", "no transactions", "garbage", "empty", "not compressed", "after a transaction", "of the next round"}
	pool := newPool(w)
	defer pool.close()
	per := len(fs)*len(voters) + len(heads)
	desc := func(i int) string {
		b := ballotNames(bases[i/per])
		if j := i % per; j < len(fs)*len(voters) {
			return fmt.Sprintf("%s, vote %d %s", b, j%len(voters)+1, fs[j/len(voters)].name)
		} else {
			return b + ", commit: " + heads[j-len(fs)*len(voters)]
		}
	}
	r.ForAll("faults of a proposal", per*len(bases), desc, func(i int) {
		pool.with(func(n *Node) {
			d := 5 * time.Second
			ec, lc := n.commitOf(bases[i/per])
			j := i % per
			if j < len(fs)*len(voters) {
				before := fmt.Sprint(ec.String(), lc.String())
				want := fs[j/len(voters)].do(n, &ec, &lc, j%len(voters))
				if before == fmt.Sprint(ec.String(), lc.String()) && j/len(voters) != 0 {
					return // it makes no difference
				}
				if got := n.process(d, [][]byte{encodeCommit(ec)}, lc); got != want {
					Fail("votes:fault:"+fs[j/len(voters)].name, "the proposal (%s) is accepted: %v", desc(i), got)
				}
				r.Count(fmt.Sprintf("fault:%v", want))
				return
			}
			tx := n.signed(n.committedCtx(), []string{"u1"}, txSpec{Msgs: []sdk.Msg{claims()[0].Msg()}, Gas: 5_000_000}, nil)
			head, want := encodeCommit(ec), false
			txs := [][]byte{head, tx}
			raw, err := codec.NewDefaultExtendedCommitCodec().Encode(ec)
			check(err)
			switch heads[j-len(fs)*len(voters)] {
			case "":
				want = true
			case "none":
				txs = [][]byte{tx}
			case "no transactions":
				txs = nil
			case "garbage":
				txs = [][]byte{[]byte("garbage"), tx}
			case "empty":
				txs = [][]byte{nil, tx}
			case "not compressed":
				txs = [][]byte{raw, tx}
			case "after a transaction":
				txs = [][]byte{tx, head}
			case "of the next round":
				lc.Round++
			}
			if got := n.process(d, txs, lc); got != want {
				Fail("votes:head", "the proposal (%s) is accepted: %v", desc(i), got)
			}
			r.Count(fmt.Sprintf("fault:%v", want))
		})
	})
}

// verified: a node accepts the vote of another exactly if its extension can be used.
func (w *nodeWorld) verified(r *Run) {
	list := append(ballots(), wrongBallots()...)
	list = append(list, ballot{name: "a price of 33 bytes", ext: func(n *Node) []byte { return encodeExt(map[uint64][]byte{n.pairID(pairA): bigDelta(33)}) }},
		ballot{name: "as many prices as pairs", ext: func(n *Node) []byte { return manyPairs(n, pairCount) }})
	pool := newPool(w)
	defer pool.close()
	r.ForAll("votes of others", len(list)*len(voters), func(i int) string { return list[i/len(voters)].name }, func(i int) {
		pool.with(func(n *Node) {
			b := list[i/len(voters)]
			var ext []byte
			if b.ext != nil {
				ext = b.ext(n)
			}
			res, err := n.VerifyVoteExtension(&abci.RequestVerifyVoteExtension{Height: n.h + 1, Hash: []byte("block"), ValidatorAddress: voterKey(i % len(voters)).PubKey().Address(), VoteExtension: ext})
			if err != nil {
				Fail("votes:verify", "the vote for (%s) is not verified: %v", b.name, err)
			}
			if got := res.Status == abci.ResponseVerifyVoteExtension_ACCEPT; got == b.bad {
				Fail("votes:verify", "the vote for (%s) is accepted: %v", b.name, got)
			}
			r.Count(fmt.Sprintf("vote:%v", !b.bad))
		})
	})
}

// sizes: a proposal keeps to the size it may have.
func (w *nodeWorld) sizes(r *Run) {
	pool := newPool(w)
	defer pool.close()
	all := ballots()
	bs := []ballot{all[0], all[5], all[3], all[4]}
	r.ForAll("sizes of a proposal", 2000, func(i int) string { return fmt.Sprintf("%d bytes", i) }, func(i int) {
		pool.with(func(n *Node) {
			d := 5 * time.Second
			ec, lc := n.commitOf(bs)
			head := encodeCommit(ec)
			var txs [][]byte
			for _, o := range claims() {
				txs = append(txs, n.signed(n.committedCtx(), []string{"u1", "u2"}, txSpec{Msgs: []sdk.Msg{o.Msg()}, Gas: 5_000_000}, nil))
			}
			if len(head)+len(txs[0])+len(txs[1]) > 1900 {
				panic("too small")
			}
			res, err := n.PrepareProposal(&abci.RequestPrepareProposal{Height: n.h + 1, Time: n.t.Add(d), Txs: txs, MaxTxBytes: int64(i), LocalLastCommit: ec, ProposerAddress: proposer})
			if err != nil {
				Fail("votes:size", "no proposal of %d bytes is prepared: %v", i, err)
			}
			if i < len(head) {
				r.Count("size:none")
				return // there is no room for the votes
			}
			want := [][]byte{head}
			left := i - len(head)
			for _, tx := range txs {
				if left -= len(tx); left < 0 {
					break
				}
				want = append(want, tx)
			}
			if !reflect.DeepEqual(res.Txs, want) {
				Fail("votes:size", "the proposal of at most %d bytes has %d transactions instead of %d", i, len(res.Txs), len(want))
			}
			if !n.process(d, res.Txs, lc) {
				Fail("votes:size", "the proposal of at most %d bytes is refused", i)
			}
			r.Count(fmt.Sprintf("size:%d", len(want)))
		})
	})
}

// histories of blocks with votes: the prices follow, whatever else a node is asked in between.
func (w *nodeWorld) priceHistories(r *Run, depth int) {
	all := ballots()
	list := [][]ballot{
		{all[0], all[0], all[0], all[0]}, {all[3], all[3], all[3], all[3]}, {all[5], all[5], all[5], all[2]}, {all[4], all[4], all[4], all[4]},
		{all[1], all[0], all[3], all[4]}, {all[9], all[7], all[8], all[9]},
	}
	if r.Thorough() {
		list = append(list, []ballot{all[8], all[3], all[0], all[5]}, []ballot{all[2], all[2], all[2], all[2]})
	}
	desc := func(i int) string {
		var out []string
		for k := 0; k < depth; k++ {
			out = append(out, "("+ballotNames(list[i%len(list)])+")")
			i /= len(list)
		}
		return strings.Join(out, ", then ")
	}
	r.ForAll("prices of a history", power(len(list), depth), desc, func(i int) {
		a, b := NewNode(w.gen, w.t, w.opts), NewNode(w.gen, w.t, w.opts)
		defer a.Close()
		defer b.Close()
		what := desc(i)
		for k := 0; k < depth; k++ {
			d := time.Duration(3+k) * time.Second
			bs := list[i%len(list)]
			i /= len(list)
			ec, lc := a.commitOf(bs)
			head := encodeCommit(ec)
			// another proposal of the same height, which is not decided
			oc, olc := b.commitOf(list[(i+1)%len(list)])
			other := encodeCommit(oc)
			b.process(d, [][]byte{other}, olc)
			_, err := b.ExtendVote(context.Background(), &abci.RequestExtendVote{Height: b.h + 1, Hash: []byte("other"), Txs: [][]byte{other}, Time: b.t.Add(d), ProposedLastCommit: olc})
			check(err)
			for _, v := range oc.Votes {
				_, err := b.VerifyVoteExtension(&abci.RequestVerifyVoteExtension{Height: b.h + 1, Hash: []byte("other"), ValidatorAddress: v.Validator.Address, VoteExtension: v.VoteExtension})
				check(err)
			}
			_, err = b.PrepareProposal(&abci.RequestPrepareProposal{Height: b.h + 1, Time: b.t.Add(d), MaxTxBytes: 1 << 20, LocalLastCommit: oc, ProposerAddress: proposer})
			check(err)
			if commitPower(bs, false) >= needed != b.process(d, [][]byte{head}, lc) {
				Fail("history:accept", "after %s, the proposal is judged wrongly", what)
			}
			a.executes("after "+what, d, head, bs)
			ra, rb := a.Finalize(d, [][]byte{head}), b.Finalize(d, [][]byte{head})
			if !bytes.Equal(ra.AppHash, rb.AppHash) {
				Fail("history:hash", "after %s, two nodes disagree: %v", what, diffStores(a.dumpStores(a.pending()), b.dumpStores(b.pending())))
			}
			a.commit(d)
			b.commit(d)
			if k%2 == 0 {
				b.Restart()
			}
		}
		r.Count("history")
	})
}

// sidecar serves prices to nodes.
type sidecar struct {
	oracleserver.UnimplementedOracleServer
	prices map[string]string
}

func (s *sidecar) Prices(context.Context, *oracleserver.QueryPricesRequest) (*oracleserver.QueryPricesResponse, error) {
	return &oracleserver.QueryPricesResponse{Prices: s.prices, Timestamp: time.Now()}, nil
}

// serve starts an oracle and returns how a node uses it.
func (s *sidecar) serve() (*oracleconfig.AppConfig, func()) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	g := grpc.NewServer()
	oracleserver.RegisterOracleServer(g, s)
	go func() { _ = g.Serve(l) }()
	return &oracleconfig.AppConfig{Enabled: true, OracleAddress: l.Addr().String(), ClientTimeout: 30 * time.Second, PriceTTL: time.Minute, Interval: 20 * time.Millisecond}, g.Stop
}

// own: a node with an oracle votes for exactly the prices of its oracle.
func (w *nodeWorld) own(r *Run, depth int) {
	all := ballots()
	list := [][]ballot{{all[0], all[0], all[0], all[0]}, {all[3], all[3], all[3], all[3]}, {all[5], all[5], all[5], all[5]}, {all[4], all[4], all[4], all[4]}, {all[2], all[2], all[2], all[2]}}
	served := []map[string]string{
		{"TKA/USD": "300000000", "NEW/USD": "5", "TKB/USD": "0"},
		{"TKA/USD": "1", "OTHER/USD": "7"},
		{"TKA/USD": "-1", "TKB/USD": "12345678901234567890123456789"},
		{},
	}
	for k, m := range served {
		cfg, stop := (&sidecar{prices: m}).serve()
		per := power(len(list), depth)
		desc := func(i int) string { return fmt.Sprintf("the oracle gives %v, history %d", m, i) }
		r.ForAll(fmt.Sprintf("votes of a node with oracle %d", k+1), per, desc, func(i int) {
			o := w.opts
			o.oracle = cfg
			n := NewNode(w.gen, w.t, o)
			defer n.Close()
			defer func() { _ = n.MilkyWayApp.Close() }()
			vote := func(txs [][]byte) []byte {
				res, err := n.ExtendVote(context.Background(), &abci.RequestExtendVote{Height: n.h + 1, Hash: []byte("block"), Txs: txs, Time: n.t})
				if err != nil {
					Fail("own:error", "no vote is extended: %v", err)
				}
				return res.VoteExtension
			}
			ready := false
			for step := 0; step < depth; step++ {
				d := 5 * time.Second
				bs := list[i%len(list)]
				others := list[(i/len(list)+1)%len(list)]
				i /= len(list)
				for round, x := range [][]ballot{others, bs} {
					ec, _ := n.commitOf(x)
					head := encodeCommit(ec)
					ext := vote([][]byte{head})
					for wait := 0; len(ext) == 0 && !ready && wait < 3000; wait++ {
						time.Sleep(10 * time.Millisecond)
						ext = vote([][]byte{head})
					}
					if len(ext) == 0 {
						Fail("own:empty", "the node does not vote, its oracle gives %v", m)
					}
					ready = true
					dec, err := extCodec.Decode(ext)
					if err != nil {
						Fail("own:decode", "the vote %s of the node cannot be decoded: %v", hex.EncodeToString(ext), err)
					}
					now := medians(x)
					want := map[uint64][]byte{}
					for _, p := range pairs {
						v, ok := m[p.String()]
						if !ok || v[0] == '-' {
							continue
						}
						x, _ := new(big.Int).SetString(v, 10)
						if q, ok := now[p]; ok {
							x.Sub(x, big.NewInt(q))
						} else if old := n.price(n.committedCtx(), p); old != nil {
							x.Sub(x, old)
						}
						bz, err := x.GobEncode()
						check(err)
						want[n.pairID(p)] = bz
					}
					if len(dec.Prices) != len(want) || len(want) > 0 && !reflect.DeepEqual(dec.Prices, want) {
						Fail(fmt.Sprintf("own:prices:round %d", round), "in round %d of block %d the oracle gives %v, but the node votes for %v instead of %v", round, n.h+1, m, dec.Prices, want)
					}
					r.Count(fmt.Sprintf("own:%d", len(want)))
				}
				ec, _ := n.commitOf(bs)
				n.Block(d, [][]byte{encodeCommit(ec)})
			}
		})
		stop()
	}
	// without an oracle, a node votes for no prices
	r.ForAll("votes of a node without oracle", 1, func(int) string { return "no oracle" }, func(int) {
		n := NewNode(w.gen, w.t, w.opts)
		defer n.Close()
		ec, _ := n.commitOf(list[0])
		res, err := n.ExtendVote(context.Background(), &abci.RequestExtendVote{Height: n.h + 1, Hash: []byte("block"), Txs: [][]byte{encodeCommit(ec)}, Time: n.t})
		if err != nil || len(res.VoteExtension) != 0 {
			Fail("own:none", "without an oracle the node votes %v (%v)", res, err)
		}
		r.Count("own:none")
	})
}

func init() {
	register(&Property{
		ID: "C41", Title: "Prices change only by what two thirds of the stake vote for",
		Need: []string{"proposal:true", "proposal:false", "prices:0", "prices:1", "prices:2", "prepared:true", "prepared:false", "fault:true", "fault:false", "vote:true", "vote:false",
			"size:none", "size:1", "size:2", "size:3", "history", "own:0", "own:1", "own:3", "own:none"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 10
				return
			}
			w := r.votesWorld()
			all := ballots()
			w.refusals(r)
			w.verified(r)
			w.sizes(r)
			w.own(r, r.Pick(2, 3))
			w.priceHistories(r, r.Pick(2, 3))
			w.votes(r, all[:r.Pick(7, 10)])
			w.prepared(r, []ballot{all[0], all[1], all[3]}[:r.Pick(2, 3)])
		},
	})
}
