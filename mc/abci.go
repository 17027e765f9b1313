package main

import (
	"context"
	"cosmossdk.io/store/snapshots"
	snapshottypes "cosmossdk.io/store/snapshots/types"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"sync"
	"time"
	"unsafe"

	"cosmossdk.io/log"
	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
	wasmvm "github.com/CosmWasm/wasmvm/v2"
	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	"github.com/cosmos/cosmos-sdk/baseapp"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	"github.com/cosmos/cosmos-sdk/server"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	transfertypes "github.com/cosmos/ibc-go/v8/modules/apps/transfer/types"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
	feemarkettypes "github.com/skip-mev/feemarket/x/feemarket/types"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
)

// A node: the application behind its ABCI interface, over a database that survives it.
type Node struct {
	*App
	db     dbm.DB
	dir    string
	h      int64
	t      time.Time
	oracle oracleconfig.AppConfig
	own    *wasmvm.VM // executes the contracts of this node
	snaps  *snapshots.Store
}

// nodeOpts says how a chain differs from the usual one.
type nodeOpts struct {
	votes  bool                    // the votes carry prices
	oracle *oracleconfig.AppConfig // the node has an oracle
	own    bool                    // the node has contracts, and takes and restores snapshots
}

const chainID = "mc-1"

var (
	vmOnce sync.Once
	vm     *wasmvm.VM
)

// engine is the virtual machine of contracts shared by the nodes (no contract is stored on them).
func engine() *wasmvm.VM {
	vmOnce.Do(func() {
		dir, err := os.MkdirTemp("", "mc-app-")
		check(err)
		vm, err = wasmvm.NewVM(dir, []string{"iterator", "staking", "stargate"}, 32, false, 10)
		check(err)
	})
	return vm
}

func (n *Node) start() {
	opts := simtestutil.AppOptionsMap{}
	opts[server.FlagInvCheckPeriod] = 0
	opts[server.FlagMinGasPrices] = "0uatom"
	e, base := engine(), []func(*baseapp.BaseApp){baseapp.SetChainID(chainID)}
	if n.own != nil {
		e = n.own
	}
	if n.snaps != nil {
		base = append(base, baseapp.SetSnapshot(n.snaps, snapshottypes.NewSnapshotOptions(0, 0)))
	}
	n.App = &App{milkyway.NewMilkyWayApp(log.NewNopLogger(), n.db, nil, true, map[int64]bool{}, n.dir,
		n.oracle, opts, []wasmkeeper.Option{wasmkeeper.WithWasmEngine(e)}, base...), n.dir}
}

// Restart stops the node, losing what it has in memory, and starts it again on its database.
func (n *Node) Restart() {
	old := n.App.LastBlockHeight()
	if n.own != nil {
		n.own.Cleanup()
		n.machine()
	}
	n.start()
	if n.App.LastBlockHeight() != old {
		Fail("restart:height", "the node restarts at height %d instead of %d", n.App.LastBlockHeight(), old)
	}
}

// NewNode starts a chain from a genesis state. The first block is empty.
func NewNode(gen map[string]json.RawMessage, t time.Time, o ...nodeOpts) *Node {
	return NewNodeOn(dbm.NewMemDB(), gen, t, o...)
}

func NewNodeOn(db dbm.DB, gen map[string]json.RawMessage, t time.Time, o ...nodeOpts) *Node {
	dir, err := os.MkdirTemp("", "mc-app-")
	check(err)
	n := &Node{db: db, dir: dir, t: t, oracle: oracleconfig.NewDefaultAppConfig()}
	cp := tmtypes.DefaultConsensusParams().ToProto()
	for _, x := range o {
		if x.votes {
			cp.Abci = &tmproto.ABCIParams{VoteExtensionsEnableHeight: 1}
		}
		if x.oracle != nil {
			n.oracle = *x.oracle
		}
		if x.own {
			n.equip()
		}
	}
	n.start()
	bz, err := json.Marshal(gen)
	check(err)
	if _, err := n.InitChain(&abci.RequestInitChain{Time: t, ChainId: chainID, ConsensusParams: &cp, AppStateBytes: bz, InitialHeight: 1}); err != nil {
		Fail("abci:init", "the chain does not start: %v", err)
	}
	n.Block(0, nil)
	return n
}

func (n *Node) machine() {
	var err error
	n.own, err = wasmvm.NewVM(filepath.Join(n.dir, "wasm"), wasmkeeper.BuiltInCapabilities(), 32, false, 10)
	check(err)
}

// equip gives a node its own virtual machine of contracts and a place for snapshots.
func (n *Node) equip() {
	n.machine()
	var err error
	n.snaps, err = snapshots.NewStore(dbm.NewMemDB(), filepath.Join(n.dir, "snapshots"))
	check(err)
}

// Close forgets the node.
func (n *Node) Close() {
	n.App.Close()
	if n.own != nil {
		n.own.Cleanup()
	}
}

// Finalize executes the next block without committing it.
func (n *Node) Finalize(d time.Duration, txs [][]byte) *abci.ResponseFinalizeBlock {
	res, err := n.FinalizeBlock(&abci.RequestFinalizeBlock{Height: n.h + 1, Time: n.t.Add(d), Txs: txs, Hash: []byte(fmt.Sprintf("block %d", n.h+1)), ProposerAddress: proposer})
	if err != nil {
		Fail("abci:finalize", "block %d is not executed: %v", n.h+1, err)
	}
	return res
}

// Commit makes the last executed block durable.
func (n *Node) commit(d time.Duration) {
	if _, err := n.Commit(); err != nil {
		Fail("abci:commit", "block %d is not committed: %v", n.h+1, err)
	}
	n.h, n.t = n.h+1, n.t.Add(d)
}

func (n *Node) Block(d time.Duration, txs [][]byte) *abci.ResponseFinalizeBlock {
	res := n.Finalize(d, txs)
	n.commit(d)
	return res
}

// Forget drops a block which has been executed but not committed, as a new proposal does.
func (n *Node) Forget() {
	check(n.CommitMultiStore().LoadLatestVersion())
	if _, err := n.ProcessProposal(&abci.RequestProcessProposal{Height: n.h + 1, Time: n.t}); err != nil {
		Fail("abci:process", "a proposal fails: %v", err)
	}
}

// pending is the state of the block executed and not yet committed.
func (n *Node) pending() sdk.Context {
	st := reflect.ValueOf(n.BaseApp).Elem().FieldByName("finalizeBlockState")
	if st.IsNil() {
		panic("no block is being executed")
	}
	ms := st.Elem().FieldByName("ms")
	v := reflect.NewAt(ms.Type(), unsafe.Pointer(ms.UnsafeAddr())).Elem().Interface().(storetypes.MultiStore)
	return sdk.NewContext(v.CacheMultiStore(), tmheader(n.h+1, n.t), false, log.NewNopLogger())
}

// proposer proposes every block.
var proposer = ed25519.GenPrivKeyFromSecret([]byte("validator")).PubKey().Address()

// committedCtx is the last committed state.
func (n *Node) committedCtx() sdk.Context {
	return sdk.NewContext(n.CommitMultiStore().CacheMultiStore(), tmheader(n.h, n.t), false, log.NewNopLogger())
}

// dumpStores lists the content of the stores that make up the application hash.
func (n *Node) dumpStores(ctx sdk.Context) map[string]map[string]string {
	out := map[string]map[string]string{}
	for name, key := range n.GetKVStoreKey() {
		m := map[string]string{}
		it := ctx.MultiStore().GetKVStore(key).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			if name == stakingtypes.StoreKey && it.Key()[0] == stakingtypes.HistoricalInfoKey[0] {
				continue // the header of the block
			}
			m[string(it.Key())] = string(it.Value())
		}
		check(it.Close())
		out[name] = m
	}
	return out
}

// diffStores names the stores that differ and one key of the first.
func diffStores(a, b map[string]map[string]string, skip ...string) (out []string) {
	for _, n := range sortedKeys(a) {
		if in(skip, n) || reflect.DeepEqual(a[n], b[n]) {
			continue
		}
		what := n
		for _, k := range sortedKeys(a[n]) {
			if a[n][k] != b[n][k] {
				what += fmt.Sprintf(" (%q: %x, %x)", k, a[n][k], b[n][k])
				break
			}
		}
		for _, k := range sortedKeys(b[n]) {
			if _, ok := a[n][k]; !ok {
				what += fmt.Sprintf(" (%q: none, %x)", k, b[n][k])
				break
			}
		}
		out = append(out, what)
	}
	return
}

// exportAll is the genesis state of the whole application in a state of the checker.
func (a *App) exportAll(s *State) map[string]json.RawMessage {
	out := map[string]json.RawMessage{}
	mm := a.manager()
	ctx := s.Probe()
	for _, n := range mm.OrderExportGenesis { // one after the other: the stores of the checker are not for concurrent use
		switch m := mm.Modules[n].(type) {
		case module.HasGenesis:
			out[n] = m.ExportGenesis(ctx, a.AppCodec())
		case module.HasABCIGenesis:
			out[n] = m.ExportGenesis(ctx, a.AppCodec())
		}
	}
	return out
}

// withFees sets the fee market.
func (a *App) withFees(g map[string]json.RawMessage, f func(*feemarkettypes.GenesisState)) {
	var fm feemarkettypes.GenesisState
	a.AppCodec().MustUnmarshalJSON(g[feemarkettypes.ModuleName], &fm)
	f(&fm)
	g[feemarkettypes.ModuleName] = a.AppCodec().MustMarshalJSON(&fm)
}

// noEscrow: there is no channel in the exported state, hence nothing is in its escrow.
func (a *App) noEscrow(g map[string]json.RawMessage) {
	var tr transfertypes.GenesisState
	a.AppCodec().MustUnmarshalJSON(g[transfertypes.ModuleName], &tr)
	tr.TotalEscrowed = nil
	g[transfertypes.ModuleName] = a.AppCodec().MustMarshalJSON(&tr)
}

func noFees(fm *feemarkettypes.GenesisState) {
	fm.Params.Enabled = false
	fm.Params.MinBaseGasPrice = math.LegacyZeroDec()
}

// txSpec is a transaction to be signed.
type txSpec struct {
	Msgs []sdk.Msg
	Fee  sdk.Coins
	Gas  uint64
	Memo string
}

// signed builds a transaction signed by the signers of its messages, with the sequences of the state.
func (n *Node) signed(ctx sdk.Context, names []string, t txSpec, bump map[string]uint64) []byte {
	keys := map[string]cryptotypes.PrivKey{}
	for _, u := range names {
		keys[bech(u)] = key(u)
	}
	var privs []cryptotypes.PrivKey
	var nums, seqs []uint64
	seen := map[string]bool{}
	for _, m := range t.Msgs {
		ss, _, err := n.AppCodec().GetMsgV1Signers(m)
		check(err)
		for _, b := range ss {
			a := sdk.AccAddress(b).String()
			if seen[a] {
				continue
			}
			seen[a] = true
			if keys[a] == nil {
				panic("no key for " + a)
			}
			acc := n.AccountKeeper.GetAccount(ctx, b)
			if acc == nil {
				panic("no account " + a)
			}
			privs, nums, seqs = append(privs, keys[a]), append(nums, acc.GetAccountNumber()), append(seqs, acc.GetSequence()+bump[a])
			if bump != nil {
				bump[a]++
			}
		}
	}
	tx, err := simtestutil.GenSignedMockTx(rand.New(rand.NewSource(1)), n.GetTxConfig(), t.Msgs, t.Fee, t.Gas, chainID, nums, seqs, privs...)
	check(err)
	bz, err := n.GetTxConfig().TxEncoder()(tx)
	check(err)
	return bz
}

var (
	_ = context.Background
	_ = sort.Strings
	_ = wasmtypes.ModuleName
)
