package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	wasmvmtypes "github.com/CosmWasm/wasmvm/v2/types"
	"strings"
	"sync"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// nodeWorld is a genesis state, from which nodes are started, and the operations of its users.
type nodeWorld struct {
	name  string
	users []string
	gen   map[string]json.RawMessage
	t     time.Time
	ops   []Op
	opts  nodeOpts
}

var worlds sync.Map

// world makes the state of a scenario the genesis of chains.
func (r *Run) world(c *RMConf, edit func(app *App, g map[string]json.RawMessage)) *nodeWorld {
	if w, ok := worlds.Load(c.Name); ok {
		return w.(*nodeWorld)
	}
	app := NewApp()
	defer app.Close()
	s := c.root(r, app)
	w := &nodeWorld{name: c.Name, users: sortedKeys(c.Bal), gen: app.exportAll(s), t: s.T}
	if edit != nil {
		edit(app, w.gen)
	}
	for _, o := range c.Ops {
		if o.K != "price" && o.K != "ibc" && o.U != "gov" {
			w.ops = append(w.ops, o)
		}
	}
	worlds.Store(c.Name, w)
	return w
}

// txs of an operation, signed on the last committed state.
func (w *nodeWorld) txs(n *Node, o Op) [][]byte {
	if o.K == "block" {
		return nil
	}
	return [][]byte{n.signed(n.committedCtx(), w.users, txSpec{Msgs: []sdk.Msg{o.Msg()}, Gas: 5_000_000}, nil)}
}

// outcome is what the other nodes have to agree on.
func outcome(res *abci.ResponseFinalizeBlock) string {
	var b strings.Builder
	for _, t := range res.TxResults {
		fmt.Fprintf(&b, "code %d data %x gas %d/%d events %d; ", t.Code, t.Data, t.GasUsed, t.GasWanted, len(t.Events))
	}
	fmt.Fprintf(&b, "events %d validators %v hash %x", len(res.Events), res.ValidatorUpdates, res.AppHash)
	return b.String()
}

// history decodes the i-th sequence of operations.
func (w *nodeWorld) history(i, depth int) (out []Op) {
	for k := 0; k < depth; k++ {
		out = append(out, w.ops[i%len(w.ops)])
		i /= len(w.ops)
	}
	return
}

func power(n, k int) int {
	out := 1
	for ; k > 0; k-- {
		out *= n
	}
	return out
}

// noise is what a node serves besides blocks: checks of transactions, simulations, proposals, queries.
func (n *Node) noise(txs [][]byte, d time.Duration) {
	for _, q := range []string{"/milkyway.restaking.v1.Query/Params", "/milkyway.rewards.v1.Query/Params", "/milkyway.services.v1.Query/Services", "/milkyway.operators.v1.Query/Operators",
		"/milkyway.pools.v1.Query/Pools", "/milkyway.assets.v1.Query/Assets", "/milkyway.liquidvesting.v1.Query/Params", "/milkyway.rewards.v1.Query/RewardsPlans"} {
		res, err := n.Query(nil, &abci.RequestQuery{Path: q}) //nolint
		if err != nil || res.Code != 0 {
			Fail("abci:query", "the query %s fails: %v %v", q, err, res)
		}
	}
	if n.own != nil {
		for _, path := range sortedKeys(granted) {
			_, _ = n.contractQuery(n.committedCtx(), wasmvmtypes.QueryRequest{Stargate: &wasmvmtypes.StargateQuery{Path: path}})
		}
	}
	for _, tx := range txs {
		_, err := n.CheckTx(&abci.RequestCheckTx{Tx: tx})
		check(err)
		_, err = n.CheckTx(&abci.RequestCheckTx{Tx: tx, Type: abci.CheckTxType_Recheck})
		check(err)
		_, _, _ = n.Simulate(tx)
	}
	if _, err := n.PrepareProposal(&abci.RequestPrepareProposal{Height: n.h + 1, Time: n.t.Add(d), Txs: txs, MaxTxBytes: 1 << 20}); err != nil {
		Fail("abci:prepare", "no proposal is prepared: %v", err)
	}
	for i := 0; i < 2; i++ {
		if _, err := n.ProcessProposal(&abci.RequestProcessProposal{Height: n.h + 1, Time: n.t.Add(d), Txs: txs}); err != nil {
			Fail("abci:process", "a proposal is not processed: %v", err)
		}
	}
}

// harness executes the same blocks on the stores of the checker.
type harness struct{ *State }

func (w *nodeWorld) harness(app *App) *harness {
	bz, err := json.Marshal(w.gen)
	check(err)
	ms := NewMStore()
	s := &State{App: app, MS: ms, H: 1, T: w.t}
	cp := tmtypes.DefaultConsensusParams().ToProto()
	check(app.ConsensusParamsKeeper.ParamsStore.Set(s.Ctx(), cp))
	_, err = app.InitChainer(s.Ctx().WithConsensusParams(cp), &abci.RequestInitChain{AppStateBytes: bz})
	check(err)
	h := &harness{s}
	if o := app.BeginBlock(s.Ctx()); !o.OK() {
		panic(o.String())
	}
	if o := app.EndBlock(s.Ctx()); !o.OK() {
		panic(o.String())
	}
	return h
}

func (h *harness) block(o Op) Outcome {
	h.H++
	h.T = h.T.Add(o.took())
	if out := h.App.BeginBlock(h.Ctx()); !out.OK() {
		panic("begin block: " + out.String())
	}
	var out Outcome
	if o.K != "block" {
		out = h.App.Msg(h.Ctx(), o.Msg())
	}
	if out := h.App.EndBlock(h.Ctx()); !out.OK() {
		panic("end block: " + out.String())
	}
	return out
}

// crashDB tells when something has been written to a database.
type crashDB struct {
	*dbm.MemDB
	wrote func()
}

type crashBatch struct {
	dbm.Batch
	db *crashDB
}

func (c *crashDB) Set(k, v []byte) error     { err := c.MemDB.Set(k, v); c.wrote(); return err }
func (c *crashDB) SetSync(k, v []byte) error { err := c.MemDB.SetSync(k, v); c.wrote(); return err }
func (c *crashDB) Delete(k []byte) error     { err := c.MemDB.Delete(k); c.wrote(); return err }
func (c *crashDB) DeleteSync(k []byte) error { err := c.MemDB.DeleteSync(k); c.wrote(); return err }
func (c *crashDB) NewBatch() dbm.Batch       { return &crashBatch{c.MemDB.NewBatch(), c} }
func (c *crashDB) NewBatchWithSize(int) dbm.Batch {
	return &crashBatch{c.MemDB.NewBatch(), c}
}
func (b *crashBatch) Write() error     { err := b.Batch.Write(); b.db.wrote(); return err }
func (b *crashBatch) WriteSync() error { err := b.Batch.WriteSync(); b.db.wrote(); return err }

func copyDB(db dbm.DB) *dbm.MemDB {
	out := dbm.NewMemDB()
	it, err := db.Iterator(nil, nil)
	check(err)
	for ; it.Valid(); it.Next() {
		check(out.Set(append([]byte(nil), it.Key()...), append([]byte{}, it.Value()...)))
	}
	check(it.Close())
	return out
}

// restarts: a node that is restarted or crashes before every block, and one that serves other requests meanwhile, agree with one that does nothing else, and
// with the checker.
func (w *nodeWorld) restarts(r *Run, depth int) {
	n := power(len(w.ops), depth-1)
	name := w.name + ": restarts"
	r.ForAll(name, n, func(i int) string { return fmt.Sprint(w.history(i, depth-1)) + " and any operation" }, func(i int) {
		straight, crashed, noisy := NewNode(w.gen, w.t, w.opts), NewNode(w.gen, w.t, w.opts), NewNode(w.gen, w.t, w.opts)
		defer straight.Close()
		defer crashed.Close()
		defer noisy.Close()
		h := w.harness(straight.App)
		do := func(o Op, last bool) {
			d, txs := o.took(), w.txs(straight, o)
			finish := func(n *Node) string {
				defer func() {
					if last {
						n.Forget()
					} else {
						n.commit(d)
					}
				}()
				return outcome(n.Finalize(d, txs))
			}
			res := straight.Finalize(d, txs)
			base := outcome(res)
			x := h
			if last {
				x = &harness{h.State.Branch()}
			}
			out := x.block(o)
			if len(res.TxResults) > 0 {
				if ok := res.TxResults[0].Code == 0; ok != out.OK() {
					Fail("node:"+o.K, "the transaction %s gives %d (%s) in a block, but its message gives %s", o, res.TxResults[0].Code, res.TxResults[0].Log, out)
				} else {
					r.Count(fmt.Sprintf("tx:%v", ok))
				}
			}
			if d := diffStores(straight.dumpStores(straight.pending()), straight.dumpStores(x.Ctx()), "acc", "wasm", "feemarket", "ratelimit"); len(d) > 0 {
				Fail("node:stores:"+strings.Fields(d[0])[0], "after %s the stores of a node differ from those of the checker: %v", o, d)
			}
			if last {
				straight.Forget()
			} else {
				straight.commit(d)
			}
			crashed.Finalize(d, txs)
			crashed.Restart()
			if got := finish(crashed); got != base {
				Fail("differs:crash:"+o.K, "executed again after a restart, the block of %s gives %s instead of %s", o, got, base)
			}
			r.Count("crash")
			noisy.noise(txs, d)
			if got := finish(noisy); got != base {
				Fail("differs:noise:"+o.K, "after other requests, the block of %s gives %s instead of %s", o, got, base)
			}
			r.Count("noise")
		}
		for _, o := range w.history(i, depth-1) {
			do(o, false)
		}
		for _, o := range w.ops {
			do(o, true)
		}
	})
}

// some keeps the first operations of a world, and every so many of the others.
func (w *nodeWorld) some(name string, first, every int) *nodeWorld {
	out := *w
	out.name += name
	out.ops = append([]Op(nil), w.ops[:first]...)
	for i := first; i < len(w.ops); i += every {
		out.ops = append(out.ops, w.ops[i])
	}
	return &out
}

// crashes: the node stops after every write of the commit of a block. It starts again, executes what is missing, and agrees with a node that has not stopped.
func (w *nodeWorld) crashes(r *Run, depth, every int) {
	w = w.some("", 0, every)
	n := power(len(w.ops), depth)
	r.ForAll(w.name+": crashes", n, func(i int) string { return fmt.Sprint(w.history(i, depth)) }, func(i int) {
		db := &crashDB{dbm.NewMemDB(), func() {}}
		a := NewNodeOn(db, w.gen, w.t)
		defer a.Close()
		ops := w.history(i, depth)
		for k, o := range ops {
			txs := w.txs(a, o)
			want := outcome(a.Finalize(o.took(), txs))
			if k < len(ops)-1 {
				a.commit(o.took())
				continue
			}
			var at []*dbm.MemDB
			db.wrote = func() { at = append(at, copyDB(db.MemDB)) }
			a.commit(o.took())
			db.wrote = func() {}
			if len(at) < 2 {
				Fail("crash:writes", "the commit of a block makes %d writes", len(at))
			}
			after := a.Finalize(time.Second, nil).AppHash
			for j, snap := range at {
				b := &Node{db: snap, dir: a.dir, h: a.h - 1, t: a.t.Add(-o.took())}
				b.start()
				switch b.LastBlockHeight() {
				case a.h - 1:
					if got := outcome(b.Block(o.took(), txs)); got != want {
						Fail("crash:differs:"+o.K, "executed again after a crash at the write %d of its commit, the block of %s gives %s instead of %s", j+1, o, got, want)
					}
					r.Count("crash:before")
				case a.h:
					b.h, b.t = a.h, a.t
					r.Count("crash:after")
				default:
					Fail("crash:height", "after a crash at the write %d of the commit of block %d, the node is at the height %d", j+1, a.h, b.LastBlockHeight())
				}
				if got := b.Finalize(time.Second, nil).AppHash; !bytes.Equal(got, after) {
					Fail("crash:later:"+o.K, "after a crash at the write %d of the commit of the block of %s, the next block gives another state", j+1, o)
				}
			}
		}
	})
}

func init() {
	register(&Property{
		ID: "C38", Title: "Restarts, crashes and other requests do not change what blocks do",
		Need: []string{"tx:true", "tx:false", "crash", "noise", "crash:before", "crash:after"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 5
				return
			}
			off := func(app *App, g map[string]json.RawMessage) {
				app.withFees(g, noFees)
				app.noEscrow(g)
			}
			w := r.world(loose("everything", 0, everything(always), systemOps, nil), off)
			w.restarts(r, r.Pick(2, 3))
			w.crashes(r, 1, r.Pick(4, 1))
			l := r.world(looseLV("liquid vesting", 0, lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil), off)
			l.restarts(r, r.Pick(2, 3))
			l.crashes(r, 1, r.Pick(4, 1))
			k := r.contractWorld().some(", some operations", 5, r.Pick(4, 2))
			k.restarts(r, 2)
		},
	})
}
