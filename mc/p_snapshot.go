package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"

	abci "github.com/cometbft/cometbft/abci/types"
	dbm "github.com/cosmos/cosmos-db"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"

	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
)

// byContract marks an operation which the contract does for its owner.
const byContract = "contract does "

// restored starts a node from a snapshot that another one takes of its last block, as state sync does.
func (n *Node) restored() *Node {
	if had, err := n.SnapshotManager().List(); err != nil || len(had) == 0 {
		if _, err := n.SnapshotManager().Create(uint64(n.h)); err != nil {
			Fail("snapshot:create", "no snapshot is taken of block %d: %v", n.h, err)
		}
	}
	dir, err := os.MkdirTemp("", "mc-app-")
	check(err)
	m := &Node{db: dbm.NewMemDB(), dir: dir, t: n.t, h: n.h, oracle: oracleconfig.NewDefaultAppConfig()}
	m.equip()
	m.start()
	list, err := n.ListSnapshots(&abci.RequestListSnapshots{})
	check(err)
	var snap *abci.Snapshot
	for _, s := range list.Snapshots {
		if s.Height == uint64(n.h) {
			snap = s
		}
	}
	if snap == nil {
		Fail("snapshot:list", "the snapshot of block %d is not listed", n.h)
	}
	hash := n.LastCommitID().Hash
	offer, err := m.OfferSnapshot(&abci.RequestOfferSnapshot{Snapshot: snap, AppHash: hash})
	if err != nil || offer.Result != abci.ResponseOfferSnapshot_ACCEPT {
		Fail("snapshot:offer", "the snapshot of block %d is not accepted: %v %v", n.h, offer, err)
	}
	for i := uint32(0); i < snap.Chunks; i++ {
		c, err := n.LoadSnapshotChunk(&abci.RequestLoadSnapshotChunk{Height: snap.Height, Format: snap.Format, Chunk: i})
		check(err)
		res, err := m.ApplySnapshotChunk(&abci.RequestApplySnapshotChunk{Index: i, Chunk: c.Chunk})
		if err != nil || res.Result != abci.ResponseApplySnapshotChunk_ACCEPT {
			Fail("snapshot:chunk", "chunk %d of the snapshot of block %d is not accepted: %v %v", i, n.h, res, err)
		}
	}
	info, err := m.Info(&abci.RequestInfo{})
	check(err)
	if info.LastBlockHeight != n.h || !bytes.Equal(info.LastBlockAppHash, hash) {
		Fail("snapshot:info", "restored from the snapshot of block %d with the hash %x, a node is at block %d with the hash %x", n.h, hash, info.LastBlockHeight, info.LastBlockAppHash)
	}
	return m
}

// joins: a node restored from a snapshot taken after a history, and one that has been restarted since, go on like the others.
func (w *nodeWorld) joins(r *Run, depth int) {
	n := power(len(w.ops), depth-1)
	r.ForAll(w.name+": snapshots", n, func(i int) string { return fmt.Sprint(w.history(i, depth-1)) + " and any operation" }, func(i int) {
		a := NewNode(w.gen, w.t, w.opts)
		defer a.Close()
		for _, o := range w.history(i, depth-1) {
			a.Block(o.took(), w.txs(a, o))
		}
		b, c := a.restored(), a.restored()
		defer b.Close()
		defer c.Close()
		c.Restart()
		if d := diffStores(a.dumpStores(a.committedCtx()), b.dumpStores(b.committedCtx())); len(d) > 0 {
			Fail("snapshot:stores", "a node restored from a snapshot has other stores: %v", d)
		}
		for _, o := range w.ops {
			d, txs := o.took(), w.txs(a, o)
			res := a.Finalize(d, txs)
			want := outcome(res)
			for who, x := range map[string]*Node{"restored from a snapshot": b, "restored from a snapshot and restarted": c} {
				if got := outcome(x.Finalize(d, txs)); got != want {
					Fail("differs:snapshot:"+o.K, "on a node %s, the block of %s gives %s instead of %s", who, o, got, want)
				}
				x.Forget()
			}
			a.Forget()
			if len(res.TxResults) > 0 {
				r.Count(fmt.Sprintf("tx:%v", res.TxResults[0].Code == 0))
				if len(o.K) > len(byContract) && o.K[:len(byContract)] == byContract {
					r.Count(fmt.Sprintf("contract:%v", res.TxResults[0].Code == 0))
				}
			}
			r.Count("joined")
		}
		// the next ones are executed and committed
		for _, o := range []Op{w.ops[i%len(w.ops)], block(15)} {
			txs := w.txs(a, o)
			want := outcome(a.Block(o.took(), txs))
			for _, x := range []*Node{b, c} {
				if got := outcome(x.Block(o.took(), txs)); got != want {
					Fail("differs:later:"+o.K, "on a node restored from a snapshot, the block of %s gives %s instead of %s", o, got, want)
				}
			}
		}
	})
}

// contractWorld: everything, with a contract that is a delegator, and whose code is pinned.
func (r *Run) contractWorld() *nodeWorld {
	c := forContract(loose("everything, with a contract", 0, everything(always), nil, nil), "z")
	prep := c.Prep
	c.Prep = func(app *App, s *State) {
		prep(app, s)
		app.MustMsg(s.Ctx(), &wasmtypes.MsgPinCodes{Authority: gov(), CodeIDs: []uint64{1}})
	}
	c.Ops = append([]Op{{K: byContract + "del_op", U: "co", ID: 1, A: "1tka"}, {K: byContract + "del_pool", U: "co", A: "1tkb"}, {K: byContract + "und_pool", U: "co", A: "1tka"}, {K: byContract + "claim", U: "co", S: "pool", ID: 1}, {K: byContract + "delete_op", U: "co", ID: 1}}, systemOps...)
	w := r.world(c, func(app *App, g map[string]json.RawMessage) {
		app.withFees(g, noFees)
		app.noEscrow(g)
	})
	w.opts.own = true
	return w
}

func init() {
	register(&Property{
		ID: "C44", Title: "A node restored from a snapshot goes on like the others",
		Need: []string{"tx:true", "tx:false", "contract:true", "contract:false", "joined"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += r.Pick(2, 4)
				return
			}
			k := r.contractWorld()
			k.joins(r, 2)
			l := r.world(looseLV("liquid vesting", 0, lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil), func(app *App, g map[string]json.RawMessage) {
				app.withFees(g, noFees)
				app.noEscrow(g)
			})
			x := *l
			x.opts.own = true
			x.joins(r, 2)
			if r.Thorough() {
				k.some(", some operations", 5, 4).joins(r, 3)
				x.some(", some operations", 0, 2).joins(r, 3)
			}
		},
	})
}
