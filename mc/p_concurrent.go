package main

import (
	"encoding/hex"
	"fmt"
	"strings"
	"sync"

	wasmvmtypes "github.com/CosmWasm/wasmvm/v2/types"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/gogoproto/proto"

	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	"github.com/milkyway-labs/milkyway/v3/verifmc/vdet"
	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
)

// A node serves its clients while it executes a block: their queries and simulations run on other goroutines, over
// the last committed state. The scheduler interrupts each piece of work at every statement of the repository's code (and
// of the code of contracts' queries), lets other work be done, and continues it.

// work is a piece of work of a node, executed on a branch of a state; its result tells all that can be seen.
type work struct {
	name  string
	block bool // done by a block, over the state of the block
	run   func(s *State) string
}

func opWork(c *RMConf, o Op, block bool) work {
	what := "simulation of "
	if block {
		what = "block executing "
	}
	return work{what + o.String(), block, func(s *State) string {
		res, _ := c.execute(s, o)
		h := s.MS.Hash(s.MS.Names(), nil)
		return res + " " + hex.EncodeToString(h[:])
	}}
}

func queryWork(path string, bz []byte) work {
	return work{"query " + path, false, func(s *State) string {
		var res *abci.ResponseQuery
		err, pan := catch(func() (err error) {
			res, err = s.App.GRPCQueryRouter().Route(path)(s.Ctx(), &abci.RequestQuery{Data: bz, Path: path})
			return err
		})
		if err != nil || pan != "" {
			return fmt.Sprint("error ", err, pan)
		}
		return string(res.Value)
	}}
}

func contractWork(path string, m proto.Message) work {
	bz, err := proto.Marshal(m)
	check(err)
	return work{"contract asking " + path, false, func(s *State) string {
		res, err := s.App.contractQuery(s.Ctx(), wasmvmtypes.QueryRequest{Stargate: &wasmvmtypes.StargateQuery{Path: path, Data: bz}})
		if err != nil {
			return "error " + err.Error()
		}
		return res
	}}
}

// desk is an application with the two states that its work is done on.
type desk struct {
	committed, block *State
	alone            []string // results of the work done alone
	points           []int
}

func (d *desk) on(w work) *State {
	if w.block {
		return d.block.Branch()
	}
	return d.committed.Branch()
}

type concurrency struct {
	r     *Run
	conf  *RMConf
	last  Op // leads from the committed state to the one of the block
	works []work
	mu    sync.Mutex
	free  []*desk
}

func (c *concurrency) open() *desk {
	c.mu.Lock()
	if n := len(c.free); n > 0 {
		d := c.free[n-1]
		c.free = c.free[:n-1]
		c.mu.Unlock()
		return d
	}
	c.mu.Unlock()
	app := NewApp()
	d := &desk{committed: c.conf.root(c.r, app)}
	d.block = d.committed.Branch()
	if _, ok := c.conf.execute(d.block, c.last); !ok {
		panic("the last operation fails")
	}
	for _, w := range c.works {
		res := ""
		n := vdet.Alone(func() { res = w.run(d.on(w)) })
		d.alone, d.points = append(d.alone, res), append(d.points, n)
	}
	return d
}

func (c *concurrency) close(d *desk) {
	c.mu.Lock()
	c.free = append(c.free, d)
	c.mu.Unlock()
}

func (c *concurrency) expect(d *desk, i int, got, while string) {
	if got == d.alone[i] {
		return
	}
	cut := func(s string) string { return s[:min(len(s), 300)] }
	Fail("concurrent:"+c.works[i].name, "%s gives %q, instead of %q alone, %s", c.works[i].name, cut(got), cut(d.alone[i]), while)
}

// everything else is done while a piece of work is interrupted, at each of its points.
func (c *concurrency) once(d *desk, i, at int) {
	got, others := "", make([]string, len(c.works))
	w := c.works[i]
	na, _, waited := vdet.Interleave(func() { got = w.run(d.on(w)) }, func() {
		for j, o := range c.works {
			others[j] = o.run(d.on(o))
		}
	}, at)
	if waited {
		c.r.Count("waited")
	}
	if na <= at {
		return
	}
	c.expect(d, i, got, fmt.Sprintf("if it is interrupted at point %d and all other work is done meanwhile", at))
	for j := range others {
		c.expect(d, j, others[j], fmt.Sprintf("while %s is interrupted at point %d", w.name, at))
	}
	if w.block {
		c.r.Count("interrupted:block")
	} else {
		c.r.Count("interrupted:client")
	}
}

// twice: another piece of work is interrupted as well.
func (c *concurrency) twice(d *desk, i, j, at, then int) {
	a, b := "", ""
	vdet.Interleave(func() { a = c.works[i].run(d.on(c.works[i])) }, func() { b = c.works[j].run(d.on(c.works[j])) }, at, then)
	c.expect(d, i, a, fmt.Sprintf("if it is interrupted at point %d, and continued when %s is at point %d", at, c.works[j].name, then))
	c.expect(d, j, b, fmt.Sprintf("if %s is at point %d, and it is itself interrupted at point %d", c.works[i].name, at, then))
	c.r.Count("interrupted:twice")
}

func (r *Run) concurrently(name string, conf *RMConf, last Op, blockOps, simulated []Op, twice int) {
	c := &concurrency{r: r, conf: conf, last: last}
	if !r.dry {
		for _, o := range blockOps {
			c.works = append(c.works, opWork(conf, o, true))
		}
		for _, o := range simulated {
			c.works = append(c.works, opWork(conf, o, false))
		}
		app := NewApp()
		defer app.Close()
		for _, path := range app.queryRoutes() {
			if bz, ok := plausible(path); ok && strings.HasPrefix(path, "/milkyway.") {
				c.works = append(c.works, queryWork(path, bz))
			}
		}
		c.works = append(c.works,
			contractWork("/connect.oracle.v2.Query/GetAllCurrencyPairs", &oracletypes.GetAllCurrencyPairsRequest{}),
			contractWork("/connect.oracle.v2.Query/GetPrice", &oracletypes.GetPriceRequest{CurrencyPair: "TKA/USD"}),
			contractWork("/connect.oracle.v2.Query/GetPrices", &oracletypes.GetPricesRequest{CurrencyPairIds: []string{"TKA/USD", "TKB/USD"}}),
			contractWork("/milkyway.operators.v1.Query/Operator", operatorstypes.NewQueryOperatorRequest(1)),
			contractWork("/milkyway.restaking.v1.Query/ServiceOperators", &restakingtypes.QueryServiceOperatorsRequest{ServiceId: 1}),
			work{"contract's message", true, func(s *State) string {
				out := s.App.Msg(s.Ctx(), execContract(bech("co"), nil, reflectMsgs(Op{K: "del_op", U: "contract", ID: 1, A: "1tka"}.Msg())))
				h := s.MS.Hash(s.MS.Names(), nil)
				return code(out) + hex.EncodeToString(h[:])
			}})
	}
	type spot struct{ i, at int }
	var spots []spot
	type pair struct{ i, j, at, then int }
	var pairs []pair
	if !r.dry {
		d := c.open()
		for i, n := range d.points {
			for at := 0; at < n; at++ {
				spots = append(spots, spot{i, at})
			}
		}
		for i := range c.works {
			for j := range c.works {
				if d.points[i]*d.points[j] > twice {
					continue
				}
				for at := 0; at < d.points[i]; at++ {
					for then := 1; then < d.points[j]; then++ {
						pairs = append(pairs, pair{i, j, at, then})
					}
				}
			}
		}
		c.close(d)
	}
	defer func() {
		for _, d := range c.free {
			d.committed.App.Close()
		}
	}()
	r.ForAll(name+": one interruption", len(spots), func(k int) string { return fmt.Sprintf("%s, at point %d", c.works[spots[k].i].name, spots[k].at) }, func(k int) {
		d := c.open()
		defer c.close(d)
		c.once(d, spots[k].i, spots[k].at)
	})
	r.ForAll(name+": two interruptions", len(pairs), func(k int) string {
		p := pairs[k]
		return fmt.Sprintf("%s at point %d, %s at point %d", c.works[p.i].name, p.at, c.works[p.j].name, p.then)
	}, func(k int) {
		d := c.open()
		defer c.close(d)
		p := pairs[k]
		c.twice(d, p.i, p.j, p.at, p.then)
	})
	if r.dry {
		return
	}
	r.Notes = append(r.Notes, fmt.Sprintf("%s: %d pieces of work with %d points at which they are interrupted", name, len(c.works), len(spots)))
}

func init() {
	register(&Property{
		ID: "C43", Title: "Clients served during a block change neither the block nor the answers",
		Assumptions: []string{"sharing of memory within the Cosmos SDK, IBC, the oracle and the virtual machine of contracts is not looked for", "threads are switched between statements, and not more than once or twice", noSlash},
		Need:        []string{"interrupted:block", "interrupted:client", "interrupted:twice"},
		Run: func(r *Run) {
			r.trust = true
			if !vdet.Points && !r.dry {
				r.Notes = append(r.Notes, "the code is not instrumented: work is not interrupted")
				r.Cut = true
			}
			ops := []Op{block(5), {K: "del_op", U: "u1", ID: 1, A: "1tka,1tkb"}, {K: "und_op", U: "u1", ID: 1, A: "1tka"}, {K: "del_pool", U: "u1", A: "1tkb"}, {K: "claim", U: "u1", S: "op", ID: 1}, {K: "prefs", U: "u1", S: "n:1"}}
			r.concurrently("everything", forContract(loose("", 0, append(everything(always, Op{K: "fund", U: "f", ID: 1, A: "1000rwd"}), block(10)), nil, nil), "z"), Op{K: "del_op", U: "u2", ID: 1, A: "2tka"}, ops, ops[1:4], r.Pick(400, 3000))
			lv := looseLV("", 0, lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}, Op{K: "und_op", U: "u1", ID: 1, A: "1locked/tka"}), nil, nil)
			ops = []Op{block(15), burn("u1", "5locked/tka"), mint("u1", "1tka"), {K: "withdraw_fund", U: "u1", A: "1tka"}, dep(1, "tka", "u1:1"), {K: "del_svc", U: "u1", ID: 1, A: "2locked/tka"}}
			r.concurrently("liquid vesting", forContract(lv, "faucet"), Op{K: "del_op", U: "u2", ID: 1, A: "1tka"}, ops, ops[1:4], r.Pick(200, 2000))
			if r.Thorough() {
				big := loose("", 0, rwSetup(always, append(trio(), Op{K: "accredit", U: "gov", ID: 1})...), nil, nil)
				big.Bal = trioBal
				r.concurrently("three of everything", forContract(big, "z"), Op{K: "und_op", U: "u2", ID: 1, A: "1tka,1tkc"}, append([]Op{block(15)}, trioOps[:24]...), trioOps[4:12], 1000)
			}
		},
	})
}
