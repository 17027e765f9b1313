package main

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"

	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
	"github.com/CosmWasm/wasmd/x/wasm/keeper/testdata"
	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
	wasmvmtypes "github.com/CosmWasm/wasmvm/v2/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	"github.com/cosmos/gogoproto/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/dynamicpb"

	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
)

// The contract of this file passes on whatever its owner, "co", tells it to. Its account is "contract".

func init() { keyAddrs.Store("contract", wasmkeeper.BuildContractAddressClassic(1, 1)) }

func putContract(app *App, s *State) {
	ctx := s.Ctx()
	app.MustMsg(ctx, &wasmtypes.MsgStoreCode{Sender: bech("co"), WASMByteCode: testdata.ReflectContractWasm()})
	res := app.MustMsg(ctx, &wasmtypes.MsgInstantiateContract{Sender: bech("co"), CodeID: 1, Label: "reflect", Msg: []byte("{}")})
	var r wasmtypes.MsgInstantiateContractResponse
	check(proto.Unmarshal(res.Data, &r))
	if len(res.MsgResponses) == 1 {
		check(proto.Unmarshal(res.MsgResponses[0].Value, &r))
	}
	if r.Address != "" && r.Address != bech("contract") {
		panic("the contract is at " + r.Address)
	}
}

// as replaces an account by the contract in the operations of a scenario.
func asContract(name string, in []Op) []Op {
	out := append([]Op(nil), in...)
	for i, o := range out {
		if o.U == name {
			out[i].U = "contract"
		}
		if o.K == "send" || o.K == "mint" || o.K == "burn" || o.K == "waddr" || o.K == "transfer_op" || o.K == "transfer_svc" {
			if o.S == name {
				out[i].S = "contract"
			}
		}
		if o.K == "ibc" {
			out[i].S = strings.ReplaceAll(o.S, ";"+name+":", ";contract:")
		}
	}
	return out
}

func forContract(c *RMConf, name string) *RMConf {
	bal := cloneMap(c.Bal)
	bal["contract"], bal["co"] = bal[name], ""
	if name == "u1" {
		bal["contract"], bal["u1"] = bal["u1"], "1tka"
	}
	c.Bal, c.Users = bal, nil
	c.Setup, c.Ops = asContract(name, c.Setup), asContract(name, c.Ops)
	prep := c.Prep
	c.Prep = func(app *App, s *State) {
		if prep != nil {
			prep(app, s)
		}
		putContract(app, s)
	}
	return c
}

func cosmosMsg(msg sdk.Msg) wasmvmtypes.CosmosMsg {
	bz, err := proto.Marshal(msg)
	check(err)
	return wasmvmtypes.CosmosMsg{Any: &wasmvmtypes.AnyMsg{TypeURL: sdk.MsgTypeURL(msg), Value: bz}}
}

func execContract(sender string, funds sdk.Coins, m testdata.ReflectHandleMsg) sdk.Msg {
	bz, err := json.Marshal(m)
	check(err)
	return &wasmtypes.MsgExecuteContract{Sender: sender, Contract: bech("contract"), Msg: bz, Funds: funds}
}

func reflectMsgs(msgs ...sdk.Msg) testdata.ReflectHandleMsg {
	p := &testdata.ReflectPayload{}
	for _, m := range msgs {
		p.Msgs = append(p.Msgs, cosmosMsg(m))
	}
	return testdata.ReflectHandleMsg{Reflect: p}
}

type subMsg struct {
	msg   sdk.Msg
	reply string
}

func reflectSubs(subs ...subMsg) testdata.ReflectHandleMsg {
	p := &testdata.ReflectSubPayload{}
	for i, m := range subs {
		x := wasmvmtypes.SubMsg{ID: uint64(i + 1), Msg: cosmosMsg(m.msg)}
		check(x.ReplyOn.UnmarshalJSON([]byte(`"` + m.reply + `"`)))
		p.Msgs = append(p.Msgs, x)
	}
	return testdata.ReflectHandleMsg{ReflectSubMsg: p}
}

// trial executes messages one after the other on a branch of a state, all or none of them.
type trial struct {
	out    Outcome
	stores map[string]map[string]string
}

func try(s *State, msgs ...sdk.Msg) trial {
	ctx := s.Probe()
	cctx, write := ctx.CacheContext()
	t := trial{}
	for _, m := range msgs {
		if t.out = s.App.Msg(cctx, m); !t.out.OK() {
			break
		}
	}
	if t.out.OK() {
		write()
	}
	t.stores = (&Node{App: s.App}).dumpStores(ctx)
	return t
}

func sameTrial(r *Run, what string, want, got trial, skip ...string) {
	if want.out.OK() != got.out.OK() {
		Fail("contract:outcome:"+strings.SplitN(what, "(", 2)[0], "%s: directly the result is %s; through the contract it is %s", what, want.out, got.out)
	}
	if d := diffStores(want.stores, got.stores, skip...); len(d) > 0 {
		Fail("contract:state:"+strings.SplitN(what, "(", 2)[0], "%s: the stores differ from those of the same messages sent directly: %s", what, strings.Join(d, "; "))
	}
}

// acts: what the contract does for its owner is what it would do itself, and nobody else's.
func acts(r *Run, s *State, ops []Op) {
	before := try(s)
	unchanged := func(what string, msg sdk.Msg) {
		t := try(s, msg)
		if t.out.OK() {
			Fail("contract:allowed:"+strings.SplitN(what, "(", 2)[0], "%s is accepted", what)
		}
		if d := diffStores(before.stores, t.stores, "wasm"); len(d) > 0 {
			Fail("contract:changed:"+strings.SplitN(what, "(", 2)[0], "%s changes %s", what, strings.Join(d, "; "))
		}
		r.Count("refused")
	}
	direct := map[string]trial{}
	var good, bad []Op
	for _, o := range ops {
		if o.K == "block" || o.K == "price" || o.K == "ibc" {
			continue
		}
		if o.U != "contract" {
			if in([]string{"u2", "oa", "sa", "gov", "minter", "burner", "co", "u1", "sx", "ob"}, o.U) {
				unchanged(o.String()+" by the contract", execContract(bech("co"), nil, reflectMsgs(o.Msg())))
			}
			continue
		}
		d := try(s, o.Msg())
		direct[o.String()] = d
		sameTrial(r, o.String(), d, try(s, execContract(bech("co"), nil, reflectMsgs(o.Msg()))))
		if d.out.OK() {
			r.Count("did:" + o.K)
			good = append(good, o)
		} else {
			r.Count("could not")
			bad = append(bad, o)
		}
	}
	for i, o := range good {
		for _, sender := range []string{"u2", "contract", "oa"} {
			unchanged(o.String()+" told by "+sender, execContract(bech(sender), nil, reflectMsgs(o.Msg())))
		}
		// lists are executed in order, all or none
		p := good[(i+1)%len(good)]
		sameTrial(r, "list("+o.String()+" "+p.String(), try(s, o.Msg(), p.Msg()), try(s, execContract(bech("co"), nil, reflectMsgs(o.Msg(), p.Msg()))))
		r.Count("list")
		if len(bad) > 0 {
			b := bad[i%len(bad)]
			both := try(s, o.Msg(), b.Msg())
			sameTrial(r, "list("+o.String()+" "+b.String(), both, try(s, execContract(bech("co"), nil, reflectMsgs(o.Msg(), b.Msg()))))
			// a message of which the contract awaits the failure fails on its own
			for _, rep := range []string{"error", "always", "never", "success"} {
				want := both
				if !both.out.OK() && (rep == "error" || rep == "always") {
					want = direct[o.String()]
				}
				sameTrial(r, "sub("+rep+" "+o.String()+" "+b.String(), want, try(s, execContract(bech("co"), nil, reflectSubs(subMsg{o.Msg(), rep}, subMsg{b.Msg(), rep}))), "wasm")
			}
			r.Count("sub")
		}
	}
	// what is sent along reaches the contract as a transfer does
	for _, f := range []string{"1tka", "1tkb", "1locked/tka", "1rwd"} {
		c := coins(f)
		send := banktypes.NewMsgSend(addr("co"), addr("contract"), c)
		for _, o := range append([]Op{{}}, good...) {
			a, b := []sdk.Msg{send}, reflectMsgs(banktypes.NewMsgSend(addr("contract"), addr("z"), sdk.NewCoins()))
			if o.K == "" {
				b = testdata.ReflectHandleMsg{ChangeOwner: nil, Reflect: &testdata.ReflectPayload{Msgs: []wasmvmtypes.CosmosMsg{cosmosMsg(banktypes.NewMsgSend(addr("contract"), addr("co"), c))}}}
				a = append(a, banktypes.NewMsgSend(addr("contract"), addr("co"), c))
			} else {
				a, b = append(a, o.Msg()), reflectMsgs(o.Msg())
			}
			sameTrial(r, "funds("+f+" "+o.String(), try(s, a...), try(s, execContract(bech("co"), c, b)))
		}
		r.Count("funds")
	}
}

// routes lists the queries the application answers.
func (a *App) queryRoutes() []string {
	var out []string
	for _, k := range reflect.ValueOf(a.GRPCQueryRouter()).Elem().FieldByName("routes").MapKeys() {
		out = append(out, k.String())
	}
	sort.Strings(out)
	return out
}

// plausible makes a request of a query which is likely to find something.
func plausible(path string) (bz []byte, ok bool) {
	p := strings.Split(strings.TrimPrefix(path, "/"), "/")
	d, err := proto.HybridResolver.FindDescriptorByName(protoreflect.FullName(p[0]))
	if err != nil {
		return nil, false
	}
	md := d.(protoreflect.ServiceDescriptor).Methods().ByName(protoreflect.Name(p[1]))
	if md == nil {
		return nil, false
	}
	m := dynamicpb.NewMessage(md.Input())
	for i := 0; i < md.Input().Fields().Len(); i++ {
		f := md.Input().Fields().Get(i)
		if f.IsList() || f.IsMap() {
			continue
		}
		n := string(f.Name())
		switch f.Kind() {
		case protoreflect.Uint32Kind:
			m.Set(f, protoreflect.ValueOfUint32(1))
		case protoreflect.Uint64Kind:
			m.Set(f, protoreflect.ValueOfUint64(1))
		case protoreflect.StringKind:
			v := ""
			switch {
			case strings.Contains(n, "validator"):
				v = sdk.ValAddress(proposer).String()
			case strings.Contains(n, "denom"):
				v = "tka"
			case strings.Contains(n, "pair"):
				v = "TKA/USD"
			case strings.Contains(n, "contract"):
				v = bech("contract")
			case strings.Contains(n, "address"), strings.Contains(n, "delegator"), strings.Contains(n, "user"), strings.Contains(n, "signer"), strings.Contains(n, "owner"), strings.Contains(n, "account"), strings.Contains(n, "grante"):
				v = bech("contract")
			}
			m.Set(f, protoreflect.ValueOfString(v))
		}
	}
	bz, err = proto.Marshal(m)
	check(err)
	return bz, true
}

// granted are the queries a contract may send.
var granted = map[string]func() proto.Message{
	"/connect.oracle.v2.Query/GetAllCurrencyPairs":  func() proto.Message { return &oracletypes.GetAllCurrencyPairsResponse{} },
	"/connect.oracle.v2.Query/GetPrice":             func() proto.Message { return &oracletypes.GetPriceResponse{} },
	"/connect.oracle.v2.Query/GetPrices":            func() proto.Message { return &oracletypes.GetPricesResponse{} },
	"/milkyway.operators.v1.Query/Operator":         func() proto.Message { return &operatorstypes.QueryOperatorResponse{} },
	"/milkyway.restaking.v1.Query/ServiceOperators": func() proto.Message { return &restakingtypes.QueryServiceOperatorsResponse{} },
}

func (a *App) contractQuery(ctx sdk.Context, q wasmvmtypes.QueryRequest) (string, error) {
	req, err := json.Marshal(testdata.ReflectQueryMsg{Chain: &testdata.ChainQuery{Request: &q}})
	check(err)
	var out []byte
	err, pan := catch(func() (err error) {
		out, err = a.WasmKeeper.QuerySmart(ctx, addr("contract"), req)
		return err
	})
	if pan != "" {
		return "", fmt.Errorf("panic: %s", pan)
	}
	if err != nil {
		return "", err
	}
	var res testdata.ChainResponse
	check(json.Unmarshal(out, &res))
	return string(res.Data), nil
}

// reads: a contract is answered the granted queries exactly, and no others.
func reads(r *Run, s *State) {
	app := s.App
	type req struct {
		path string
		m    proto.Message
	}
	var all []req
	add := func(path string, m proto.Message) { all = append(all, req{path, m}) }
	add("/connect.oracle.v2.Query/GetAllCurrencyPairs", &oracletypes.GetAllCurrencyPairsRequest{})
	for _, p := range []string{"TKA/USD", "TKB/USD", "NEW/USD", "nope", ""} {
		add("/connect.oracle.v2.Query/GetPrice", &oracletypes.GetPriceRequest{CurrencyPair: p})
	}
	for _, p := range [][]string{nil, {"TKA/USD"}, {"TKB/USD", "TKA/USD"}, {"TKA/USD", "nope"}} {
		add("/connect.oracle.v2.Query/GetPrices", &oracletypes.GetPricesRequest{CurrencyPairIds: p})
	}
	for id := uint32(0); id < 4; id++ {
		add("/milkyway.operators.v1.Query/Operator", operatorstypes.NewQueryOperatorRequest(id))
		for _, p := range []*query.PageRequest{nil, {Limit: 1}, {Limit: 1, Offset: 1}, {Limit: 1, CountTotal: true}, {Limit: 5, Reverse: true}} {
			add("/milkyway.restaking.v1.Query/ServiceOperators", &restakingtypes.QueryServiceOperatorsRequest{ServiceId: id, Pagination: p})
		}
	}
	direct := func(path string, bz []byte) ([]byte, error) {
		var res *abci.ResponseQuery
		err, pan := catch(func() (err error) {
			res, err = app.GRPCQueryRouter().Route(path)(s.Probe(), &abci.RequestQuery{Data: bz, Path: path})
			return err
		})
		if pan != "" {
			err = fmt.Errorf("panic: %s", pan)
		}
		if err != nil {
			return nil, err
		}
		return res.Value, nil
	}
	for _, q := range all {
		bz, err := proto.Marshal(q.m)
		check(err)
		val, err := direct(q.path, bz)
		what := fmt.Sprintf("%s %s", q.path, q.m)
		got, gerr := app.contractQuery(s.Probe(), wasmvmtypes.QueryRequest{Stargate: &wasmvmtypes.StargateQuery{Path: q.path, Data: bz}})
		if (err != nil) != (gerr != nil) {
			Fail("query:outcome:"+q.path, "%s: the chain answers a client %v, and a contract %v", what, err, gerr)
		}
		if err != nil {
			r.Count("no answer")
			continue
		}
		m := granted[q.path]()
		check(proto.Unmarshal(val, m))
		want, err := app.AppCodec().MarshalJSON(m)
		check(err)
		if got != string(want) {
			Fail("query:answer:"+q.path, "%s: the answer is %s, and a contract is told %s", what, want, got)
		}
		r.Count("answer:" + q.path)
		if _, err := app.contractQuery(s.Probe(), wasmvmtypes.QueryRequest{Grpc: &wasmvmtypes.GrpcQuery{Path: q.path, Data: bz}}); err == nil {
			Fail("query:grpc:"+q.path, "%s is answered to a contract as a gRPC query", what)
		}
	}
	for _, path := range app.queryRoutes() {
		if granted[path] != nil {
			continue
		}
		bz, ok := plausible(path)
		if !ok {
			r.Count("no request")
			continue
		}
		if _, err := direct(path, bz); err != nil {
			r.Count("no answer to refuse")
			continue
		}
		if res, err := app.contractQuery(s.Probe(), wasmvmtypes.QueryRequest{Stargate: &wasmvmtypes.StargateQuery{Path: path, Data: bz}}); err == nil {
			Fail("query:open:"+path, "a contract is answered %s, which it is not granted: %s", path, res)
		}
		if _, err := app.contractQuery(s.Probe(), wasmvmtypes.QueryRequest{Grpc: &wasmvmtypes.GrpcQuery{Path: path, Data: bz}}); err == nil {
			Fail("query:open:"+path, "a contract is answered the gRPC query %s, which it is not granted", path)
		}
		r.Count("not granted")
	}
}

func newPair(app *App, s *State) {
	check(app.OracleKeeper.CreateCurrencyPair(s.Ctx(), connecttypes.NewCurrencyPair("NEW", "USD")))
}

func init() {
	register(&Property{
		ID: "C42", Title: "A contract acts only as itself, and is told exactly what it may ask",
		Assumptions: []string{"contracts are represented by one that passes on what its owner tells it to, and asks what it is told to", noSlash},
		Need: []string{"did:del_pool", "did:del_op", "did:und_op", "did:claim", "did:prefs", "did:activate_svc", "did:transfer_op", "did:plan", "did:commission", "did:burn", "did:mint", "did:withdraw_fund", "could not", "refused", "list", "sub", "funds",
			"no answer", "not granted", "answer:/connect.oracle.v2.Query/GetPrice", "answer:/connect.oracle.v2.Query/GetPrices", "answer:/connect.oracle.v2.Query/GetAllCurrencyPairs", "answer:/milkyway.operators.v1.Query/Operator", "answer:/milkyway.restaking.v1.Query/ServiceOperators"},
		Run: func(r *Run) {
			extra := append([]Op{{K: "register_op", U: "u1", S: "n|w|p"}, {K: "create_svc", U: "u1", S: "n|d|w|p"}, {K: "fund", U: "f", ID: 1, A: "5rwd"}}, systemOps...)
			for _, role := range []string{"u1", "oa", "sa", "f"} {
				c := loose("contract as "+role, r.Pick(1, 2), everything(always), extra, nil)
				if role == "f" {
					c.Depth = 1
				}
				forContract(c, role)
				ops := c.Ops
				c.Check = func(r *Run, s *State) {
					acts(r, s, ops)
					if role == "oa" {
						reads(r, s)
					}
				}
				r.RM(c)
			}
			for _, role := range []string{"u1", "minter", "burner"} {
				c := looseLV("contract as "+role+", liquid vesting", r.Pick(1, 2), lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, nil)
				c = forContract(c, role)
				for i, o := range c.Setup {
					if o.K == "lvparams" {
						c.Setup[i].S = strings.Replace(o.S, "|"+role+"|", "|contract|", 1)
					}
				}
				ops := append([]Op(nil), c.Ops...)
				for i, o := range ops {
					if o.K == "lvparams" {
						ops[i].S = strings.Replace(o.S, "|"+role+"|", "|contract|", 1)
					}
				}
				c.Ops = ops
				c.Check = func(r *Run, s *State) { acts(r, s, ops) }
				r.RM(c)
			}
		},
	})
}
