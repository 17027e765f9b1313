package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	wasmtypes "github.com/CosmWasm/wasmd/x/wasm/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	crisistypes "github.com/cosmos/cosmos-sdk/x/crisis/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	assetskeeper "github.com/milkyway-labs/milkyway/v3/x/assets/keeper"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
)

// regModel is the assets registry: denom -> "ticker/exponent".
type regModel map[string]string

func (m regModel) Clone() Model { return regModel(cloneMap(m)) }
func (m regModel) Key() string {
	var b strings.Builder
	for _, k := range sortedKeys(m) {
		b.WriteString(k + "=" + m[k] + ";")
	}
	return b.String()
}

func assetsRegistry(r *Run, depth int, denoms, tickers []string, exps []uint32) {
	step := func(o Op, want bool, apply func(m regModel)) Action {
		return Action{Name: o.String(), Run: func(s *State) bool {
			before := s.MS.Hash(s.MS.Names(), nil)
			out := deliver(s, o)
			if out.OK() != want {
				Fail(fmt.Sprintf("admit:%s:%v", o.K, want), "%s should be %s, but the result is %s", o, map[bool]string{true: "accepted", false: "rejected"}[want], out)
			}
			if !want {
				r.Count(o.K + ":rejected")
				if s.MS.Hash(s.MS.Names(), nil) != before {
					Fail("rejected:changes", "%s is rejected but changes the state", o)
				}
				return false
			}
			r.Count(o.K + ":ok")
			apply(s.M.(regModel))
			return true
		}}
	}
	r.Explore(&Scenario{
		Name: "registry", Depth: depth,
		Root: func(app *App) *State {
			return &State{App: app, MS: app.GenesisStore(map[string]string{"u1": "5tka"}), H: 2, T: genTime, M: regModel{}}
		},
		Actions: func(s *State) []Action {
			m := s.M.(regModel)
			var out []Action
			for _, d := range denoms {
				for _, t := range tickers {
					for _, e := range exps {
						out = append(out, step(Op{K: "asset", U: "gov", ID: e, S: d + "|" + t}, true, func(m regModel) { m[d] = fmt.Sprintf("%s/%d", t, e) }))
					}
				}
				_, known := m[d]
				out = append(out, step(Op{K: "unasset", U: "gov", S: d}, known, func(m regModel) { delete(m, d) }))
			}
			d := denoms[0]
			for _, o := range []Op{
				{K: "asset", U: "u1", S: d + "|" + tickers[0]}, {K: "asset", U: "bad", S: d + "|" + tickers[0]}, {K: "asset", U: "gov", S: "1x|" + tickers[0]}, {K: "asset", U: "gov", S: "|" + tickers[0]}, {K: "asset", U: "gov", S: d + "|"},
				{K: "asset", U: "gov", S: d + "|ABCDEFGHIJK"}, {K: "asset", U: "gov", S: d + "|A-B"}, {K: "asset", U: "gov", S: d + "|A/USD"}, {K: "asset", U: "gov", S: d + "| "}, {K: "asset", U: "gov", S: d + "|É"}, {K: "asset", U: "gov", ID: 37, S: d + "|" + tickers[0]}, {K: "asset", U: "gov", ID: 4294967295, S: d + "|" + tickers[0]},
				{K: "unasset", U: "u1", S: d}, {K: "unasset", U: "bad", S: d}, {K: "unasset", U: "gov", S: "nope"}, {K: "unasset", U: "gov", S: ""}, {K: "unasset", U: "gov", S: tickers[0]},
			} {
				out = append(out, step(o, false, nil))
			}
			return out
		},
		Check: func(s *State) {
			m := s.M.(regModel)
			q := assetskeeper.NewQueryServer(s.App.AssetsKeeper)
			ctx := s.Probe()
			show := func(a assetstypes.Asset) string { return fmt.Sprintf("%s=%s/%d", a.Denom, a.Ticker, a.Exponent) }
			for _, d := range append([]string{"nope", "tk", tickers[0]}, denoms...) {
				want := ""
				if v, ok := m[d]; ok {
					want = d + "=" + v
				}
				expectOne("Asset", want, func() (string, error) {
					res, err := q.Asset(ctx, &assetstypes.QueryAssetRequest{Denom: d})
					if err != nil {
						return "", err
					}
					return show(res.Asset), nil
				})
			}
			for _, t := range append([]string{"", "ZZ"}, tickers...) {
				var want []string
				for d, v := range m {
					if t == "" || strings.HasPrefix(v, t+"/") {
						want = append(want, d+"="+v)
					}
				}
				expectPages("Assets:"+t, want, func(p *query.PageRequest) ([]string, *query.PageResponse, error) {
					res, err := q.Assets(ctx, &assetstypes.QueryAssetsRequest{Ticker: t, Pagination: p})
					if err != nil {
						return nil, nil, err
					}
					var out []string
					for _, a := range res.Assets {
						out = append(out, show(a))
					}
					return out, res.Pagination, nil
				})
			}
			for _, t := range []string{"A-B", "ABCDEFGHIJK"} {
				if _, err := q.Assets(ctx, &assetstypes.QueryAssetsRequest{Ticker: t}); err == nil {
					Fail("query:Assets:invalid", "the assets with the invalid ticker %q can be queried", t)
				}
			}
			r.Count("queried")
		},
	})
}

// sampleOps has one valid-looking message of each kind.
var sampleOps = []Op{
	{K: "register_op", S: "n|w|p"}, {K: "update_op", ID: 1, S: "n|w|p"}, {K: "deactivate_op", ID: 1}, {K: "reactivate_op", ID: 1}, {K: "delete_op", ID: 1}, {K: "transfer_op", ID: 1, S: "u2"}, {K: "params_op", ID: 1, S: "0.5"},
	{K: "create_svc", S: "n|d|w|p"}, {K: "update_svc", ID: 1, S: "n|d|w|p"}, {K: "activate_svc", ID: 1}, {K: "deactivate_svc", ID: 1}, {K: "delete_svc", ID: 1}, {K: "transfer_svc", ID: 1, S: "u2"}, {K: "params_svc", ID: 1, S: "tka"}, {K: "accredit", ID: 1}, {K: "revoke", ID: 1},
	{K: "join", ID: 1, ID2: 1}, {K: "leave", ID: 1, ID2: 1}, {K: "allow", ID: 1, ID2: 1}, {K: "disallow", ID: 1, ID2: 1}, {K: "borrow", ID: 1, ID2: 1}, {K: "cease", ID: 1, ID2: 1},
	{K: "del_pool", A: "1tka"}, {K: "del_op", ID: 1, A: "1tka"}, {K: "del_svc", ID: 1, A: "1tka"}, {K: "und_pool", A: "1tka"}, {K: "und_op", ID: 1, A: "1tka"}, {K: "und_svc", ID: 1, A: "1tka"}, {K: "prefs", S: "n"},
	{K: "rparams", ID: 4}, {K: "oparams", ID: 4}, {K: "sparams"},
	{K: "plan", ID: 1, A: perDay, S: always}, {K: "edit_plan", ID: 1, A: perDay, S: always}, {K: "claim", S: "op", ID: 1}, {K: "commission", ID: 1}, {K: "waddr", S: "u2"}, {K: "wparams"}, {K: "asset", ID: 6, S: "tkc|TKC"}, {K: "unasset", S: "tka"},
	{K: "mint", S: "u2", A: "1tka"}, {K: "burn", S: "u2", A: "1locked/tka"}, {K: "withdraw_fund", A: "1tka"}, {K: "lvparams", S: "30000" + roles},
}

var stranger = []string{"u1", "oa", "sa", "faucet"}

func init() {
	register(&Property{
		ID: "C28", Title: "The assets registry maps every denom to one asset, and its queries are exact",
		Need: []string{"asset:ok", "asset:rejected", "unasset:ok", "unasset:rejected", "queried"},
		Run: func(r *Run) {
			assetsRegistry(r, 5, []string{"tka", "tkb", "tkab", "ibc/AB"}, []string{"AA", "AAB", "b"}, []uint32{0, 36})
			if r.Thorough() {
				assetsRegistry2(r)
			}
		},
	})
	register(&Property{
		ID: "C29", Title: "Only governance can send the messages reserved to it; a message is signed by whom it acts for",
		Assumptions: []string{"messages of the SDK, IBC, wasm and oracle modules without a valid sample are only checked to be refused"},
		Need:        []string{"signer", "gov:ok", "other:rejected"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 3
				return
			}
			app := r.App
			// every message of our modules names its sender as the only signer
			users := []string{"u1", "oa", "gov"}
			r.ForAll("signers", len(sampleOps)*len(users), func(i int) string { return sampleOps[i%len(sampleOps)].K + " by " + users[i/len(sampleOps)] }, func(i int) {
				o := sampleOps[i%len(sampleOps)]
				o.U = users[i/len(sampleOps)]
				ss, _, err := app.AppCodec().GetMsgV1Signers(o.Msg())
				if err != nil {
					Fail("signer:"+o.K, "the signers of %s cannot be determined: %v", o, err)
				}
				if len(ss) != 1 || sdk.AccAddress(ss[0]).String() != who(o.U) {
					Fail("signer:"+o.K, "the signers of %s are %v", o, ss)
				}
				if app.MsgServiceRouter().Handler(o.Msg()) == nil {
					Fail("handler:"+o.K, "nothing handles %s", o)
				}
				r.Count("signer")
			})
			// messages with an authority
			c := loose("governance", 1, everything(always), nil, nil)
			base := c.root(r, app)
			auths := map[string]string{"u1": bech("u1"), "oa": bech("oa"), "empty": "", "garbage": "notanaddress"}
			for _, m := range []string{"rewards_pool", "liquidvesting", "distribution", "mint", "bonded_tokens_pool"} {
				auths["module "+m] = moduleAddr(m).String()
			}
			names := sortedKeys(auths)
			valid := governed(app, base)
			r.ForAll("governed messages", len(valid)*(len(names)+1), func(i int) string {
				if i < len(valid) {
					return fmt.Sprintf("%s by gov", sdk.MsgTypeURL(valid[i]))
				}
				return fmt.Sprintf("%s by %s", sdk.MsgTypeURL(valid[i%len(valid)]), names[i/len(valid)-1])
			}, func(i int) {
				m := valid[i%len(valid)]
				u := sdk.MsgTypeURL(m)
				if i < len(valid) {
					if out := app.Msg(base.Branch().Ctx(), m); !out.OK() {
						Fail("gov:"+u, "%s is refused from governance: %s", u, out)
					}
					r.Count("gov:ok")
					return
				}
				refuse(r, app, base, withAuthority(m, auths[names[i/len(valid)-1]]), names[i/len(valid)-1])
			})
			var blank []sdk.Msg
			urls := app.InterfaceRegistry().ListImplementations(sdk.MsgInterfaceProtoName)
			sort.Strings(urls)
			for _, u := range urls {
				x, err := app.InterfaceRegistry().Resolve(u)
				check(err)
				m := x.(sdk.Msg)
				if _, ok := reflect.TypeOf(m).Elem().FieldByName("Authority"); ok && app.MsgServiceRouter().Handler(m) != nil {
					blank = append(blank, m)
				}
			}
			r.ForAll("blank governed messages", len(blank)*len(names), func(i int) string {
				return fmt.Sprintf("%s by %s", sdk.MsgTypeURL(blank[i%len(blank)]), names[i/len(blank)])
			}, func(i int) {
				refuse(r, app, base, withAuthority(blank[i%len(blank)], auths[names[i/len(blank)]]), names[i/len(blank)])
			})
		},
	})
}

func assetsRegistry2(r *Run) {
	assetsRegistry(r, 5, []string{"tka", "tkb", "tkab", "ibc/AB"}, []string{"AA", "AAB", "b", "0"}, []uint32{0, 6, 36})
}

// withAuthority copies a message with another authority.
func withAuthority(m sdk.Msg, a string) sdk.Msg {
	v := reflect.New(reflect.TypeOf(m).Elem())
	v.Elem().Set(reflect.ValueOf(m).Elem())
	v.Elem().FieldByName("Authority").SetString(a)
	return v.Interface().(sdk.Msg)
}

func refuse(r *Run, app *App, base *State, m sdk.Msg, by string) {
	b := base.Branch()
	before := b.MS.Hash(b.MS.Names(), nil)
	out := app.Msg(b.Ctx(), m)
	u := sdk.MsgTypeURL(m)
	if out.OK() {
		Fail("authority:"+u, "%s is accepted from %s", u, by)
	}
	if b.MS.Hash(b.MS.Names(), nil) != before {
		Fail("authority:"+u, "%s from %s is refused but changes the state", u, by)
	}
	r.Count("other:rejected")
}

// governed lists valid messages that governance may send in the state.
func governed(app *App, s *State) []sdk.Msg {
	g := gov()
	out := []sdk.Msg{
		&authtypes.MsgUpdateParams{Authority: g, Params: authtypes.DefaultParams()},
		&banktypes.MsgUpdateParams{Authority: g, Params: banktypes.DefaultParams()},
		&banktypes.MsgSetSendEnabled{Authority: g, SendEnabled: []*banktypes.SendEnabled{{Denom: "tka", Enabled: false}}},
		&crisistypes.MsgUpdateParams{Authority: g, ConstantFee: sdk.NewCoin("stake", math.NewInt(5))},
		&distrtypes.MsgUpdateParams{Authority: g, Params: distrtypes.DefaultParams()},
		&govv1.MsgUpdateParams{Authority: g, Params: govv1.DefaultParams()},
		&minttypes.MsgUpdateParams{Authority: g, Params: minttypes.DefaultParams()},
		&slashingtypes.MsgUpdateParams{Authority: g, Params: slashingtypes.DefaultParams()},
		&stakingtypes.MsgUpdateParams{Authority: g, Params: stakingtypes.DefaultParams()},
		&upgradetypes.MsgSoftwareUpgrade{Authority: g, Plan: upgradetypes.Plan{Name: "v99", Height: 100000, Time: time.Time{}}},
		&upgradetypes.MsgCancelUpgrade{Authority: g},
		&wasmtypes.MsgUpdateParams{Authority: g, Params: wasmtypes.DefaultParams()},
	}
	for _, o := range sampleOps {
		o.U = "gov"
		if m := o.Msg(); strings.HasPrefix(sdk.MsgTypeURL(m), "/milkyway.") {
			if _, ok := reflect.TypeOf(m).Elem().FieldByName("Authority"); ok {
				out = append(out, m)
			}
		}
	}
	return out
}
