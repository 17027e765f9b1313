package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	"cosmossdk.io/math"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	govv1beta1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1beta1"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
)

// key is the private key of a named account.
func key(name string) cryptotypes.PrivKey {
	return secp256k1.GenPrivKeyFromSecret([]byte("mc/" + name))
}

func keyAddr(name string) sdk.AccAddress { return sdk.AccAddress(key(name).PubKey().Address()) }

// signers of the ante scenarios, by address
type signers struct {
	priv map[string]cryptotypes.PrivKey
	num  map[string]uint64
}

// antePrep creates funded accounts with keys.
func antePrep(app *App, ms *MStore, names []string) *signers {
	ctx := app.Ctx(ms, 2, genTime)
	s := &signers{map[string]cryptotypes.PrivKey{}, map[string]uint64{}}
	for _, n := range names {
		a := keyAddr(n)
		acc := app.AccountKeeper.NewAccountWithAddress(ctx, a)
		app.AccountKeeper.SetAccount(ctx, acc)
		check(app.BankKeeper.SendCoins(ctx, addr("faucet"), a, coins("1000000000stake")))
		s.priv[a.String()], s.num[a.String()] = key(n), acc.GetAccountNumber()
	}
	return s
}

// ante signs the messages, encodes and decodes the transaction, and runs the real ante handler on it.
func (s *signers) ante(app *App, ms *MStore, msgs []sdk.Msg) Outcome {
	var privs []cryptotypes.PrivKey
	var nums, seqs []uint64
	seen := map[string]bool{}
	for _, m := range msgs {
		ss, _, err := app.AppCodec().GetMsgV1Signers(m)
		check(err)
		for _, b := range ss {
			a := sdk.AccAddress(b).String()
			if seen[a] {
				continue
			}
			seen[a] = true
			if s.priv[a] == nil {
				panic("no key for " + a)
			}
			privs, nums, seqs = append(privs, s.priv[a]), append(nums, s.num[a]), append(seqs, 0)
		}
	}
	tx, err := simtestutil.GenSignedMockTx(rand.New(rand.NewSource(1)), app.GetTxConfig(), msgs, coins("3000000stake"), 3000000, "mc-1", nums, seqs, privs...)
	check(err)
	bz, err := app.GetTxConfig().TxEncoder()(tx)
	check(err)
	dec, err := app.GetTxConfig().TxDecoder()(bz)
	if err != nil {
		return Outcome{Err: err}
	}
	var o Outcome
	o.Err, o.Panic = catch(func() error {
		_, err := app.AnteHandler()(app.Ctx(ms.Branch(), 2, genTime).WithTxBytes(bz), dec, false)
		return err
	})
	return o
}

// tree is a list of messages, possibly nested in authz executions.
type msgTree struct {
	leaf string
	sub  []msgTree
}

func (t msgTree) String() string {
	if t.sub == nil {
		return t.leaf
	}
	return "exec(" + trees(t.sub) + ")"
}

func trees(ts []msgTree) string {
	var p []string
	for _, t := range ts {
		p = append(p, t.String())
	}
	return strings.Join(p, " ")
}

func (t msgTree) leaves() []string {
	if t.sub == nil {
		return []string{t.leaf}
	}
	var out []string
	for _, s := range t.sub {
		out = append(out, s.leaves()...)
	}
	return out
}

func (t msgTree) msg(leaf func(string) sdk.Msg) sdk.Msg {
	if t.sub == nil {
		return leaf(t.leaf)
	}
	var ms []sdk.Msg
	for _, s := range t.sub {
		ms = append(ms, s.msg(leaf))
	}
	m := authz.NewMsgExec(keyAddr("grantee"), ms)
	return &m
}

// nestings of leaves, up to three executions deep.
func nestings(leaves []string, pairs bool) []msgTree {
	var out []msgTree
	for _, l := range leaves {
		x := msgTree{leaf: l}
		one := msgTree{sub: []msgTree{x}}
		out = append(out, x, one, msgTree{sub: []msgTree{one}}, msgTree{sub: []msgTree{{sub: []msgTree{one}}}})
		if !pairs {
			continue
		}
		for _, l2 := range leaves {
			y := msgTree{leaf: l2}
			out = append(out, msgTree{sub: []msgTree{x, y}}, msgTree{sub: []msgTree{x, {sub: []msgTree{y}}}}, msgTree{sub: []msgTree{{sub: []msgTree{x, y}}}}, msgTree{sub: []msgTree{{sub: []msgTree{y}}, x}})
		}
	}
	return out
}

var voteKinds = []string{"v1", "v1beta1", "v1w", "v1beta1w"}

func voteMsg(kind string, voter sdk.AccAddress) sdk.Msg {
	switch kind {
	case "v1":
		return govv1.NewMsgVote(voter, 1, govv1.OptionYes, "")
	case "v1beta1":
		return govv1beta1.NewMsgVote(voter, 1, govv1beta1.OptionYes)
	case "v1w":
		return govv1.NewMsgVoteWeighted(voter, 1, govv1.NewNonSplitVoteOption(govv1.OptionYes), "")
	}
	return govv1beta1.NewMsgVoteWeighted(voter, 1, govv1beta1.NewNonSplitVoteOption(govv1beta1.OptionYes))
}

// setValidators creates n validators whose shares are worth num/2 tokens each, in address order.
func setValidators(app *App, ctx sdk.Context, prefix string, n int, num func(i int) int64) []string {
	type v struct {
		addr string
		pk   cryptotypes.PubKey
	}
	var vs []v
	for i := 0; i < n; i++ {
		pk := ed25519.GenPrivKeyFromSecret([]byte(fmt.Sprint(prefix, i))).PubKey()
		vs = append(vs, v{sdk.ValAddress(pk.Address()).String(), pk})
	}
	sort.Slice(vs, func(i, j int) bool {
		a, _ := sdk.ValAddressFromBech32(vs[i].addr)
		b, _ := sdk.ValAddressFromBech32(vs[j].addr)
		return string(a) < string(b)
	})
	var out []string
	for i, x := range vs {
		val, err := stakingtypes.NewValidator(x.addr, x.pk, stakingtypes.Description{})
		check(err)
		val.Status = stakingtypes.Bonded
		val.DelegatorShares = math.LegacyNewDec(20_000_000)
		val.Tokens = math.NewInt(10_000_000 * num(i))
		check(app.StakingKeeper.SetValidator(ctx, val))
		out = append(out, x.addr)
	}
	return out
}

func init() {
	register(&Property{
		ID: "C30", Title: "Only accounts with enough stake can vote, through any kind of transaction",
		Assumptions: []string{"votes dispatched by smart contracts are not transactions of the voter and are not covered"},
		Need:        []string{"votes:ok", "votes:rejected", "stakes:ok", "stakes:rejected", "many:ok", "many:rejected"},
		Run: func(r *Run) {
			if r.dry {
				r.planned += 3
				return
			}
			app := r.App
			ms := app.GenesisStore(map[string]string{"faucet": "9000000000000stake"})
			ctx := app.Ctx(ms, 2, genTime)
			vals := setValidators(app, ctx, "v", 3, func(i int) int64 { return int64(2 - i%2) }) // worth 1, 1/2, 1
			rates := []*big.Rat{rat(1), big.NewRat(1, 2), rat(1)}
			delegate := func(ctx sdk.Context, who sdk.AccAddress, val string, shares string) {
				check(app.StakingKeeper.SetDelegation(ctx, stakingtypes.NewDelegation(who.String(), val, math.LegacyMustNewDecFromStr(shares))))
			}
			// every combination of stakes
			stakes := []string{"", "1", "333333.5", "500000", "666667", "999999.999999999999999999", "1000000", "1999999.999999999999999998", "2000000"}
			names := []string{"rich", "poor", "grantee"}
			n := len(stakes) * len(stakes) * len(stakes)
			sg := antePrep(app, ms, names)
			delegate(ctx, keyAddr("rich"), vals[0], "1000000")
			delegate(ctx, keyAddr("poor"), vals[0], "999999")
			verdict := func(scope, what string, want bool, out Outcome) {
				r.Count(scope + map[bool]string{true: ":ok", false: ":rejected"}[out.OK()])
				if want != out.OK() {
					Fail(fmt.Sprintf("vote:%s:%v", scope, want), "%s should be %s, but the result is %s", what, map[bool]string{true: "let through", false: "refused"}[want], out)
				}
			}
			min := rat(1_000_000)
			r.ForAll("stakes", n, func(i int) string {
				return fmt.Sprintf("stakes of %q, %q (worth half) and %q", stakes[i%9], stakes[i/9%9], stakes[i/81])
			}, func(i int) {
				b := ms.Branch()
				c := app.Ctx(b, 2, genTime)
				sum := new(big.Rat)
				for k, j := range []int{i % 9, i / 9 % 9, i / 81} {
					if stakes[j] == "" {
						continue
					}
					delegate(c, keyAddr("grantee"), vals[k], stakes[j])
					x, _ := new(big.Rat).SetString(stakes[j])
					x.Mul(x, rates[k])
					sum.Add(sum, truncDec(x))
				}
				for _, k := range voteKinds {
					verdict("stakes", fmt.Sprintf("a %s vote with a stake of %s", k, sum.FloatString(18)), sum.Cmp(min) >= 0, sg.ante(app, b, []sdk.Msg{voteMsg(k, keyAddr("grantee"))}))
				}
			})
			// more delegations than are looked at
			many := setValidatorsOnce(app, ms)
			r.ForAll("many delegations", 5*4, func(i int) string {
				return fmt.Sprintf("%d delegations, the large one at position %d", 98+i/4+1, 98+i%4)
			}, func(i int) {
				total, big := 98+i/4+1, 98+i%4
				b := ms.Branch()
				c := app.Ctx(b, 2, genTime)
				for k := 0; k < total; k++ {
					sh := "1"
					if k == big {
						sh = "1000000"
					}
					delegate(c, keyAddr("grantee"), many[k], sh)
				}
				want := big < total && big < 100
				verdict("many", "a vote", want, sg.ante(app, b, []sdk.Msg{voteMsg("v1", keyAddr("grantee"))}))
			})
			// every transaction of up to two messages, nested or not
			leaves := []string{"send"}
			for _, k := range voteKinds {
				leaves = append(leaves, "rich:"+k, "poor:"+k)
			}
			leaf := func(l string) sdk.Msg {
				if l == "send" {
					return banktypes.NewMsgSend(keyAddr("grantee"), keyAddr("rich"), coins("1stake"))
				}
				p := strings.Split(l, ":")
				return voteMsg(p[1], keyAddr(p[0]))
			}
			all := nestings(leaves, true)
			small := nestings(leaves, false)
			if !r.Thorough() {
				small = small[:len(small):len(small)]
			}
			var txs [][]msgTree
			for _, a := range all {
				txs = append(txs, []msgTree{a})
			}
			for _, a := range small {
				for _, b := range small {
					txs = append(txs, []msgTree{a, b})
				}
			}
			if r.Thorough() {
				for _, a := range all {
					for _, b := range all {
						txs = append(txs, []msgTree{a, b})
					}
				}
				for _, a := range leaves {
					for _, b := range leaves {
						for _, x := range small {
							txs = append(txs, []msgTree{{leaf: a}, {leaf: b}, x})
						}
					}
				}
			}
			r.ForAll("vote transactions", len(txs), func(i int) string { return trees(txs[i]) }, func(i int) {
				var msgs []sdk.Msg
				want := true
				for _, t := range txs[i] {
					msgs = append(msgs, t.msg(leaf))
					for _, l := range t.leaves() {
						want = want && !strings.HasPrefix(l, "poor")
					}
				}
				verdict("votes", trees(txs[i]), want, sg.ante(app, ms, msgs))
			})
		},
	})
	register(&Property{
		ID: "C31", Title: "Only software upgrades can be proposed as expedited, through any transaction",
		Assumptions: []string{"proposals submitted by smart contracts or by governance itself are not covered"},
		Need:        []string{"expedited:ok", "expedited:rejected"},
		Run: func(r *Run) {
			if r.dry {
				r.planned++
				return
			}
			app := r.App
			ms := app.GenesisStore(map[string]string{"faucet": "9000000000000stake"})
			sg := antePrep(app, ms, []string{"grantee", "p"})
			auth := gov()
			content := func(c govv1beta1.Content) sdk.Msg {
				a, err := codectypes.NewAnyWithValue(c.(interface {
					govv1beta1.Content
					codecProto
				}))
				check(err)
				return govv1.NewMsgExecLegacyContent(a, auth)
			}
			plan := upgradetypes.Plan{Name: "v9", Height: 1000}
			exp, err := govv1.NewMsgSubmitProposal([]sdk.Msg{&banktypes.MsgUpdateParams{Authority: auth, Params: banktypes.DefaultParams()}}, coins("1stake"), auth, "", "t", "s", true)
			check(err)
			gexec := authz.NewMsgExec(authtypes.NewModuleAddress("gov"), []sdk.Msg{&upgradetypes.MsgCancelUpgrade{Authority: auth}})
			inner := map[string]sdk.Msg{
				"upgrade": &upgradetypes.MsgSoftwareUpgrade{Authority: auth, Plan: plan}, "cancel": &upgradetypes.MsgCancelUpgrade{Authority: auth},
				"spend":  &distrtypes.MsgCommunityPoolSpend{Authority: auth, Recipient: keyAddr("p").String(), Amount: coins("1stake")},
				"params": &banktypes.MsgUpdateParams{Authority: auth, Params: banktypes.DefaultParams()},
				"text":   content(govv1beta1.NewTextProposal("t", "d").(*govv1beta1.TextProposal)), "legacyupgrade": content(upgradetypes.NewSoftwareUpgradeProposal("t", "d", plan).(*upgradetypes.SoftwareUpgradeProposal)),
				"proposal": exp, "exec": &gexec,
			}
			good := map[string]bool{"upgrade": true, "cancel": true}
			names := sortedKeys(inner)
			lists := []string{""}
			for _, a := range names {
				lists = append(lists, a)
				for _, b := range names {
					lists = append(lists, a+"+"+b)
					if good[a] && good[b] || r.Thorough() {
						for _, c := range names {
							lists = append(lists, a+"+"+b+"+"+c)
						}
					}
				}
			}
			var leaves []string
			for _, l := range lists {
				leaves = append(leaves, "x:"+l, "n:"+l)
			}
			leaf := func(l string) sdk.Msg {
				if l == "send" {
					return banktypes.NewMsgSend(keyAddr("grantee"), keyAddr("p"), coins("1stake"))
				}
				if strings.HasPrefix(l, "beta") {
					m, err := govv1beta1.NewMsgSubmitProposal(govv1beta1.NewTextProposal("t", "d"), coins("1stake"), keyAddr("p"))
					check(err)
					return m
				}
				var msgs []sdk.Msg
				if l[2:] != "" {
					for _, n := range strings.Split(l[2:], "+") {
						msgs = append(msgs, inner[n])
					}
				}
				m, err := govv1.NewMsgSubmitProposal(msgs, coins("1stake"), keyAddr("p").String(), "", "t", "s", l[0] == 'x')
				check(err)
				return m
			}
			allowed := func(l string) bool {
				if l[0] != 'x' {
					return true
				}
				if l[2:] == "" {
					return false
				}
				for _, n := range strings.Split(l[2:], "+") {
					if !good[n] {
						return false
					}
				}
				return true
			}
			var txs [][]msgTree
			for _, t := range nestings(append([]string{"send", "beta"}, leaves...), false) {
				txs = append(txs, []msgTree{t})
			}
			few := []string{"send", "beta", "x:upgrade", "x:cancel", "n:spend", "x:spend", "x:upgrade+params", "x:params+upgrade", "x:text", "x:", "x:proposal"}
			two := nestings(few, true)
			for _, a := range two {
				txs = append(txs, []msgTree{a})
				for _, b := range nestings(few, r.Thorough()) {
					txs = append(txs, []msgTree{a, b}, []msgTree{b, a})
				}
			}
			r.ForAll("expedited proposals", len(txs), func(i int) string { return trees(txs[i]) }, func(i int) {
				var msgs []sdk.Msg
				want := true
				for _, t := range txs[i] {
					msgs = append(msgs, t.msg(leaf))
					for _, l := range t.leaves() {
						want = want && allowed(l)
					}
				}
				out := sg.ante(app, ms, msgs)
				r.Count("expedited" + map[bool]string{true: ":ok", false: ":rejected"}[out.OK()])
				if want != out.OK() {
					Fail(fmt.Sprintf("expedited:%v", want), "%s should be %s, but the result is %s", trees(txs[i]), map[bool]string{true: "let through", false: "refused"}[want], out)
				}
			})
		},
	})
}

type codecProto interface {
	Reset()
	String() string
	ProtoMessage()
}

// truncDec truncates to the 18 decimals of the chain's arithmetic.
func truncDec(x *big.Rat) *big.Rat {
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(18), nil)
	n := new(big.Int).Mul(x.Num(), p)
	n.Quo(n, x.Denom())
	return new(big.Rat).SetFrac(n, p)
}

func setValidatorsOnce(app *App, ms *MStore) []string {
	return setValidators(app, app.Ctx(ms, 2, genTime), "m", 104, func(int) int64 { return 2 })
}
