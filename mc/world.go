package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strings"
	"sync"
	"time"

	abci "github.com/cometbft/cometbft/abci/types"
	tmproto "github.com/cometbft/cometbft/proto/tendermint/types"
	tmtypes "github.com/cometbft/cometbft/types"
	dbm "github.com/cosmos/cosmos-db"

	"cosmossdk.io/log"
	"cosmossdk.io/math"

	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	cryptocodec "github.com/cosmos/cosmos-sdk/crypto/codec"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	"github.com/cosmos/cosmos-sdk/server"
	simtestutil "github.com/cosmos/cosmos-sdk/testutil/sims"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"

	wasmkeeper "github.com/CosmWasm/wasmd/x/wasm/keeper"
	oracleconfig "github.com/skip-mev/connect/v2/oracle/config"
	connecttypes "github.com/skip-mev/connect/v2/pkg/types"
	oracletypes "github.com/skip-mev/connect/v2/x/oracle/types"

	milkyway "github.com/milkyway-labs/milkyway/v3/app"
	assetstypes "github.com/milkyway-labs/milkyway/v3/x/assets/types"
)

// App is the real application under test; its keepers hold no mutable state besides the stores.
type App struct {
	*milkyway.MilkyWayApp
	dir string
}

var genTime = time.Date(2025, 1, 1, 0, 0, 0, 600_000_000, time.UTC)

func NewApp() *App {
	dir, err := os.MkdirTemp("", "mc-app-")
	if err != nil {
		panic(err)
	}
	opts := simtestutil.AppOptionsMap{}
	opts[server.FlagInvCheckPeriod] = 0
	opts[server.FlagMinGasPrices] = "0uatom"
	app := milkyway.NewMilkyWayApp(log.NewNopLogger(), dbm.NewMemDB(), nil, true, map[int64]bool{}, dir,
		oracleconfig.NewDefaultAppConfig(), opts, []wasmkeeper.Option{})
	return &App{app, dir}
}

func (a *App) Close() {
	if strings.Contains(a.dir, "mc-app-") {
		_ = os.RemoveAll(a.dir)
	}
}

var keyAddrs sync.Map

// addr is the address of the account of a name, whose private key is key(name). The address of "long-x" has 32 bytes and
// begins like the one of x.
func addr(name string) sdk.AccAddress {
	if a, ok := keyAddrs.Load(name); ok {
		return a.(sdk.AccAddress)
	}
	a := keyAddr(strings.TrimPrefix(name, "long-"))
	if strings.HasPrefix(name, "long-") {
		a = append(append(sdk.AccAddress(nil), a...), make([]byte, 12)...)
	}
	keyAddrs.Store(name, a)
	return a
}

func bech(name string) string { return addr(name).String() }

func gov() string { return authtypes.NewModuleAddress("gov").String() }

func coin(denom string, n int64) sdk.Coin { return sdk.NewInt64Coin(denom, n) }

func coins(s string) sdk.Coins {
	c, err := sdk.ParseCoinsNormalized(s)
	if err != nil {
		panic(err)
	}
	return c
}

// GenesisStore builds the base state: a chain with one validator whose delegator is "valdel", and
// the given account balances. Inflation is zero so that blocks do not disturb balances.
func (a *App) GenesisStore(balances map[string]string) *MStore {
	gs := a.ModuleBasics.DefaultGenesis(a.AppCodec())
	cdc := a.AppCodec()

	pk := ed25519.GenPrivKeyFromSecret([]byte("validator")).PubKey()
	cmtPk, err := cryptocodec.ToCmtPubKeyInterface(pk)
	if err != nil {
		panic(err)
	}
	val := tmtypes.NewValidator(cmtPk, 1)

	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	supply := sdk.NewCoins()
	names := sortedKeys(balances)
	for _, n := range names {
		accs = append(accs, authtypes.NewBaseAccountWithAddress(addr(n)))
		if balances[n] == "" {
			continue
		}
		c := coins(balances[n])
		bals = append(bals, banktypes.Balance{Address: bech(n), Coins: c})
		supply = supply.Add(c...)
	}
	if _, ok := balances["valdel"]; !ok {
		accs = append(accs, authtypes.NewBaseAccountWithAddress(addr("valdel")))
	}
	for i, ac := range accs {
		_ = ac.SetAccountNumber(uint64(i))
	}
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))

	bond := sdk.DefaultPowerReduction
	pkAny, _ := codectypes.NewAnyWithValue(pk)
	valAddr := sdk.ValAddress(val.Address).String()
	validator := stakingtypes.Validator{
		OperatorAddress: valAddr, ConsensusPubkey: pkAny, Status: stakingtypes.Bonded, Tokens: bond,
		DelegatorShares: math.LegacyNewDecFromInt(bond), UnbondingTime: time.Unix(0, 0).UTC(),
		Commission:        stakingtypes.NewCommission(math.LegacyZeroDec(), math.LegacyZeroDec(), math.LegacyZeroDec()),
		MinSelfDelegation: math.ZeroInt(),
	}
	sp := stakingtypes.DefaultParams()
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(stakingtypes.NewGenesisState(sp,
		[]stakingtypes.Validator{validator},
		[]stakingtypes.Delegation{stakingtypes.NewDelegation(bech("valdel"), valAddr, math.LegacyNewDecFromInt(bond))}))
	supply = supply.Add(sdk.NewCoin(sdk.DefaultBondDenom, bond))
	bals = append(bals, banktypes.Balance{
		Address: authtypes.NewModuleAddress(stakingtypes.BondedPoolName).String(),
		Coins:   sdk.NewCoins(sdk.NewCoin(sdk.DefaultBondDenom, bond)),
	})
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(
		banktypes.DefaultGenesisState().Params, bals, supply, nil, nil))

	mg := minttypes.DefaultGenesisState()
	mg.Minter.Inflation = math.LegacyZeroDec()
	mg.Params.InflationMax = math.LegacyZeroDec()
	mg.Params.InflationMin = math.LegacyZeroDec()
	mg.Params.InflationRateChange = math.LegacyZeroDec()
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(mg)

	bz, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	ms := NewMStore()
	ctx := a.Ctx(ms, 1, genTime)
	cp := tmtypes.DefaultConsensusParams().ToProto()
	if err := a.ConsensusParamsKeeper.ParamsStore.Set(ctx, cp); err != nil {
		panic(err)
	}
	if _, err := a.InitChainer(ctx.WithConsensusParams(cp), &abci.RequestInitChain{AppStateBytes: bz}); err != nil {
		panic(err)
	}
	return ms
}

// Ctx makes a context over a store.
func (a *App) Ctx(ms *MStore, height int64, t time.Time) sdk.Context {
	return sdk.NewContext(ms, tmheader(height, t), false, log.NewNopLogger())
}

func tmheader(height int64, t time.Time) tmproto.Header {
	return tmproto.Header{Height: height, Time: t, ChainID: chainID, ProposerAddress: proposer}
}

// Outcome of one step on the real code.
type Outcome struct {
	Err    error
	Panic  string
	Resp   []byte
	Result *sdk.Result
}

func (o Outcome) OK() bool { return o.Err == nil && o.Panic == "" }
func (o Outcome) String() string {
	if o.Panic != "" {
		return "panic: " + o.Panic
	}
	if o.Err != nil {
		return "error: " + o.Err.Error()
	}
	return "ok"
}

func catch(f func() error) (err error, pan string) {
	defer func() {
		if r := recover(); r != nil {
			if _, isv := r.(violation); isv {
				panic(r)
			}
			pan = fmt.Sprint(r)
			if pan == "" {
				pan = "panic"
			}
		}
	}()
	return f(), ""
}

// Msg delivers one message the way a transaction does: through the router, on a branch which is
// dropped when the handler fails.
func (a *App) Msg(ctx sdk.Context, msg sdk.Msg) Outcome {
	h := a.MsgServiceRouter().Handler(msg)
	if h == nil {
		return Outcome{Err: fmt.Errorf("no handler for %T", msg)}
	}
	cctx, write := ctx.CacheContext()
	var o Outcome
	o.Err, o.Panic = catch(func() error {
		r, err := h(cctx, msg)
		o.Result = r
		return err
	})
	if o.OK() {
		write()
	}
	return o
}

func (a *App) MustMsg(ctx sdk.Context, msg sdk.Msg) *sdk.Result {
	o := a.Msg(ctx, msg)
	if !o.OK() {
		panic(fmt.Sprintf("setup message %T failed: %s", msg, o))
	}
	return o.Result
}

// EndBlock and BeginBlock run the whole module manager.
func (a *App) EndBlock(ctx sdk.Context) (o Outcome) {
	o.Err, o.Panic = catch(func() error { _, err := a.EndBlocker(ctx); return err })
	return
}

func (a *App) BeginBlock(ctx sdk.Context) (o Outcome) {
	o.Err, o.Panic = catch(func() error { _, err := a.BeginBlocker(ctx); return err })
	return
}

// SetAsset registers a denom with an oracle price, as governance and the oracle do.
func (a *App) SetAsset(ctx sdk.Context, denom, ticker string, exponent uint32, price int64) {
	cp := connecttypes.NewCurrencyPair(ticker, "USD")
	if err := a.OracleKeeper.SetPriceForCurrencyPair(ctx, cp, oracletypes.QuotePrice{
		Price: math.NewInt(price * 1_00000000), BlockTimestamp: genTime, BlockHeight: 1,
	}); err != nil {
		panic(err)
	}
	a.MustMsg(ctx, assetstypes.NewMsgRegisterAsset(gov(), assetstypes.NewAsset(denom, ticker, exponent)))
}
