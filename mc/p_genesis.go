package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	liquidvestingkeeper "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/keeper"
	liquidvestingtypes "github.com/milkyway-labs/milkyway/v3/x/liquidvesting/types"
)

// jsonTree is a parsed genesis state.
type jsonTree = any

func parseTree(bz json.RawMessage) jsonTree {
	var t jsonTree
	d := json.NewDecoder(strings.NewReader(string(bz)))
	d.UseNumber()
	check(d.Decode(&t))
	return t
}

// edited is a copy of a tree with the value at a path replaced.
func edited(t jsonTree, path []any, v any) jsonTree {
	if len(path) == 0 {
		return v
	}
	switch x := t.(type) {
	case map[string]any:
		out := map[string]any{}
		for k, w := range x {
			out[k] = w
		}
		out[path[0].(string)] = edited(x[path[0].(string)], path[1:], v)
		return out
	case []any:
		out := append([]any(nil), x...)
		out[path[0].(int)] = edited(x[path[0].(int)], path[1:], v)
		return out
	}
	panic("no such path")
}

// walkTree visits every value of a tree in a fixed order.
func walkTree(t jsonTree, path []any, f func(path []any, v jsonTree)) {
	f(path, t)
	switch x := t.(type) {
	case map[string]any:
		ks := make([]string, 0, len(x))
		for k := range x {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			walkTree(x[k], append(append([]any(nil), path...), k), f)
		}
	case []any:
		for i := range x {
			walkTree(x[i], append(append([]any(nil), path...), i), f)
		}
	}
}

// where is a path without its positions.
func where(path []any) string {
	var out []string
	for _, p := range path {
		if s, ok := p.(string); ok {
			out = append(out, s)
		}
	}
	return strings.Join(out, ".")
}

// flaw is a genesis state that contradicts itself.
type flaw struct {
	kind, what string
	gen        jsonTree
}

var reAddress = regexp.MustCompile(`^` + "(cosmos|milk|init)" + `1[a-z0-9]{38,}$`)

func flaws(mod string, t jsonTree) (out []flaw) {
	add := func(kind string, path []any, v any) {
		if lenient(kind + ":" + mod + ":" + where(path)) {
			return
		}
		out = append(out, flaw{kind + ":" + mod + ":" + where(path), fmt.Sprintf("%s at %v of %s", kind, path, mod), edited(t, path, v)})
	}
	walkTree(t, nil, func(path []any, v jsonTree) {
		key := ""
		for i := len(path) - 1; i >= 0 && key == ""; i-- {
			key, _ = path[i].(string)
		}
		if len(path) > 0 {
			if _, ok := path[len(path)-1].(string); ok || key == "allowed_channels" {
				for _, b := range badValues {
					if b.at.MatchString(mod + ":" + where(path)) {
						for _, w := range b.values {
							add(fmt.Sprintf("value %v", w), path, w)
						}
					}
				}
			}
		}
		switch x := v.(type) {
		case string:
			switch {
			case reAddress.MatchString(x):
				add("address", path, x[:len(x)-1])
				add("no-address", path, "")
			case key == "denom" || strings.HasSuffix(key, "denoms"):
				add("denom", path, "!")
			case strings.HasSuffix(key, "_id") || key == "id" || key == "unbonding_id":
				add("zero-id", path, "0")
			case key == "amount" || key == "shares" || key == "tokens" || strings.HasSuffix(key, "rate"):
				add("negative", path, "-1")
			case strings.HasSuffix(x, "Z") && strings.Contains(x, "T"):
				add("no-time", path, "0001-01-01T00:00:00Z")
			case key == "status" || key == "type":
				add("status", path, 0)
			}
		case json.Number:
			if strings.HasSuffix(key, "_id") || strings.HasSuffix(key, "_ids") || key == "id" {
				add("zero-id", path, 0)
			}
		case []any:
			if len(x) > 0 && len(path) > 0 {
				if _, ok := x[0].(map[string]any); ok {
					again := idempotent.MatchString("twice:" + mod + ":" + where(path))
					for i := range x {
						for j := 0; j <= len(x); j++ {
							if again && j > 0 && j < len(x) {
								continue
							}
							y := append([]any(nil), x[:j]...)
							y = append(y, x[i])
							add("twice", path, append(y, x[j:]...))
						}
					}
				}
			}
		}
	})
	// operators which are said to be unbonding are
	if m, ok := t.(map[string]any); ok && mod == "operators" {
		unb, _ := m["unbonding_operators"].([]any)
		ops, _ := m["operators"].([]any)
		for _, u := range unb {
			for i, o := range ops {
				if fmt.Sprint(o.(map[string]any)["id"]) == fmt.Sprint(u.(map[string]any)["operator_id"]) {
					add("active and unbonding", []any{"operators", i, "status"}, "OPERATOR_STATUS_ACTIVE")
					add("inactive and unbonding", []any{"operators", i, "status"}, "OPERATOR_STATUS_INACTIVE")
					add("missing and unbonding", []any{"operators"}, append(append([]any(nil), ops[:i]...), ops[i+1:]...))
				}
			}
		}
	}
	return
}

// badValues are impossible on their own.
var badValues = []struct {
	at     *regexp.Regexp
	values []any
}{
	{regexp.MustCompile(`^liquidvesting:params.insurance_percentage$`), []any{"0", "-1", "100.000000000000000001"}},
	{regexp.MustCompile(`^liquidvesting:params.allowed_channels$`), []any{"", "x"}},
	{regexp.MustCompile(`^liquidvesting:(user_insurance_funds.balance|burn_coins.amount).amount$`), []any{"0", "1000000000000000000"}},
	{regexp.MustCompile(`^operators:params.deactivation_time$`), []any{"0s", "-1s"}},
	{regexp.MustCompile(`^restaking:params.unbonding_time$`), []any{"0s"}},
	{regexp.MustCompile(`^operators:operators_params.params.commission_rate$`), []any{"1.000000000000000001"}},
	{regexp.MustCompile(`^assets:assets.exponent$`), []any{37, 4294967295}},
	{regexp.MustCompile(`^assets:assets.ticker$`), []any{"", "A!", "ABCDEFGHIJK"}},
	{regexp.MustCompile(`^(operators:operators.moniker|services:services.name)$`), []any{"", " "}},
	{regexp.MustCompile(`^rewards:rewards_plans.*.weights.weight$`), []any{0}},
	{regexp.MustCompile(`^rewards:rewards_plans.end_time$`), []any{"2000-01-01T00:00:00Z"}},
	{regexp.MustCompile(`^rewards:rewards_plans.*_distribution$`), []any{nil}},
	{regexp.MustCompile(`^rewards:rewards_plans.*_distribution.delegation_type$`), []any{0, 3}},
	{regexp.MustCompile(`^rewards:\w+_records.outstanding_rewards.outstanding_rewards.dec_coins.amount$`), []any{"1000000000000000000000.0"}},
	{regexp.MustCompile(`^operators:operators_params.operator_id$`), []any{4000000000}},
	{regexp.MustCompile(`^operators:unbonding_operators.operator_id$`), []any{4000000000}},
	{regexp.MustCompile(`^restaking:unbonding_delegations.entries$`), []any{[]any{}}},
}

// lenient tells which flaws are left to the invariants: what is derived from the delegations and rewards is not validated on its own.
func lenient(kind string) bool {
	for _, re := range lenientKinds {
		if re.MatchString(kind) {
			return true
		}
	}
	return false
}

var lenientKinds = []*regexp.Regexp{
	regexp.MustCompile(`^(denom|negative|twice):\w+:\w+\.(tokens|delegator_shares|shares)\b`),
	regexp.MustCompile(`^negative:pools:`),
	regexp.MustCompile(`^(denom|negative|twice|zero-id):rewards:(\w+_records|operator_accumulated_commissions)\b`),
	regexp.MustCompile(`^no-time:rewards:`),
	regexp.MustCompile(`^twice:(restaking:unbonding_delegations.entries|liquidvesting:user_insurance_funds|liquidvesting:burn_coins)$`),
}

// idempotent: these lists may name an entry again, which changes nothing.
var idempotent = regexp.MustCompile(`^twice:(assets:assets|pools:pools|restaking:delegations|restaking:unbonding_delegations|restaking:users_preferences|rewards:delegator_withdraw_infos|rewards:pool_service_total_delegator_shares)$`)

// imported initializes the modules from a genesis state and exports them again.
func imported(empty *State, gen map[string]json.RawMessage) (map[string]json.RawMessage, error) {
	n := empty.Branch()
	if err := n.App.importModules(n.Ctx(), gen); err != nil {
		return nil, err
	}
	return n.App.exportModules(n.Probe())
}

// refused: no flawed genesis state is accepted, and the order of the records does not matter.
func refused(r *Run, s *State) {
	gen := s.App.mustExport(s)
	empty := s.Branch()
	for _, m := range ourModules {
		empty.MS.Clear(m)
	}
	if back, err := imported(empty, gen); err != nil {
		Fail("genesis:import", "the exported state is not accepted: %v", err)
	} else if m, d := diffGenesis(gen, back); m != "" {
		Fail("genesis:lossy:"+m, "the state of %s changes:%s", m, d)
	}
	same := func(kind, what, mod string, t jsonTree) {
		bz, err := json.Marshal(t)
		check(err)
		g := cloneMap(gen)
		g[mod] = bz
		back, err := imported(empty, g)
		if err != nil {
			Fail("genesis:refused:"+kind, "a genesis state is refused with %s: %v", what, err)
		}
		if m, d := diffGenesis(gen, back); m != "" {
			Fail("genesis:differs:"+kind, "with %s, the state of %s is another one:%s", what, m, d)
		}
		r.Count("same:" + strings.SplitN(kind, ":", 2)[0])
	}
	for _, mod := range ourModules {
		t := parseTree(gen[mod])
		for _, f := range flaws(mod, t) {
			if idempotent.MatchString(f.kind) {
				same(f.kind, f.what, mod, f.gen)
				continue
			}
			bz, err := json.Marshal(f.gen)
			check(err)
			if s.App.validGenesis(mod, bz) == nil {
				g := cloneMap(gen)
				g[mod] = bz
				if _, err := imported(empty, g); err == nil {
					Fail("genesis:accepted:"+f.kind, "a genesis state is accepted with %s", f.what)
				}
			}
			r.Count("refused:" + f.kind)
		}
		walkTree(t, nil, func(path []any, v any) {
			if x, ok := v.([]any); ok && len(x) > 1 && len(path) <= 2 && path[0] != "params" {
				y := make([]any, len(x))
				for i := range x {
					y[len(x)-1-i] = x[i]
				}
				same("order:"+mod+":"+where(path), fmt.Sprintf("the reverse order at %v of %s", path, mod), mod, edited(t, path, y))
			}
		})
	}
	sums(r, s, gen, empty)
	r.Count("genesis")
}

// at is the list of records under a key.
func at(t jsonTree, keys ...string) (out []map[string]any) {
	for _, k := range keys[:len(keys)-1] {
		t = t.(map[string]any)[k]
	}
	l, _ := t.(map[string]any)[keys[len(keys)-1]].([]any)
	for _, x := range l {
		out = append(out, x.(map[string]any))
	}
	return
}

func amountOf(l []map[string]any, denom string) math.LegacyDec {
	for _, c := range l {
		if c["denom"] == denom {
			return math.LegacyMustNewDecFromStr(c["amount"].(string))
		}
	}
	return math.LegacyZeroDec()
}

// withAmount is a list of coins with another amount of a denom.
func withAmount(l []map[string]any, denom, amount string) (out []any) {
	done := false
	for _, c := range l {
		if c["denom"] == denom {
			c, done = cloneMap(c), true
			c["amount"] = amount
		}
		out = append(out, c)
	}
	if !done {
		out = append(out, map[string]any{"denom": denom, "amount": amount})
		sort.Slice(out, func(i, j int) bool {
			return out[i].(map[string]any)["denom"].(string) < out[j].(map[string]any)["denom"].(string)
		})
	}
	return
}

// sums: what the records promise together is held, covered and being unbonded.
func sums(r *Run, s *State, gen map[string]json.RawMessage, empty *State) {
	app := s.App
	trial := func(base *State, accepted bool, kind, what, mod string, t jsonTree) {
		bz, err := json.Marshal(t)
		check(err)
		g := cloneMap(gen)
		g[mod] = bz
		err = app.validGenesis(mod, bz)
		if err == nil {
			_, err = imported(base, g)
		}
		if (err == nil) != accepted {
			Fail("genesis:"+kind, "a genesis state with %s is accepted %v, not %v: %v", what, err == nil, accepted, err)
		}
		r.Count(fmt.Sprintf("%s:%v", kind, accepted))
	}
	held := func(name, denom string) math.LegacyDec {
		return math.LegacyNewDecFromInt(app.BankKeeper.GetBalance(s.Probe(), authtypes.NewModuleAddress(name), denom).Amount)
	}
	// drained is the empty state without the coins of a module account
	drained := func(name string, denom string) *State {
		n := empty.Branch()
		c := sdk.NewCoins(sdk.NewCoin(denom, held(name, denom).TruncateInt()))
		check(app.BankKeeper.SendCoinsFromModuleToAccount(n.Ctx(), name, addr("drained"), c))
		return n
	}

	lv := parseTree(gen["liquidvesting"])
	funds := at(lv, "user_insurance_funds")
	for i, f := range funds {
		user := f["user_address"].(string)
		res, err := liquidvestingkeeper.NewQuerier(app.LiquidVestingKeeper).UserInsuranceFund(s.Probe(), &liquidvestingtypes.QueryUserInsuranceFundRequest{UserAddress: user})
		check(err)
		for _, c := range at(f, "balance") {
			denom := c["denom"].(string)
			total := math.LegacyZeroDec()
			for j, g := range funds {
				if j != i {
					total = total.Add(amountOf(at(g, "balance"), denom))
				}
			}
			set := func(n math.LegacyDec) jsonTree {
				return edited(lv, []any{"user_insurance_funds", i, "balance"}, withAmount(at(f, "balance"), denom, n.TruncateInt().String()))
			}
			room := held("liquidvesting", denom).Sub(total)
			trial(empty, true, "fund as large as what is held", fmt.Sprintf("all that is held of %s in the fund of %s", denom, user), "liquidvesting", set(room))
			trial(empty, false, "fund larger than what is held", fmt.Sprintf("one more than what is held of %s in the fund of %s", denom, user), "liquidvesting", set(room.Add(math.LegacyOneDec())))
			another := func(n math.LegacyDec) jsonTree {
				f := edited(f, []any{"user_address"}, bech("another"))
				l := append([]any(nil), lv.(map[string]any)["user_insurance_funds"].([]any)...)
				return edited(lv, []any{"user_insurance_funds"}, append(l, edited(f, []any{"balance"}, withAmount(nil, denom, n.TruncateInt().String()))))
			}
			if rest := room.Sub(amountOf(at(f, "balance"), denom)); rest.IsPositive() {
				trial(empty, true, "fund of another as large as what is held", fmt.Sprintf("all the other %s that is held in the fund of another", denom), "liquidvesting", another(rest))
			}
			trial(empty, false, "fund of another larger than what is held", fmt.Sprintf("one more than the other %s that is held in the fund of another", denom), "liquidvesting", another(room.Sub(amountOf(at(f, "balance"), denom)).Add(math.LegacyOneDec())))
			trial(drained("liquidvesting", denom), false, "funds not held", fmt.Sprintf("funds of %s and an empty module account", denom), "liquidvesting", lv)
			if used := res.Used.AmountOf(denom); used.IsPositive() {
				trial(empty, false, "fund which does not cover", fmt.Sprintf("one less than the required %v%s in the fund of %s", used, denom, user), "liquidvesting", set(math.LegacyNewDecFromInt(used.SubRaw(1))))
				if used.IsPositive() {
					trial(empty, true, "fund which just covers", fmt.Sprintf("the required %v%s in the fund of %s", used, denom, user), "liquidvesting", set(math.LegacyNewDecFromInt(used)))
				}
			}
		}
		trial(empty, false, "fund of a denom not held", "a denom that is not held in the fund of "+user, "liquidvesting",
			edited(lv, []any{"user_insurance_funds", i, "balance"}, withAmount(at(f, "balance"), "notheld", "1")))
	}

	burns := at(lv, "burn_coins")
	for i, b := range burns {
		user := b["delegator_address"].(string)
		for _, c := range at(b, "amount") {
			denom := c["denom"].(string)
			room := math.LegacyZeroDec()
			for _, u := range at(parseTree(gen["restaking"]), "unbonding_delegations") {
				if u["delegator_address"] == user {
					for _, e := range at(u, "entries") {
						room = room.Add(amountOf(at(e, "balance"), denom))
					}
				}
			}
			for j, o := range burns {
				if o["delegator_address"] == user && j != i {
					room = room.Sub(amountOf(at(o, "amount"), denom))
				}
			}
			set := func(n math.LegacyDec) jsonTree {
				return edited(lv, []any{"burn_coins", i, "amount"}, withAmount(at(b, "amount"), denom, n.TruncateInt().String()))
			}
			trial(empty, true, "burns of all that is unbonding", fmt.Sprintf("queued burns of all the %s that %s unbonds", denom, user), "liquidvesting", set(room))
			trial(empty, false, "burns of more than is unbonding", fmt.Sprintf("queued burns of one more %s than %s unbonds", denom, user), "liquidvesting", set(room.Add(math.LegacyOneDec())))
			// the same in a second record
			more := edited(b, []any{"amount"}, withAmount(nil, denom, room.Sub(amountOf(at(b, "amount"), denom)).TruncateInt().AddRaw(1).String()))
			l := append([]any(nil), lv.(map[string]any)["burn_coins"].([]any)...)
			trial(empty, false, "burns of more than is unbonding", fmt.Sprintf("another queued burn, together of one more %s than %s unbonds", denom, user), "liquidvesting", edited(lv, []any{"burn_coins"}, append(l, more)))
		}
	}

	rw := parseTree(gen["rewards"])
	total := map[string]math.LegacyDec{}
	kinds := []string{"pools_records", "operators_records", "services_records"}
	for _, k := range kinds {
		for _, o := range at(rw, k, "outstanding_rewards") {
			for _, p := range at(o, "outstanding_rewards") {
				for _, c := range at(p, "dec_coins") {
					d := c["denom"].(string)
					if total[d].IsNil() {
						total[d] = math.LegacyZeroDec()
					}
					total[d] = total[d].Add(math.LegacyMustNewDecFromStr(c["amount"].(string)))
				}
			}
		}
	}
	for _, d := range sortedKeys(total) {
		if total[d].GTE(math.LegacyOneDec()) {
			trial(drained("rewards_pool", d), false, "rewards not held", fmt.Sprintf("outstanding rewards of %s and an empty rewards pool", d), "rewards", rw)
		}
	}
	for _, k := range kinds {
		for i, o := range at(rw, k, "outstanding_rewards") {
			for j, p := range at(o, "outstanding_rewards") {
				for _, c := range at(p, "dec_coins") {
					d := c["denom"].(string)
					own := math.LegacyMustNewDecFromStr(c["amount"].(string))
					set := func(n math.LegacyDec) jsonTree {
						return edited(rw, []any{k, "outstanding_rewards", i, "outstanding_rewards", j, "dec_coins"}, withAmount(at(p, "dec_coins"), d, n.String()))
					}
					room := held("rewards_pool", d).Sub(total[d]).Add(own)
					trial(empty, true, "rewards as large as what is held", fmt.Sprintf("all that is held of %s outstanding", d), "rewards", set(room))
					trial(empty, false, "rewards larger than what is held", fmt.Sprintf("one more than what is held of %s outstanding", d), "rewards", set(room.Add(math.LegacyOneDec())))
				}
				trial(empty, false, "rewards of a denom not held", "outstanding rewards of a denom that is not held", "rewards",
					edited(rw, []any{k, "outstanding_rewards", i, "outstanding_rewards", j, "dec_coins"}, withAmount(at(p, "dec_coins"), "notheld", "1.000000000000000000")))
			}
		}
	}
}

func init() {
	register(&Property{
		ID: "C40", Title: "Genesis states that contradict themselves are refused",
		Need: []string{"genesis", "refused:twice:operators:operators", "refused:twice:restaking:services_allowed_operators", "refused:twice:rewards:rewards_plans.pools_distribution.type.weights", "same:twice", "same:order",
			"fund as large as what is held:true", "fund larger than what is held:false", "funds not held:false", "fund of another larger than what is held:false", "fund which does not cover:false", "fund which just covers:true", "burns of all that is unbonding:true",
			"burns of more than is unbonding:false", "rewards not held:false", "rewards as large as what is held:true", "rewards larger than what is held:false"},
		Run: func(r *Run) {
			r.RM(loose("everything", r.Pick(1, 2), everything(always), systemOps, refused))
			r.RM(looseLV("liquid vesting", r.Pick(1, 2), lvSetup(dep(3, "tka", "u1:3"), mint("u1", "6tka"), mint("u2", "3tka"), Op{K: "del_pool", U: "u1", A: "1locked/tka"}, Op{K: "del_op", U: "u1", ID: 1, A: "1locked/tka"}), systemLV, refused))
			c := loose("three of everything", 1, rwSetup(always, append(trio(), Op{K: "accredit", U: "gov", ID: 1}, Op{K: "allow", U: "sa", ID: 1, ID2: 1}, Op{K: "allow", U: "sa", ID: 1, ID2: 2}, Op{K: "allow", U: "sa", ID: 1, ID2: 3},
				Op{K: "allow", U: "sx", ID: 2, ID2: 1}, Op{K: "allow", U: "sa", ID: 3, ID2: 2}, Op{K: "params_svc", U: "sx", ID: 2, S: "tka,tkc"}, Op{K: "params_svc", U: "sa", ID: 1, S: "tka,tkc,tkb"}, Op{K: "params_svc", U: "sa", ID: 3, S: "tka"},
				Op{K: "prefs", U: "u1", S: ":1,2,3"}, Op{K: "prefs", U: "u2", S: "na:3,1"}, Op{K: "prefs", U: "z", S: "n"}, Op{K: "plan", U: "sa", ID: 1, A: "86400rwd,86400rwx", S: "0,100000|b1|b2|b3|5rwd,5rwx"},
				Op{K: "deactivate_op", U: "oa", ID: 1}, Op{K: "deactivate_op", U: "oa", ID: 3}, Op{K: "deactivate_op", U: "ob", ID: 2}, Op{K: "waddr", U: "u1", S: "u2"}, Op{K: "waddr", U: "u2", S: "z"},
				Op{K: "und_op", U: "u1", ID: 1, A: "1tka,1tkb,1tkc"}, Op{K: "und_pool", U: "u2", A: "1tkc"}, Op{K: "und_svc", U: "u2", ID: 2, A: "1tka,1tkb"})...), trioOps[:r.Pick(7, len(trioOps))], refused)
			c.Bal = trioBal
			r.RM(c)
		},
	})
}
