package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"time"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"

	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
	poolstypes "github.com/milkyway-labs/milkyway/v3/x/pools/types"
	restakingtypes "github.com/milkyway-labs/milkyway/v3/x/restaking/types"
	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
)

// ---------------------------------------------------------------- amounts

// Amt is a multiset of tokens of the reference model.
type Amt map[string]int64

func amt(s string) Amt {
	out := Amt{}
	if s == "" {
		return out
	}
	for _, p := range strings.Split(s, ",") {
		i := 0
		for i < len(p) && (p[i] == '-' || p[i] >= '0' && p[i] <= '9') {
			i++
		}
		n, err := strconv.ParseInt(p[:i], 10, 64)
		if err != nil {
			panic(err)
		}
		out[p[i:]] += n
	}
	return out
}

func (a Amt) clone() Amt {
	out := make(Amt, len(a))
	for k, v := range a {
		if v != 0 {
			out[k] = v
		}
	}
	return out
}

func (a Amt) add(b Amt) Amt {
	out := a.clone()
	for k, v := range b {
		out[k] += v
		if out[k] == 0 {
			delete(out, k)
		}
	}
	return out
}

func (a Amt) neg() Amt {
	out := Amt{}
	for k, v := range a {
		out[k] = -v
	}
	return out
}

func (a Amt) sub(b Amt) Amt { return a.add(b.neg()) }

func (a Amt) gte(b Amt) bool {
	for k, v := range b {
		if a[k] < v {
			return false
		}
	}
	return true
}

func (a Amt) zero() bool {
	for _, v := range a {
		if v != 0 {
			return false
		}
	}
	return true
}

// positive: there is something, and nothing zero or negative.
func (a Amt) positive() bool {
	for _, v := range a {
		if v <= 0 {
			return false
		}
	}
	return len(a) > 0
}

func (a Amt) String() string {
	var parts []string
	for _, k := range sortedKeys(a) {
		if a[k] != 0 {
			parts = append(parts, fmt.Sprintf("%d%s", a[k], k))
		}
	}
	return strings.Join(parts, ",")
}

func (a Amt) coins() sdk.Coins {
	c := sdk.Coins{} // explicit zeros stay
	for _, k := range sortedKeys(a) {
		c = append(c, sdk.Coin{Denom: k, Amount: math.NewInt(a[k])})
	}
	return c
}

func amtOf(c sdk.Coins) Amt {
	out := Amt{}
	for _, x := range c {
		out[x.Denom] += x.Amount.Int64()
	}
	return out
}

// ---------------------------------------------------------------- facts

// Facts is an observable state, flattened. An absent key means the empty value.
type Facts map[string]string

func (f Facts) set(k, v string) {
	if v != "" {
		f[k] = v
	}
}

type factDiff struct{ Key, Want, Got string }

func diffFacts(want, got Facts) []factDiff {
	var out []factDiff
	for k, v := range want {
		if got[k] != v {
			out = append(out, factDiff{k, v, got[k]})
		}
	}
	for k, v := range got {
		if _, ok := want[k]; !ok && v != "" {
			out = append(out, factDiff{k, "", v})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Key < out[j].Key })
	return out
}

// ---------------------------------------------------------------- reference model

type mOp struct {
	Admin, Moniker, Web, Pic string
	Status                   string // active, inactivating, inactive
	Due                      int64  // when inactivating: time at which it becomes inactive
	Rate                     string // commission rate, "0.1"
}

type mSvc struct {
	Admin, Name, Desc, Web, Pic string
	Status                      string // created, active, inactive
	Accredited                  bool
	Denoms                      string // allowed denoms, comma separated
}

type delKey struct {
	User, Kind string
	ID         uint32
}

func (k delKey) String() string { return fmt.Sprintf("%s/%s/%d", k.User, k.Kind, k.ID) }

type mUbd struct {
	delKey
	A  Amt
	At int64
}

type mPref struct {
	Non, Acc bool
	IDs      string
}

// RM is the reference model of operators, services, pools and restaking.
type RM struct {
	Users  []string // whose balances are compared
	Denoms []string // all denoms of the scenario
	Now    int64
	Bal    map[string]Amt // user name, or "op/1", "svc/1", "pool/1", "community"
	Ops    map[uint32]*mOp
	NextOp uint32
	Svcs   map[uint32]*mSvc
	NextSv uint32
	Pools  map[string]uint32
	NextPl uint32
	Del    map[delKey]Amt
	Ubd    []mUbd
	Joined map[[2]uint32]bool // op, svc
	Allow  map[[2]uint32]bool // svc, op
	Secure map[[2]uint32]bool // svc, pool
	Prefs  map[string]mPref

	UnbondTime int64
	Allowed    string // restakable denoms
	OpFee      Amt
	DeactTime  int64
	SvcFee     Amt
	FeesPaid   Amt

	RW *RW // rewards, when the scenario covers them
	LV *LV // liquid vesting, when the scenario covers it
}

func NewRM(t time.Time) *RM {
	return &RM{
		Now: t.UnixMilli(), Bal: map[string]Amt{}, Ops: map[uint32]*mOp{}, NextOp: 1, Svcs: map[uint32]*mSvc{}, NextSv: 1,
		Pools: map[string]uint32{}, NextPl: 1, Del: map[delKey]Amt{}, Joined: map[[2]uint32]bool{}, Allow: map[[2]uint32]bool{},
		Secure: map[[2]uint32]bool{}, Prefs: map[string]mPref{}, UnbondTime: 3 * 24 * 3600_000, DeactTime: 3 * 24 * 3600_000,
		OpFee: Amt{}, SvcFee: Amt{}, FeesPaid: Amt{},
	}
}

// ids are the identifiers below next that a scenario uses.
func ids(next uint32) []uint32 {
	var out []uint32
	for id := uint32(1); id < next; id++ {
		if id < 16 || next-id < 4 || id&0xff < 4 && id < 0x400 || id&0xffff < 4 {
			out = append(out, id)
		}
	}
	return out
}

func (m *RM) Clone() Model { return m.clone() }

func (m *RM) clone() *RM {
	n := *m
	n.Bal = make(map[string]Amt, len(m.Bal))
	for k, v := range m.Bal {
		n.Bal[k] = v // Amts are never mutated in place
	}
	n.Ops = make(map[uint32]*mOp, len(m.Ops))
	for k, v := range m.Ops {
		c := *v
		n.Ops[k] = &c
	}
	n.Svcs = make(map[uint32]*mSvc, len(m.Svcs))
	for k, v := range m.Svcs {
		c := *v
		n.Svcs[k] = &c
	}
	n.Pools = cloneMap(m.Pools)
	n.Del = cloneMap(m.Del)
	n.Ubd = append([]mUbd(nil), m.Ubd...)
	n.Joined, n.Allow, n.Secure, n.Prefs = cloneMap(m.Joined), cloneMap(m.Allow), cloneMap(m.Secure), cloneMap(m.Prefs)
	n.RW = m.RW.clone()
	n.LV = m.LV.clone()
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m))
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (m *RM) Key() string {
	k := ""
	if m.RW != nil {
		k = m.RW.key()
	}
	if m.LV != nil {
		k += m.LV.key()
	}
	return k
}

func (m *RM) move(from, to string, a Amt) bool {
	if !m.Bal[from].gte(a) {
		return false
	}
	m.Bal[from] = m.Bal[from].sub(a)
	m.Bal[to] = m.Bal[to].add(a)
	return true
}

// Op is one message of the scenario alphabet.
type Op struct {
	K   string // kind
	U   string // sender
	ID  uint32
	ID2 uint32
	A   string // amount
	S   string // free parameter
}

func (o Op) String() string {
	s := o.K + "(" + o.U
	if o.ID != 0 {
		s += fmt.Sprintf(",%d", o.ID)
	}
	if o.ID2 != 0 {
		s += fmt.Sprintf(",%d", o.ID2)
	}
	if o.A != "" {
		s += "," + o.A
	}
	if o.S != "" {
		s += "," + o.S
	}
	return s + ")"
}

func who(name string) string {
	switch name {
	case "gov":
		return gov()
	case "bad":
		return "notanaddress"
	}
	if strings.HasPrefix(name, alias) {
		return strings.ToUpper(bech(name[len(alias):]))
	}
	return bech(name)
}

// alias marks a user whose address is spelled in upper case, which bech32 allows: "^u1" is the account of "u1".
const alias = "^"

// plain names the accounts of an operation whatever the spelling of their addresses.
func (o Op) plain() Op {
	o.U, o.S = strings.TrimPrefix(o.U, alias), strings.ReplaceAll(o.S, alias, "")
	return o
}

const keep = "[do-not-modify]"

func splitList(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func parsePref(s string) (mPref, []uint32) { // "tka" flags then ids: "na:1,2"
	parts := strings.SplitN(s, ":", 2)
	p := mPref{Non: strings.Contains(parts[0], "n"), Acc: strings.Contains(parts[0], "a")}
	var ids []uint32
	if len(parts) == 2 {
		p.IDs = parts[1]
		for _, x := range splitList(parts[1]) {
			n, _ := strconv.Atoi(x)
			ids = append(ids, uint32(n))
		}
	}
	return p, ids
}

// field picks positional text parameters "a|b|c".
func field(s string, i int) string {
	p := strings.Split(s, "|")
	if i < len(p) {
		return p[i]
	}
	return ""
}

// Msg builds the real message.
func (o Op) Msg() sdk.Msg {
	if strings.HasPrefix(o.K, byContract) { // the owner of a contract has it do something
		o.K, o.U = strings.TrimPrefix(o.K, byContract), "contract"
		return execContract(bech("co"), nil, reflectMsgs(o.Msg()))
	}
	u := who(o.U)
	a := amt(o.A).coins()
	one := func() sdk.Coin {
		if len(a) == 0 {
			return sdk.Coin{Denom: "tka", Amount: math.ZeroInt()}
		}
		return a[0]
	}
	switch o.K {
	case "register_op":
		return operatorstypes.NewMsgRegisterOperator(field(o.S, 0), field(o.S, 1), field(o.S, 2), a, u)
	case "update_op":
		return operatorstypes.NewMsgUpdateOperator(o.ID, field(o.S, 0), field(o.S, 1), field(o.S, 2), u)
	case "deactivate_op":
		return operatorstypes.NewMsgDeactivateOperator(o.ID, u)
	case "reactivate_op":
		return operatorstypes.NewMsgReactivateOperator(o.ID, u)
	case "delete_op":
		return operatorstypes.NewMsgDeleteOperator(o.ID, u)
	case "transfer_op":
		return operatorstypes.NewMsgTransferOperatorOwnership(o.ID, who(o.S), u)
	case "params_op":
		return operatorstypes.NewMsgSetOperatorParams(o.ID, operatorstypes.NewOperatorParams(math.LegacyMustNewDecFromStr(o.S)), u)
	case "create_svc":
		return servicestypes.NewMsgCreateService(field(o.S, 0), field(o.S, 1), field(o.S, 2), field(o.S, 3), a, u)
	case "update_svc":
		return servicestypes.NewMsgUpdateService(o.ID, field(o.S, 0), field(o.S, 1), field(o.S, 2), field(o.S, 3), u)
	case "activate_svc":
		return servicestypes.NewMsgActivateService(o.ID, u)
	case "deactivate_svc":
		return servicestypes.NewMsgDeactivateService(o.ID, u)
	case "delete_svc":
		return servicestypes.NewMsgDeleteService(o.ID, u)
	case "transfer_svc":
		return servicestypes.NewMsgTransferServiceOwnership(o.ID, who(o.S), u)
	case "params_svc":
		return servicestypes.NewMsgSetServiceParams(o.ID, servicestypes.NewServiceParams(splitList(o.S)), u)
	case "accredit":
		return servicestypes.NewMsgAccreditService(o.ID, u)
	case "revoke":
		return servicestypes.NewMsgRevokeServiceAccreditation(o.ID, u)
	case "join":
		return restakingtypes.NewMsgJoinService(o.ID, o.ID2, u)
	case "leave":
		return restakingtypes.NewMsgLeaveService(o.ID, o.ID2, u)
	case "allow":
		return restakingtypes.NewMsgAddOperatorToAllowList(o.ID, o.ID2, u)
	case "disallow":
		return restakingtypes.NewMsgRemoveOperatorFromAllowList(o.ID, o.ID2, u)
	case "borrow":
		return restakingtypes.NewMsgBorrowPoolSecurity(o.ID, o.ID2, u)
	case "cease":
		return restakingtypes.NewMsgCeasePoolSecurityBorrow(o.ID, o.ID2, u)
	case "del_pool":
		return restakingtypes.NewMsgDelegatePool(one(), u)
	case "del_op":
		return restakingtypes.NewMsgDelegateOperator(o.ID, a, u)
	case "del_svc":
		return restakingtypes.NewMsgDelegateService(o.ID, a, u)
	case "und_pool":
		return restakingtypes.NewMsgUndelegatePool(one(), u)
	case "und_op":
		return restakingtypes.NewMsgUndelegateOperator(o.ID, a, u)
	case "und_svc":
		return restakingtypes.NewMsgUndelegateService(o.ID, a, u)
	case "prefs":
		p, ids := parsePref(o.S)
		return restakingtypes.NewMsgSetUserPreferences(restakingtypes.NewUserPreferences(p.Non, p.Acc, ids), u)
	case "rparams":
		return restakingtypes.NewMsgUpdateParams(restakingtypes.NewParams(time.Duration(o.ID)*time.Second, splitList(o.S)), u)
	case "oparams":
		return operatorstypes.NewMsgUpdateParams(operatorstypes.NewParams(a, time.Duration(o.ID)*time.Second), u)
	case "sparams":
		return servicestypes.NewMsgUpdateParams(servicestypes.NewParams(a), u)
	}
	if msg := o.rwMsg(); msg != nil {
		return msg
	}
	if msg := o.lvMsg(); msg != nil {
		return msg
	}
	panic("unknown op " + o.K)
}

func in(list []string, s string) bool {
	for _, x := range list {
		if x == s {
			return true
		}
	}
	return false
}

func (m *RM) hasStake(kind string, id uint32) bool {
	for k := range m.Del {
		if k.Kind == kind && k.ID == id {
			return true
		}
	}
	for _, u := range m.Ubd {
		if u.Kind == kind && u.ID == id {
			return true
		}
	}
	return false
}

// denomsRestakable says whether every denom may be restaked to a target (svc 0: no service list).
func (m *RM) denomsRestakable(svc uint32, a Amt) bool {
	for d := range a {
		if m.Allowed != "" && !in(splitList(m.Allowed), d) {
			return false
		}
		if svc != 0 && m.Svcs[svc].Denoms != "" && !in(splitList(m.Svcs[svc].Denoms), d) {
			return false
		}
	}
	return true
}

func (m *RM) delegate(u, kind string, id uint32, a Amt) bool {
	if m.LV != nil {
		if l := onlyLocked(a); !l.zero() && !m.covered(u, nil, l) {
			return false
		}
	}
	if !m.move(u, fmt.Sprintf("%s/%d", kind, id), a) {
		return false
	}
	k := delKey{u, kind, id}
	m.Del[k] = m.Del[k].add(a)
	return true
}

func (m *RM) undelegate(u, kind string, id uint32, a Amt) bool {
	k := delKey{u, kind, id}
	d, ok := m.Del[k]
	if !ok || !d.gte(a) {
		return false
	}
	if d = d.sub(a); d.zero() {
		delete(m.Del, k)
	} else {
		m.Del[k] = d
	}
	m.Ubd = append(m.Ubd, mUbd{k, a, m.Now + m.UnbondTime})
	return true
}

func (m *RM) register(fee, paid Amt, u string) bool {
	if fee.zero() {
		return true
	}
	enough := false
	for d, v := range fee {
		if v > 0 && paid[d] >= v {
			enough = true
		}
	}
	if !enough {
		return false
	}
	if m.LV != nil && !m.maySend(u, "community", paid) {
		return false
	}
	if !m.move(u, "community", paid) {
		return false
	}
	m.FeesPaid = m.FeesPaid.add(paid)
	return true
}

func upd(old, new string) string {
	if new == keep {
		return old
	}
	return new
}

// Apply predicts the outcome of a message: it returns whether it is accepted, and moves the model.
func (m *RM) Apply(o Op) bool {
	if m.LV != nil {
		if ok, handled := m.applyLV(o); handled {
			return ok
		}
	}
	if m.RW == nil {
		return m.apply(o)
	}
	if ok, handled := m.applyRW(o); handled {
		return ok
	}
	// what the operation means for the rewards
	var ok bool
	f := func() { ok = m.apply(o) }
	switch o.K {
	case "prefs":
		m.trustChange(m.svcIDs(), f)
	case "accredit", "revoke", "delete_svc":
		m.trustChange([]uint32{o.ID}, f)
		if ok && o.K == "delete_svc" {
			for id, p := range m.RW.Plans {
				if p.Svc == o.ID {
					m.terminate(id)
				}
			}
		}
	case "delete_op":
		var admin string
		if x := m.Ops[o.ID]; x != nil {
			admin = x.Admin
		}
		f()
		if ok {
			if c := m.RW.Comm[o.ID]; len(c) > 0 {
				m.RW.Pay = append(m.RW.Pay, payout{To: m.RW.waddr(admin), A: c, Slack: int64(len(m.Denoms))})
			}
			delete(m.RW.Comm, o.ID)
		}
	default:
		f()
		if ok && len(o.K) > 4 && (o.K[:4] == "del_" || o.K[:4] == "und_") {
			k := delKey{o.U, o.K[4:], o.ID}
			if k.Kind == "pool" {
				k.ID = m.Pools[sortedKeys(amt(o.A))[0]]
			}
			m.withdraw(k)
		}
	}
	return ok
}

func (m *RM) apply(o Op) bool {
	a := amt(o.A)
	op := m.Ops[o.ID]
	svc := m.Svcs[o.ID]
	pos := a.positive()
	opAdmin := op != nil && op.Admin == o.U
	svcAdmin := svc != nil && svc.Admin == o.U
	isGov := o.U == "gov"
	switch o.K {
	case "register_op":
		name := field(o.S, 0)
		if strings.TrimSpace(name) == "" || name == keep || field(o.S, 1) == keep || field(o.S, 2) == keep {
			return false
		}
		if !m.register(m.OpFee, a, o.U) {
			return false
		}
		m.Ops[m.NextOp] = &mOp{Admin: o.U, Moniker: name, Web: field(o.S, 1), Pic: field(o.S, 2), Status: "active", Rate: ""}
		m.NextOp++
		return true
	case "update_op":
		if !opAdmin {
			return false
		}
		name := upd(op.Moniker, field(o.S, 0))
		if strings.TrimSpace(name) == "" {
			return false
		}
		op.Moniker, op.Web, op.Pic = name, upd(op.Web, field(o.S, 1)), upd(op.Pic, field(o.S, 2))
		return true
	case "deactivate_op":
		if !opAdmin || op.Status != "active" {
			return false
		}
		op.Status, op.Due = "inactivating", m.Now+m.DeactTime
		return true
	case "reactivate_op":
		if !opAdmin || op.Status != "inactive" {
			return false
		}
		op.Status = "active"
		return true
	case "delete_op":
		if !opAdmin || op.Status != "inactive" || m.hasStake("op", o.ID) {
			return false
		}
		delete(m.Ops, o.ID)
		for k := range m.Joined {
			if k[0] == o.ID {
				delete(m.Joined, k)
			}
		}
		for k := range m.Allow {
			if k[1] == o.ID {
				delete(m.Allow, k)
				if s := m.Svcs[k[0]]; s.Status == "active" && !m.hasAllow(k[0]) {
					s.Status = "inactive"
				}
			}
		}
		return true
	case "transfer_op":
		if !opAdmin || o.S == "bad" {
			return false
		}
		op.Admin = o.S
		return true
	case "params_op":
		d := math.LegacyMustNewDecFromStr(o.S)
		if !opAdmin || d.IsNegative() || d.GT(math.LegacyOneDec()) {
			return false
		}
		op.Rate = d.String()
		return true
	case "create_svc":
		name := field(o.S, 0)
		if strings.TrimSpace(name) == "" || name == keep {
			return false
		}
		if !m.register(m.SvcFee, a, o.U) {
			return false
		}
		m.Svcs[m.NextSv] = &mSvc{Admin: o.U, Name: name, Desc: field(o.S, 1), Web: field(o.S, 2), Pic: field(o.S, 3), Status: "created"}
		m.NextSv++
		return true
	case "update_svc":
		if !svcAdmin {
			return false
		}
		name := upd(svc.Name, field(o.S, 0))
		if strings.TrimSpace(name) == "" {
			return false
		}
		svc.Name, svc.Desc, svc.Web, svc.Pic = name, upd(svc.Desc, field(o.S, 1)), upd(svc.Web, field(o.S, 2)), upd(svc.Pic, field(o.S, 3))
		return true
	case "activate_svc":
		if !svcAdmin || svc.Status == "active" {
			return false
		}
		svc.Status = "active"
		return true
	case "deactivate_svc":
		if !svcAdmin || svc.Status != "active" {
			return false
		}
		svc.Status = "inactive"
		return true
	case "delete_svc":
		if !svcAdmin || svc.Status == "active" || m.hasStake("svc", o.ID) {
			return false
		}
		delete(m.Svcs, o.ID)
		for k := range m.Joined {
			if k[1] == o.ID {
				delete(m.Joined, k)
			}
		}
		for k := range m.Allow {
			if k[0] == o.ID {
				delete(m.Allow, k)
			}
		}
		for k := range m.Secure {
			if k[0] == o.ID {
				delete(m.Secure, k)
			}
		}
		return true
	case "transfer_svc":
		if !svcAdmin || o.S == "bad" {
			return false
		}
		svc.Admin = o.S
		return true
	case "params_svc":
		if !svcAdmin {
			return false
		}
		for _, d := range splitList(o.S) {
			if sdk.ValidateDenom(d) != nil {
				return false
			}
		}
		svc.Denoms = o.S
		return true
	case "accredit", "revoke":
		if !isGov || svc == nil {
			return false
		}
		svc.Accredited = o.K == "accredit"
		return true
	case "join":
		s := m.Svcs[o.ID2]
		if !opAdmin || s == nil || s.Status != "active" {
			return false
		}
		m.Joined[[2]uint32{o.ID, o.ID2}] = true
		return true
	case "leave":
		if !opAdmin || m.Svcs[o.ID2] == nil {
			return false
		}
		delete(m.Joined, [2]uint32{o.ID, o.ID2})
		return true
	case "allow":
		k := [2]uint32{o.ID, o.ID2}
		if !svcAdmin || m.Ops[o.ID2] == nil || m.Allow[k] {
			return false
		}
		m.Allow[k] = true
		return true
	case "disallow":
		k := [2]uint32{o.ID, o.ID2}
		if !svcAdmin || !m.Allow[k] {
			return false
		}
		delete(m.Allow, k)
		return true
	case "borrow":
		k := [2]uint32{o.ID, o.ID2}
		if !svcAdmin || svc.Status != "active" || !m.hasPool(o.ID2) || m.Secure[k] {
			return false
		}
		m.Secure[k] = true
		return true
	case "cease":
		k := [2]uint32{o.ID, o.ID2}
		if !svcAdmin || !m.Secure[k] {
			return false
		}
		delete(m.Secure, k)
		return true
	case "del_pool":
		if !pos || !m.denomsRestakable(0, a) || !m.Bal[o.U].gte(a) {
			return false
		}
		d := sortedKeys(a)[0]
		if m.Pools[d] == 0 {
			m.Pools[d] = m.NextPl
			m.NextPl++
		}
		return m.delegate(o.U, "pool", m.Pools[d], a)
	case "del_op":
		if !pos || op == nil || op.Status != "active" || !m.denomsRestakable(0, a) {
			return false
		}
		return m.delegate(o.U, "op", o.ID, a)
	case "del_svc":
		if !pos || svc == nil || svc.Status != "active" || !m.denomsRestakable(o.ID, a) {
			return false
		}
		return m.delegate(o.U, "svc", o.ID, a)
	case "und_pool":
		if !pos {
			return false
		}
		d := sortedKeys(a)[0]
		if m.Pools[d] == 0 {
			return false
		}
		return m.undelegate(o.U, "pool", m.Pools[d], a)
	case "und_op":
		if !pos || op == nil {
			return false
		}
		return m.undelegate(o.U, "op", o.ID, a)
	case "und_svc":
		if !pos || svc == nil {
			return false
		}
		return m.undelegate(o.U, "svc", o.ID, a)
	case "prefs":
		p, ids := parsePref(o.S)
		for _, id := range ids {
			if m.Svcs[id] == nil {
				return false
			}
		}
		m.Prefs[o.U] = p
		return true
	case "rparams":
		if !isGov || o.ID == 0 {
			return false
		}
		m.UnbondTime, m.Allowed = int64(o.ID)*1000, o.S
		return true
	case "oparams":
		if !isGov || o.ID == 0 {
			return false
		}
		m.OpFee, m.DeactTime = a, int64(o.ID)*1000
		return true
	case "sparams":
		if !isGov {
			return false
		}
		m.SvcFee = a
		return true
	}
	panic("unknown op " + o.K)
}

func (m *RM) hasAllow(svc uint32) bool {
	for k := range m.Allow {
		if k[0] == svc {
			return true
		}
	}
	return false
}

func (m *RM) hasPool(id uint32) bool { return id > 0 && id < m.NextPl }

// EndBlock pays out what is due at the current time; BeginBlock at the next time completes operator
// inactivations.
func (m *RM) EndBlock() (paid []mUbd) {
	var rest []mUbd
	for _, u := range m.Ubd {
		if u.At <= m.Now {
			if !m.move(fmt.Sprintf("%s/%d", u.Kind, u.ID), u.User, u.A) {
				panic("model: escrow underflow")
			}
			paid = append(paid, u)
		} else {
			rest = append(rest, u)
		}
	}
	m.Ubd = rest
	if m.LV != nil {
		m.LV.endBlock(m)
	}
	return paid
}

func (m *RM) BeginBlock(now int64) {
	m.Now = now
	if m.RW != nil {
		for id, p := range m.RW.Plans {
			if now-genTime.UnixMilli() >= p.End {
				m.terminate(id)
			}
		}
		m.allocate(now)
	}
	for _, op := range m.Ops {
		if op.Status == "inactivating" && op.Due <= now {
			op.Status, op.Due, op.Rate = "inactive", 0, ""
		}
	}
}

// Facts renders the model.
func (m *RM) Facts() Facts {
	f := Facts{}
	for _, u := range m.Users {
		f.set("bal/"+u, m.Bal[u].String())
	}
	f.set("bal/community", m.Bal["community"].String())
	tt := map[string]Amt{}
	for k, a := range m.Del {
		f.set("del/"+k.String(), a.String())
		t := fmt.Sprintf("%s/%d", k.Kind, k.ID)
		tt[t] = tt[t].add(a)
	}
	for t, a := range tt {
		f.set("tokens/"+t, a.String())
		f.set("shares/"+t, a.String())
	}
	for _, id := range ids(m.NextOp) {
		t := fmt.Sprintf("op/%d", id)
		f.set("escrow/"+t, m.Bal[t].String())
	}
	for _, id := range ids(m.NextSv) {
		t := fmt.Sprintf("svc/%d", id)
		f.set("escrow/"+t, m.Bal[t].String())
	}
	for _, id := range ids(m.NextPl) {
		t := fmt.Sprintf("pool/%d", id)
		f.set("escrow/"+t, m.Bal[t].String())
	}
	ub := map[string]map[int64]Amt{}
	for _, u := range m.Ubd {
		k := u.delKey.String()
		if ub[k] == nil {
			ub[k] = map[int64]Amt{}
		}
		ub[k][u.At] = ub[k][u.At].add(u.A)
	}
	for k, v := range ub {
		f.set("ubd/"+k, fmtUbd(v))
	}
	for id, o := range m.Ops {
		f[fmt.Sprintf("op/%d/admin", id)] = who(o.Admin)
		f[fmt.Sprintf("op/%d/status", id)] = o.Status
		f[fmt.Sprintf("op/%d/text", id)] = o.Moniker + "|" + o.Web + "|" + o.Pic
		f.set(fmt.Sprintf("op/%d/rate", id), normRate(o.Rate))
		if o.Status == "inactivating" {
			f[fmt.Sprintf("op/%d/due", id)] = fmt.Sprint(o.Due)
		}
	}
	for id, s := range m.Svcs {
		f[fmt.Sprintf("svc/%d/admin", id)] = who(s.Admin)
		f[fmt.Sprintf("svc/%d/status", id)] = s.Status
		f[fmt.Sprintf("svc/%d/text", id)] = s.Name + "|" + s.Desc + "|" + s.Web + "|" + s.Pic
		f[fmt.Sprintf("svc/%d/accredited", id)] = fmt.Sprint(s.Accredited)
		f.set(fmt.Sprintf("svc/%d/denoms", id), s.Denoms)
	}
	for d, id := range m.Pools {
		f["pool/"+d] = fmt.Sprint(id)
	}
	for k := range m.Joined {
		f[fmt.Sprintf("join/%d/%d", k[0], k[1])] = "y"
	}
	for k := range m.Allow {
		f[fmt.Sprintf("allow/%d/%d", k[0], k[1])] = "y"
	}
	for k := range m.Secure {
		f[fmt.Sprintf("secure/%d/%d", k[0], k[1])] = "y"
	}
	for u, p := range m.Prefs {
		f["pref/"+u] = fmtPref(p.Non, p.Acc, p.IDs)
	}
	f["params/restaking"] = fmt.Sprintf("%d %s", m.UnbondTime, m.Allowed)
	f["params/operators"] = fmt.Sprintf("%s %d", m.OpFee, m.DeactTime)
	f["params/services"] = m.SvcFee.String()
	if m.RW != nil {
		for k, v := range m.RW.facts(m) {
			f[k] = v
		}
	}
	if m.LV != nil {
		for k, v := range m.LV.facts(m) {
			f[k] = v
		}
	}
	return f
}

func normRate(s string) string {
	if s == "" {
		return ""
	}
	d := math.LegacyMustNewDecFromStr(s)
	if d.IsZero() {
		return ""
	}
	return d.String()
}

func fmtPref(non, acc bool, ids string) string {
	if !non && acc && ids == "" {
		return "" // the default
	}
	return fmt.Sprintf("%v %v %s", non, acc, ids)
}

func fmtUbd(v map[int64]Amt) string {
	var ts []int64
	for t := range v {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i] < ts[j] })
	var out []string
	for _, t := range ts {
		if !v[t].zero() {
			out = append(out, fmt.Sprintf("%s@%d", v[t], t))
		}
	}
	return strings.Join(out, ";")
}

// ---------------------------------------------------------------- observation

func (a *App) balance(ctx sdk.Context, ad sdk.AccAddress, denoms []string) string {
	out := Amt{}
	for _, d := range denoms {
		if n := a.BankKeeper.GetBalance(ctx, ad, d).Amount; !n.IsZero() {
			out[d] = n.Int64()
		}
	}
	return out.String()
}

// userNames maps the scenario's addresses back to their names.
type names map[string]string

func nameMap(users []string) names {
	n := names{}
	for _, u := range users {
		n[bech(u)] = u
	}
	return n
}

func (n names) of(ad string) string {
	if x, ok := n[ad]; ok {
		return x
	}
	return ad
}

// sharesAmt turns the shares of one target into tokens: without slashing shares are worth exactly
// one token each, so anything else is reported verbatim.
func sharesAmt(kind string, id uint32, sh sdk.DecCoins) string {
	prefix := fmt.Sprintf("%s/%d/", map[string]string{"op": "operator", "svc": "service", "pool": "pool"}[kind], id)
	out := Amt{}
	for _, c := range sh {
		if !strings.HasPrefix(c.Denom, prefix) || !c.Amount.IsInteger() {
			return "?" + sh.String()
		}
		out[strings.TrimPrefix(c.Denom, prefix)] += c.Amount.TruncateInt64()
	}
	return out.String()
}

func kindOf(t restakingtypes.DelegationType) string {
	switch t {
	case restakingtypes.DELEGATION_TYPE_POOL:
		return "pool"
	case restakingtypes.DELEGATION_TYPE_OPERATOR:
		return "op"
	case restakingtypes.DELEGATION_TYPE_SERVICE:
		return "svc"
	}
	return t.String()
}

func escrowAddr(kind string, id uint32) sdk.AccAddress {
	switch kind {
	case "op":
		return operatorstypes.GetOperatorAddress(id)
	case "svc":
		return servicestypes.GetServiceAddress(id)
	}
	return poolstypes.GetPoolAddress(id)
}

// check: reading the state must never fail.
func check(err error) {
	if err != nil {
		Fail("observe", "the state cannot be read: %v", err)
	}
}

// ObserveRM reads the implementation state that the model talks about.
func ObserveRM(app *App, ctx sdk.Context, m *RM) Facts {
	f := Facts{}
	nm := nameMap(m.Users)
	for _, u := range m.Users {
		f.set("bal/"+u, app.balance(ctx, addr(u), m.Denoms))
	}
	fp, err := app.DistrKeeper.FeePool.Get(ctx)
	check(err)
	cp := Amt{}
	for _, c := range fp.CommunityPool {
		if in(m.Denoms, c.Denom) {
			cp[c.Denom] = c.Amount.TruncateInt64()
		}
	}
	f.set("bal/community", cp.String())

	ops, err := app.OperatorsKeeper.GetOperators(ctx)
	check(err)
	for _, o := range ops {
		p := fmt.Sprintf("op/%d/", o.ID)
		f[p+"admin"] = o.Admin
		f[p+"status"] = map[operatorstypes.OperatorStatus]string{
			operatorstypes.OPERATOR_STATUS_ACTIVE: "active", operatorstypes.OPERATOR_STATUS_INACTIVATING: "inactivating",
			operatorstypes.OPERATOR_STATUS_INACTIVE: "inactive"}[o.Status]
		f[p+"text"] = o.Moniker + "|" + o.Website + "|" + o.PictureURL
		t := fmt.Sprintf("op/%d", o.ID)
		f.set("tokens/"+t, amtOf(o.Tokens).String())
		f.set("shares/"+t, sharesAmt("op", o.ID, o.DelegatorShares))
	}
	recs, err := app.OperatorsKeeper.GetAllOperatorParamsRecords(ctx)
	check(err)
	for _, r := range recs {
		f.set(fmt.Sprintf("op/%d/rate", r.OperatorID), normRate(r.Params.CommissionRate.String()))
	}
	inact, err := app.OperatorsKeeper.GetInactivatingOperators(ctx)
	check(err)
	for _, u := range inact {
		f[fmt.Sprintf("op/%d/due", u.OperatorID)] = fmt.Sprint(u.UnbondingCompletionTime.UnixMilli())
	}
	svcs, err := app.ServicesKeeper.GetServices(ctx)
	check(err)
	for _, s := range svcs {
		p := fmt.Sprintf("svc/%d/", s.ID)
		f[p+"admin"] = s.Admin
		f[p+"status"] = map[servicestypes.ServiceStatus]string{
			servicestypes.SERVICE_STATUS_CREATED: "created", servicestypes.SERVICE_STATUS_ACTIVE: "active",
			servicestypes.SERVICE_STATUS_INACTIVE: "inactive"}[s.Status]
		f[p+"text"] = s.Name + "|" + s.Description + "|" + s.Website + "|" + s.PictureURL
		f[p+"accredited"] = fmt.Sprint(s.Accredited)
		sp, err := app.ServicesKeeper.GetServiceParams(ctx, s.ID)
		check(err)
		f.set(p+"denoms", strings.Join(sp.AllowedDenoms, ","))
		t := fmt.Sprintf("svc/%d", s.ID)
		f.set("tokens/"+t, amtOf(s.Tokens).String())
		f.set("shares/"+t, sharesAmt("svc", s.ID, s.DelegatorShares))
	}
	pools, err := app.PoolsKeeper.GetPools(ctx)
	check(err)
	for _, p := range pools {
		f["pool/"+p.Denom] = fmt.Sprint(p.ID)
		t := fmt.Sprintf("pool/%d", p.ID)
		if p.Tokens.IsPositive() {
			f.set("tokens/"+t, fmt.Sprintf("%s%s", p.Tokens, p.Denom))
		}
		f.set("shares/"+t, sharesAmt("pool", p.ID, sdk.NewDecCoins(sdk.NewDecCoinFromDec(fmt.Sprintf("pool/%d/%s", p.ID, p.Denom), p.DelegatorShares))))
	}
	for kind, next := range map[string]uint32{"op": m.NextOp, "svc": m.NextSv, "pool": m.NextPl} {
		for _, id := range append(ids(next), next) {
			f.set(fmt.Sprintf("escrow/%s/%d", kind, id), app.balance(ctx, escrowAddr(kind, id), m.Denoms))
		}
	}
	dels, err := app.RestakingKeeper.GetAllDelegations(ctx)
	check(err)
	for _, d := range dels {
		k := kindOf(d.Type)
		f.set(fmt.Sprintf("del/%s/%s/%d", nm.of(d.UserAddress), k, d.TargetID), sharesAmt(k, d.TargetID, d.Shares))
	}
	ubds, err := app.RestakingKeeper.GetAllUnbondingDelegations(ctx)
	check(err)
	for _, u := range ubds {
		v := map[int64]Amt{}
		for _, e := range u.Entries {
			t := e.CompletionTime.UnixMilli()
			v[t] = v[t].add(amtOf(e.Balance))
		}
		f.set(fmt.Sprintf("ubd/%s/%s/%d", nm.of(u.DelegatorAddress), kindOf(u.Type), u.TargetID), fmtUbd(v))
	}
	js, err := app.RestakingKeeper.GetAllOperatorsJoinedServices(ctx)
	check(err)
	for _, j := range js {
		for _, s := range j.ServiceIDs {
			f[fmt.Sprintf("join/%d/%d", j.OperatorID, s)] = "y"
		}
	}
	al, err := app.RestakingKeeper.GetAllServicesAllowedOperators(ctx)
	check(err)
	for _, x := range al {
		for _, o := range x.OperatorIDs {
			f[fmt.Sprintf("allow/%d/%d", x.ServiceID, o)] = "y"
		}
	}
	sp, err := app.RestakingKeeper.GetAllServicesSecuringPools(ctx)
	check(err)
	for _, x := range sp {
		for _, p := range x.PoolIDs {
			f[fmt.Sprintf("secure/%d/%d", x.ServiceID, p)] = "y"
		}
	}
	prefs, err := app.RestakingKeeper.GetUserPreferencesEntries(ctx)
	check(err)
	for _, p := range prefs {
		var ids []string
		for _, id := range p.Preferences.TrustedServicesIDs {
			ids = append(ids, fmt.Sprint(id))
		}
		f.set("pref/"+nm.of(p.UserAddress), fmtPref(p.Preferences.TrustNonAccreditedServices, p.Preferences.TrustAccreditedServices, strings.Join(ids, ",")))
	}
	rp, err := app.RestakingKeeper.GetParams(ctx)
	check(err)
	f["params/restaking"] = fmt.Sprintf("%d %s", rp.UnbondingTime.Milliseconds(), strings.Join(rp.AllowedDenoms, ","))
	opp, err := app.OperatorsKeeper.GetParams(ctx)
	check(err)
	f["params/operators"] = fmt.Sprintf("%s %d", amtOf(opp.OperatorRegistrationFee), opp.DeactivationTime.Milliseconds())
	svp, err := app.ServicesKeeper.GetParams(ctx)
	check(err)
	f.set("params/services", amtOf(svp.ServiceRegistrationFee).String())
	if m.RW != nil {
		for k, v := range m.RW.observe(app, ctx, m) {
			f[k] = v
		}
	}
	if m.LV != nil {
		for k, v := range m.LV.observe(app, ctx, m) {
			f[k] = v
		}
	}
	return f
}
