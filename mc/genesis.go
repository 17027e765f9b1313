package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"regexp"
	"strings"
	"unsafe"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
)

var ourModules = []string{"services", "operators", "pools", "restaking", "assets", "rewards", "liquidvesting"}

// manager is the module manager of the application.
func (a *App) manager() *module.Manager {
	f := reflect.ValueOf(a.MilkyWayApp).Elem()
	for i := 0; i < f.NumField(); i++ {
		if f.Field(i).Type() == reflect.TypeOf((*module.Manager)(nil)) {
			return *(**module.Manager)(unsafe.Pointer(f.Field(i).UnsafeAddr()))
		}
	}
	panic("no module manager")
}

// exportModules is what the export command writes for our modules.
func (a *App) exportModules(ctx sdk.Context) (map[string]json.RawMessage, error) {
	out := map[string]json.RawMessage{}
	mm := a.manager()
	for _, n := range ourModules {
		err, pan := catch(func() error {
			switch m := mm.Modules[n].(type) {
			case module.HasGenesis:
				out[n] = m.ExportGenesis(ctx, a.AppCodec())
			case module.HasABCIGenesis:
				out[n] = m.ExportGenesis(ctx, a.AppCodec())
			default:
				return fmt.Errorf("module %s has no genesis", n)
			}
			return nil
		})
		if pan != "" {
			return nil, fmt.Errorf("module %s: %s", n, pan)
		}
		if err != nil {
			return nil, err
		}
	}
	return out, nil
}

// validGenesis is what the command that validates genesis files says.
func (a *App) validGenesis(mod string, gen json.RawMessage) error {
	bm, ok := a.ModuleBasics[mod].(module.HasGenesisBasics)
	if !ok {
		return nil
	}
	err, pan := catch(func() error { return bm.ValidateGenesis(a.AppCodec(), a.GetTxConfig(), gen) })
	if err != nil || pan != "" {
		return fmt.Errorf("%s: the genesis state is not valid: %v %s", mod, err, pan)
	}
	return nil
}

// importModules initializes our modules, in the order of the application.
func (a *App) importModules(ctx sdk.Context, gen map[string]json.RawMessage) error {
	mm := a.manager()
	for _, n := range mm.OrderInitGenesis {
		if !in(ourModules, n) {
			continue
		}
		if err := a.validGenesis(n, gen[n]); err != nil {
			return err
		}
		err, pan := catch(func() error {
			switch m := mm.Modules[n].(type) {
			case module.HasGenesis:
				m.InitGenesis(ctx, a.AppCodec(), gen[n])
			case module.HasABCIGenesis:
				m.InitGenesis(ctx, a.AppCodec(), gen[n])
			}
			return nil
		})
		if err != nil || pan != "" {
			return fmt.Errorf("%s: %v %s", n, err, pan)
		}
	}
	return nil
}

func (a *App) mustExport(s *State) map[string]json.RawMessage {
	g, err := a.exportModules(s.Probe())
	if err != nil {
		Fail("genesis:export", "the state cannot be exported: %v", err)
	}
	return g
}

var unbondingID = regexp.MustCompile(`"unbonding_id":"(\d+)"`)

// noUnbondingIDs drops the numbers of the unbondings, which are not part of the genesis state and restart above the pending ones;
// they only have to be distinct.
func noUnbondingIDs(g map[string]json.RawMessage) map[string]json.RawMessage {
	seen := map[string]bool{}
	for _, m := range unbondingID.FindAllStringSubmatch(string(g["restaking"]), -1) {
		if seen[m[1]] {
			Fail("genesis:unbonding-id", "two pending unbondings have the identifier %s", m[1])
		}
		seen[m[1]] = true
	}
	out := cloneMap(g)
	out["restaking"] = unbondingID.ReplaceAll(g["restaking"], []byte(`"unbonding_id":"*"`))
	return out
}

func diffGenesis(a, b map[string]json.RawMessage) (string, string) {
	for _, n := range ourModules {
		if !bytes.Equal(a[n], b[n]) {
			return n, fmt.Sprintf("\n   %s\n   %s", a[n], b[n])
		}
	}
	return "", ""
}

// reimport exports the modules, empties their stores and initializes them again.
func reimport(s *State) *State {
	gen := s.App.mustExport(s)
	n := s.Branch()
	for _, m := range ourModules {
		n.MS.Clear(m)
	}
	if err := s.App.importModules(n.Ctx(), gen); err != nil {
		Fail("genesis:import:"+strings.SplitN(err.Error(), ":", 2)[0], "the exported state cannot be imported: %v", err)
	}
	if m, d := diffGenesis(gen, s.App.mustExport(n)); m != "" {
		Fail("genesis:lossy:"+m, "the state of %s changes when it is exported and imported:%s", m, d)
	}
	return n
}

// bankDump is every balance and the supply.
func bankDump(s *State) string {
	var b strings.Builder
	for _, kv := range s.MS.Dump("bank") {
		fmt.Fprintf(&b, "%x=%x\n", kv.K, kv.V)
	}
	return b.String()
}

// sameFuture: after export and import, every continuation of the list behaves the same.
func (c *RMConf) sameFuture(r *Run, s *State, futures [][]Op) {
	n := reimport(s)
	if bankDump(s) != bankDump(n) {
		Fail("genesis:bank", "importing the exported state moves tokens")
	}
	do := func(x *State, o Op) string {
		if o.K == "block" {
			out, w := advance(x, secs(o.ID))
			return w + out.String()
		}
		if o.K == "price" {
			x.App.setPrice(x.Ctx(), o.S, int64(o.ID))
			return ""
		}
		return deliver(x, o).String()
	}
	for _, f := range futures {
		a, b := s.Branch(), n.Branch()
		for i, o := range f {
			ra, rb := do(a, o), do(b, o)
			if ra != rb {
				Fail("genesis:future:"+o.K, "after export and import, %v: the result is %q, without it is %q", f[:i+1], rb, ra)
			}
		}
		ga, gb := s.App.mustExport(a), s.App.mustExport(b)
		if m, d := diffGenesis(noUnbondingIDs(ga), noUnbondingIDs(gb)); m != "" {
			Fail("genesis:future:"+m, "after export and import, %v leads to a different state of %s:%s", f, m, d)
		}
		if bankDump(a) != bankDump(b) {
			Fail("genesis:future:bank", "after export and import, %v moves tokens differently", f)
		}
		r.Count("future")
	}
	for k, v := range invariants(n.App, n.Probe()) {
		if v != "" {
			Fail("genesis:invariant:"+k, "after export and import, the invariant %s is broken: %s", k, v)
		}
	}
	r.Count("roundtrip")
}
