package main

import (
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"

	"sort"
	"strings"
)

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type violation struct{ msg string }

func splitSlash(k string) string {
	b := []byte(k)
	for i := range b {
		if b[i] == '/' {
			b[i] = ' '
		}
	}
	// drop the first word
	for i := range b {
		if b[i] == ' ' {
			return string(b[i+1:])
		}
	}
	return string(b)
}

func sumUbd(v string) Amt {
	out := Amt{}
	for _, e := range strings.Split(v, ";") {
		out = out.add(amt(strings.Split(e, "@")[0]))
	}
	return out
}

func moduleAddr(name string) sdk.AccAddress { return authtypes.NewModuleAddress(name) }
