// det writes an overlay in which the sources of the repository take the order of the maps they iterate over,
// the clock of the machine and the unseeded random numbers from the package verifmc/vdet, which the checker
// controls, and in which every statement is a point at which the checker may interrupt it: det REPO OUTDIR >> lines of the overlay.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const vdet = "github.com/milkyway-labs/milkyway/v3/verifmc/vdet"

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles, CgoFiles       []string
	Module                  *struct{ Main bool }
	ImportMap               map[string]string
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-deps", "-export", "-tags", "norace", "-json=ImportPath,Dir,Export,GoFiles,CgoFiles,Module,ImportMap", "./app/...", "./x/...", "./ante/...", "./utils/...", "./types/...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	bz, err := cmd.Output()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	exports := map[string]string{}
	var mine, theirs []pkg
	dec := json.NewDecoder(bytes.NewReader(bz))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			panic(err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && strings.HasPrefix(p.Dir, repo) {
			mine = append(mine, p)
		} else if shared[p.ImportPath] && len(p.CgoFiles) == 0 {
			theirs = append(theirs, p)
		}
	}
	n := 0
	fs := token.NewFileSet()
	imp := importer.ForCompiler(fs, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exports[path]
		if !ok || f == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(f)
	})
	count := map[string]int{}
	for k, p := range append(mine, theirs...) {
		var files []*ast.File
		var names []string
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			f, err := parser.ParseFile(fs, path, nil, parser.ParseComments)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(1)
			}
			files, names = append(files, f), append(names, path)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Error: func(error) {}}
		_, _ = conf.Check(p.ImportPath, fs, files, info)
		for i, f := range files {
			if strings.HasSuffix(names[i], ".pb.go") || strings.HasSuffix(names[i], ".pb.gw.go") {
				continue
			}
			if res := rewrite(fs, f, names[i], info, count, k < len(mine)); res != nil {
				o := filepath.Join(out, strconv.Itoa(n)+".go")
				n++
				if err := os.WriteFile(o, res, 0o644); err != nil {
					panic(err)
				}
				fmt.Printf("%s\t%s\n", names[i], o)
			}
		}
	}
	var ks []string
	for k := range count {
		ks = append(ks, fmt.Sprintf("%s=%d", k, count[k]))
	}
	sort.Strings(ks)
	fmt.Fprintln(os.Stderr, "det:", strings.Join(ks, " "))
}

// shared are packages of others on whose state the application relies while it serves several clients.
var shared = map[string]bool{"github.com/CosmWasm/wasmd/x/wasm/keeper": true}

type edit struct {
	at, end int
	s       string
}

// isMap tells whether ranging over the type follows the order of a map.
func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if u, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < u.NumEmbeddeds(); i++ {
				if un, ok := u.EmbeddedType(i).(*types.Union); ok {
					for j := 0; j < un.Len(); j++ {
						if isMap(un.Term(j).Type()) {
							return true
						}
					}
				} else if isMap(u.EmbeddedType(i)) {
					return true
				}
			}
		}
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

var calls = map[string]map[string]string{
	"time":                  {"Now": "Now", "Since": "Since", "Until": "Until"},
	"maps":                  {"Keys": "SeqKeys", "Values": "SeqValues", "All": "All"},
	"golang.org/x/exp/maps": {"Keys": "SliceKeys", "Values": "SliceValues"},
	"math/rand":             {"Int": "Int", "Intn": "Intn", "Int31": "Int31", "Int31n": "Int31n", "Int63": "Int63", "Int63n": "Int63n", "Uint32": "Uint32", "Uint64": "Uint64", "Float64": "Float64", "Shuffle": "Shuffle", "Perm": "Perm"},
	"math/rand/v2":          {"Int": "Int", "IntN": "Intn", "Int32": "Int31", "Int32N": "Int31n", "Int64": "Int63", "Int64N": "Int63n", "Uint32": "Uint32", "Uint64": "Uint64", "Float64": "Float64", "Shuffle": "Shuffle", "Perm": "Perm"},
}

func rewrite(fs *token.FileSet, f *ast.File, name string, info *types.Info, count map[string]int, sources bool) []byte {
	src, err := os.ReadFile(name)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var edits []edit
	keep := map[string]string{} // import path -> a use that keeps the import alive
	points := func(list []ast.Stmt) {
		for _, st := range list {
			switch st.(type) {
			case *ast.CaseClause, *ast.CommClause:
				continue // the body of a switch or select
			}
			edits = append(edits, edit{off(st.Pos()), off(st.Pos()), "vdet.Yield(); "})
			count["point"]++
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			points(v.List)
			return true
		case *ast.CaseClause:
			points(v.Body)
			return true
		case *ast.CommClause:
			points(v.Body)
			return true
		}
		if !sources {
			return true
		}
		switch v := n.(type) {
		case *ast.RangeStmt:
			if isMap(info.Types[v.X].Type) {
				edits = append(edits, edit{off(v.X.Pos()), off(v.X.Pos()), "vdet.All("}, edit{off(v.X.End()), off(v.X.End()), ")"})
				count["range"]++
			}
		case *ast.SelectorExpr:
			id, ok := v.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if !ok {
				return true
			}
			path := pn.Imported().Path()
			if r, ok := calls[path][v.Sel.Name]; ok {
				edits = append(edits, edit{off(v.Pos()), off(v.End()), "vdet." + r})
				count[path+"."+v.Sel.Name]++
				switch path {
				case "time":
					keep[path] = "var _ = " + id.Name + ".Second"
				case "maps", "golang.org/x/exp/maps":
					keep[path] = "var _ = " + id.Name + ".Clone[map[int]int]"
				default:
					keep[path] = "var _ = " + id.Name + ".NewZipf"
				}
			}
		}
		return true
	})
	if len(edits) == 0 {
		return nil
	}
	edits = append(edits, edit{off(f.Name.End()), off(f.Name.End()), "; import vdet \"" + vdet + "\""})
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].at < edits[j].at })
	var b bytes.Buffer
	last := 0
	for _, e := range edits {
		b.Write(src[last:e.at])
		b.WriteString(e.s)
		last = e.end
	}
	b.Write(src[last:])
	b.WriteString("\n")
	for _, k := range keep {
		b.WriteString(k + "\n")
	}
	return b.Bytes()
}
