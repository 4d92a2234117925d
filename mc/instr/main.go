// instr writes an overlay in which the packages of /repo call vsched and vsync where they
// depend on something that the explorer has to control: the order in which maps are iterated
// and locks. What the code does is otherwise left as it is, and lines keep their numbers.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const (
	module = "github.com/batchatco/go-native-netcdf"
	mine   = module + "/verifmc"
)

type pkg struct {
	ImportPath, Dir, Export string
	GoFiles, Imports        []string
	ImportMap               map[string]string
}

type edit struct {
	from, to int
	text     string
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", args...)
	os.Exit(1)
}

func main() {
	out := os.Args[1]
	cmd := exec.Command("go", append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Export,GoFiles,Imports,ImportMap"}, os.Args[2:]...)...)
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var todo []pkg
	dec := json.NewDecoder(strings.NewReader(string(b)))
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if (p.ImportPath == module || strings.HasPrefix(p.ImportPath, module+"/")) && !strings.HasPrefix(p.ImportPath, mine) {
			todo = append(todo, p)
		}
	}
	replace := map[string]string{}
	maps, locks := 0, 0
	for _, p := range todo {
		fset := token.NewFileSet()
		imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			if m, ok := p.ImportMap[path]; ok {
				path = m
			}
			return os.Open(exports[path])
		})
		var files []*ast.File
		var names []string
		for _, f := range p.GoFiles {
			name := filepath.Join(p.Dir, f)
			a, err := parser.ParseFile(fset, name, nil, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			files, names = append(files, a), append(names, name)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			fatal("%s: %v", p.ImportPath, err)
		}
		for i, f := range files {
			edits, m, l := rewrite(fset, f, info)
			if len(edits) == 0 {
				continue
			}
			maps, locks = maps+m, locks+l
			src, err := os.ReadFile(names[i])
			if err != nil {
				fatal("%v", err)
			}
			to := filepath.Join(out, fmt.Sprintf("%d_%s", len(replace), filepath.Base(names[i])))
			if err := os.WriteFile(to, apply(src, edits), 0o644); err != nil {
				fatal("%v", err)
			}
			replace[names[i]] = to
		}
	}
	b, _ = json.Marshal(map[string]any{"Replace": replace})
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("%d files, %d iterations of maps, %d files with locks\n", len(replace), maps, locks)
}

func isMap(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Interface: // a type parameter
		if _, ok := t.(*types.TypeParam); !ok {
			return false
		}
		for i := range u.NumEmbeddeds() {
			un, ok := u.EmbeddedType(i).(*types.Union)
			if !ok {
				if !isMap(u.EmbeddedType(i)) {
					return false
				}
				continue
			}
			for j := range un.Len() {
				if !isMap(un.Term(j).Type()) {
					return false
				}
			}
		}
		return u.NumEmbeddeds() > 0
	}
	return false
}

func rewrite(fset *token.FileSet, f *ast.File, info *types.Info) (edits []edit, maps, locks int) {
	pos := func(p token.Pos) int { return fset.Position(p).Offset }
	usesVsched, keepMaps := false, ""
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.RangeStmt:
			if isMap(info.Types[n.X].Type) {
				edits = append(edits, edit{pos(n.X.Pos()), pos(n.X.Pos()), "vsched_.Map("}, edit{pos(n.X.End()), pos(n.X.End()), ")"})
				maps++
				usesVsched = true
			}
		case *ast.SelectorExpr:
			id, ok := n.X.(*ast.Ident)
			if !ok {
				return true
			}
			pn, ok := info.Uses[id].(*types.PkgName)
			if ok && pn.Imported().Path() == "maps" {
				switch n.Sel.Name {
				case "Keys", "Values", "All":
					edits = append(edits, edit{pos(n.Pos()), pos(n.End()), "vsched_.Maps" + n.Sel.Name})
					maps++
					usesVsched, keepMaps = true, id.Name
				}
			}
		case *ast.ImportSpec:
			if n.Path.Value == `"sync"` {
				edits = append(edits, edit{pos(n.Path.Pos()), pos(n.Path.End()), `"` + mine + `/vsync"`})
				if n.Name == nil {
					edits = append(edits, edit{pos(n.Path.Pos()), pos(n.Path.Pos()), "sync "})
				}
				locks++
			}
		}
		return true
	})
	if usesVsched {
		edits = append(edits, edit{pos(f.Name.End()), pos(f.Name.End()), `; import vsched_ "` + mine + `/vsched"`})
	}
	if keepMaps != "" {
		end := pos(f.FileEnd)
		edits = append(edits, edit{end, end, "\nvar _ = " + keepMaps + ".Clone[map[int]int]\n"})
	}
	return
}

func apply(src []byte, edits []edit) []byte {
	sort.SliceStable(edits, func(i, j int) bool {
		return edits[i].from < edits[j].from || edits[i].from == edits[j].from && edits[i].to < edits[j].to
	})
	var out []byte
	last := 0
	for _, e := range edits {
		out = append(out, src[last:e.from]...)
		out = append(out, e.text...)
		last = e.to
	}
	return append(out, src[last:]...)
}
