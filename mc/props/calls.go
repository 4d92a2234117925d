package props

import (
	"fmt"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// A call is one read request on an open file, made through the root handle
// (which opens and closes the handle of the group it needs).
type call struct {
	name string
	errs bool // the call can report an error
	// do makes the call; keep receives what is returned
	do func(root api.Group, keep func(v any)) (string, error)
}

// run makes a call and renders its answer.
func (x call) run(root api.Group, keep func(v any)) (out string, failed bool) {
	var err error
	if p := obs.Safe(func() { out, err = x.do(root, keep) }); p != "" {
		return p, false
	}
	if err != nil {
		return "error", true
	}
	return out, false
}

func noKeep(any) {}

// groupPaths lists the groups of a file.
func groupPaths(g api.Group, prefix string, depth int, out *[]string) {
	*out = append(*out, prefix)
	if depth > 4 {
		return
	}
	for _, s := range g.ListSubgroups() {
		sg, err := g.GetGroup(s)
		if err != nil {
			continue
		}
		groupPaths(sg, strings.TrimSuffix(prefix, "/")+"/"+s, depth+1, out)
		sg.Close()
	}
}

// callsOf lists the read requests that can be made on a file: every query of every group and
// variable, slices at the ends and in the middle, and some that must fail. With few set, only
// one request of each kind per variable.
func callsOf(root api.Group, few bool) (out []call) {
	var paths []string
	groupPaths(root, "/", 0, &paths)
	for _, path := range paths {
		in := func(name string, errs bool, f func(g api.Group, keep func(any)) (string, error)) {
			out = append(out, call{path + " " + name, errs || path != "/", func(root api.Group, keep func(any)) (string, error) {
				g := root
				if path != "/" {
					var err error
					if g, err = root.GetGroup(path); err != nil {
						return "", err
					}
					defer g.Close()
				}
				return f(g, keep)
			}})
		}
		g := root
		if path != "/" {
			var err error
			if g, err = root.GetGroup(path); err != nil {
				continue
			}
		}
		in("Attributes", false, func(g api.Group, keep func(any)) (string, error) {
			a := g.Attributes()
			keep(a)
			return obs.Attrs(a, true), nil
		})
		in("ListVariables", false, func(g api.Group, keep func(any)) (string, error) {
			l := g.ListVariables()
			keep(l)
			return fmt.Sprintf("%q", l), nil
		})
		in("ListSubgroups", false, func(g api.Group, keep func(any)) (string, error) {
			l := g.ListSubgroups()
			keep(l)
			return fmt.Sprintf("%q", l), nil
		})
		in("dimensions", false, func(g api.Group, keep func(any)) (string, error) {
			l := g.ListDimensions()
			keep(l)
			s := ""
			for _, d := range append(append([]string{}, l...), "nope") {
				n, has := g.GetDimension(d)
				s += fmt.Sprintf("%q=%d,%v ", d, n, has)
			}
			return s, nil
		})
		in("types", false, func(g api.Group, keep func(any)) (string, error) {
			l := g.ListTypes()
			keep(l)
			s := ""
			for _, d := range append(append([]string{}, l...), "nope") {
				a, h1 := g.GetType(d)
				b, h2 := g.GetGoType(d)
				s += fmt.Sprintf("%q=%q,%v,%q,%v ", d, a, h1, b, h2)
			}
			return s, nil
		})
		in("missing names", true, func(g api.Group, keep func(any)) (string, error) {
			_, err := g.GetVariable("nope")
			_, err2 := g.GetVarGetter("nope")
			_, err3 := g.GetGroup("nope")
			return fmt.Sprint(err != nil, err2 != nil, err3 != nil), nil
		})
		for _, name := range g.ListVariables() {
			vg, err := g.GetVarGetter(name)
			if err != nil {
				continue
			}
			shape := vg.Shape()
			in("GetVariable "+name, true, func(g api.Group, keep func(any)) (string, error) {
				v, err := g.GetVariable(name)
				if err != nil {
					return "", err
				}
				keep(v.Values)
				keep(v.Dimensions)
				keep(v.Attributes)
				return fmt.Sprintf("%s %q %s", obs.Render(v.Values), v.Dimensions, obs.Attrs(v.Attributes, true)), nil
			})
			get := func(what string, f func(vg api.VarGetter) (any, error)) {
				in("getter "+name+" "+what, true, func(g api.Group, keep func(any)) (string, error) {
					vg, err := g.GetVarGetter(name)
					if err != nil {
						return "", err
					}
					v, err := f(vg)
					if err != nil {
						return "", err
					}
					keep(v)
					return obs.Render(v), nil
				})
			}
			in("getter "+name, true, func(g api.Group, keep func(any)) (string, error) {
				vg, err := g.GetVarGetter(name)
				if err != nil {
					return "", err
				}
				d, a, sh := vg.Dimensions(), vg.Attributes(), vg.Shape()
				keep(d)
				keep(a)
				keep(sh)
				return fmt.Sprintf("%s %s %d %v %q %s", vg.Type(), vg.GoType(), vg.Len(), sh, d, obs.Attrs(a, true)), nil
			})
			get("Values", func(vg api.VarGetter) (any, error) { return vg.Values() })
			n := vg.Len()
			if n > 0 {
				get(fmt.Sprintf("GetSlice %d,%d", n-1, n), func(vg api.VarGetter) (any, error) { return vg.GetSlice(n-1, n) })
			}
			if len(shape) > 0 {
				b, e := make([]int64, len(shape)), append([]int64{}, shape...)
				for i := range e {
					if e[i] > 1 {
						e[i]--
					}
				}
				get(fmt.Sprintf("GetSliceMD %v,%v", b, e), func(vg api.VarGetter) (any, error) { return vg.GetSliceMD(b, e) })
			}
			if few {
				continue
			}
			get(fmt.Sprintf("GetSlice 0,%d", n), func(vg api.VarGetter) (any, error) { return vg.GetSlice(0, n) })
			get(fmt.Sprintf("GetSlice 0,%d", n+1), func(vg api.VarGetter) (any, error) { return vg.GetSlice(0, n+1) })
			in("getter "+name+" twice", true, func(g api.Group, keep func(any)) (string, error) {
				vg, err := g.GetVarGetter(name)
				if err != nil {
					return "", err
				}
				a, err := vg.GetSlice(0, min(1, vg.Len()))
				if err != nil {
					return "", err
				}
				keep(a)
				b, err := vg.Values()
				if err != nil {
					return "", err
				}
				keep(b)
				return obs.Render(a) + " " + obs.Render(b), nil
			})
		}
		if path != "/" {
			g.Close()
		}
	}
	return out
}

// render gives a kept answer as text.
func renderKept(v any) string {
	if a, ok := v.(api.AttributeMap); ok {
		return obs.Attrs(a, false)
	}
	return obs.Render(v)
}

func sortedCopy(l []string) []string {
	l = append([]string{}, l...)
	sort.Strings(l)
	return l
}
