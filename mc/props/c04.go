package props

import (
	"fmt"
	"os"
	"reflect"
	"slices"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// h5TypeNames are the type descriptions expected of a variable in an HDF5 file.
func h5TypeNames(v model.Var) (cdl, gt string) {
	et := model.ElemType(v.Vals)
	if et == model.StringType {
		return "string", "string"
	}
	return model.CDL(et), et.String()
}

// checkH5Content compares everything a reader shows of a group with the content.
func checkH5Content(g api.Group, m *model.Group, root bool, calls *int) (bad string) {
	if p := obs.Safe(func() {
		*calls++
		if got, want := obs.SortedAttrs(g.Attributes()), model.AttrsDump(m.Attrs, true); got != want {
			bad = fmt.Sprintf("attributes\n    want %s\n    got  %s", clip(want), clip(got))
			return
		}
		names := []string{}
		for _, v := range m.Vars {
			names = append(names, v.Name)
		}
		sort.Strings(names)
		*calls++
		got := append([]string{}, g.ListVariables()...)
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", names) {
			bad = fmt.Sprintf("variables: want %q got %q", names, got)
			return
		}
		subs := []string{}
		for _, s := range m.Groups {
			subs = append(subs, s.Name)
		}
		sort.Strings(subs)
		*calls++
		got = append([]string{}, g.ListSubgroups()...)
		sort.Strings(got)
		if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", subs) {
			bad = fmt.Sprintf("subgroups: want %q got %q", subs, got)
			return
		}
		for _, v := range m.Vars {
			*calls++
			got, err := g.GetVariable(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVariable %q: %v", v.Name, err)
				return
			}
			if a, b := obs.Render(v.Vals), obs.Render(got.Values); a != b {
				bad = fmt.Sprintf("variable %q\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
				return
			}
			if a, b := model.AttrsDump(v.Attrs, true), obs.SortedAttrs(got.Attributes); a != b {
				bad = fmt.Sprintf("variable %q attributes\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
				return
			}
			*calls++
			vg, err := g.GetVarGetter(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVarGetter %q: %v", v.Name, err)
				return
			}
			named := true
			for _, d := range v.Dims {
				if d == "" {
					named = false
				}
			}
			if named {
				if a, b := fmt.Sprintf("%q", append([]string{}, v.Dims...)), fmt.Sprintf("%q", append([]string{}, got.Dimensions...)); a != b {
					bad = fmt.Sprintf("variable %q dimensions: want %s got %s", v.Name, a, b)
					return
				}
				if a, b := fmt.Sprintf("%q", append([]string{}, v.Dims...)), fmt.Sprintf("%q", append([]string{}, vg.Dimensions()...)); a != b {
					bad = fmt.Sprintf("variable %q getter's dimensions: want %s got %s", v.Name, a, b)
					return
				}
			}
			sh := model.Shape(v.Vals)
			text := model.ElemType(v.Vals) == model.StringType
			if text && len(v.Dims) == len(sh)+1 { // the last dimension is the length of the texts
				n := maxLen(v.Vals)
				if s := vg.Shape(); len(s) == len(v.Dims) && v.Dims[len(s)-1] != "" && int(s[len(s)-1]) > n {
					if d, has := g.GetDimension(v.Dims[len(s)-1]); has && int64(d) == s[len(s)-1] {
						n = int(d) // another variable has more of it: these texts are padded
					}
				}
				sh = append(append([]int{}, sh...), n)
			}
			vlen := len(sh) > len(v.Dims) && !text
			if !vlen {
				// extents below one of 0 are those of the named dimensions
				if i := slices.Index(sh, 0); i >= 0 && len(vg.Shape()) == len(sh) && len(v.Dims) == len(sh) {
					sh = slices.Clone(sh)
					for j := i + 1; j < len(sh); j++ {
						if v.Dims[j] != "" {
							sh[j] = int(vg.Shape()[j])
						}
					}
				}
				if a, b := fmt.Sprint(append([]int{}, sh...)), fmt.Sprint(vg.Shape()); a != b {
					bad = fmt.Sprintf("variable %q shape: want %s got %s", v.Name, a, b)
					return
				}
				cdl, gt := h5TypeNames(v)
				if text && len(sh) > len(model.Shape(v.Vals)) {
					cdl = "char"
				}
				if vg.Type() != cdl || vg.GoType() != gt {
					bad = fmt.Sprintf("variable %q types: want %s %s got %s %s", v.Name, cdl, gt, vg.Type(), vg.GoType())
					return
				}
			}
			wl := int64(1)
			if len(sh) > 0 && !(vlen && len(v.Dims) == 0) {
				wl = int64(sh[0])
			}
			if vg.Len() != wl {
				bad = fmt.Sprintf("variable %q length: want %d got %d", v.Name, wl, vg.Len())
				return
			}
		}
		for _, s := range m.Groups {
			*calls++
			sg, err := g.GetGroup(s.Name)
			if err != nil {
				bad = fmt.Sprintf("GetGroup %q: %v", s.Name, err)
				return
			}
			bad = checkH5Content(sg, s, false, calls)
			sg.Close()
			if bad != "" {
				bad = "group " + s.Name + ": " + bad
				return
			}
		}
	}); p != "" {
		return p
	}
	if root && bad == "" {
		bad = checkH5Dims(g, m, calls)
	}
	return bad
}

// h5Dims are the named dimensions of a content.
func h5Dims(m *model.Group) map[string]int64 {
	want := map[string]int64{}
	var rec func(m *model.Group)
	rec = func(m *model.Group) {
		for _, v := range m.Vars {
			sh := model.Shape(v.Vals)
			if len(v.Dims) == len(sh)+1 && model.ElemType(v.Vals) == model.StringType {
				sh = append(append([]int{}, sh...), maxLen(v.Vals))
			}
			for i, d := range v.Dims {
				if d == "" || i >= len(sh) {
					continue
				}
				if _, has := want[d]; has && slices.Contains(sh[:i], 0) {
					continue // nothing in these values tells this extent
				} else if has && i == len(sh)-1 && len(model.Shape(v.Vals)) < len(sh) && want[d] > int64(sh[i]) {
					continue // texts may be shorter
				}
				want[d] = int64(sh[i])
			}
		}
		for _, s := range m.Groups {
			rec(s)
		}
	}
	rec(m)
	return want
}

// checkH5Dims looks up every named dimension from the root.
func checkH5Dims(g api.Group, m *model.Group, calls *int) (bad string) {
	want := h5Dims(m)
	if p := obs.Safe(func() {
		*calls++
		listed := map[string]bool{}
		for _, d := range g.ListDimensions() {
			listed[d] = true
		}
		for d, n := range want {
			*calls++
			got, has := g.GetDimension(d)
			if !has || !listed[d] || int64(got) != n {
				bad = fmt.Sprintf("dimension %q: want %d got %d,%v listed %v", d, n, got, has, listed[d])
				return
			}
		}
		if len(listed) != len(want) {
			bad = fmt.Sprintf("dimensions %v listed, want %v", listed, want)
		}
	}); p != "" {
		return p
	}
	return bad
}

func maxLen(v any) (n int) {
	var rec func(rv reflect.Value)
	rec = func(rv reflect.Value) {
		if rv.Kind() == reflect.String {
			n = max(n, rv.Len())
			return
		}
		for i := range rv.Len() {
			rec(rv.Index(i))
		}
	}
	rec(reflect.ValueOf(v))
	return n
}

// writeH5 writes a content; ok is false if there is nothing further to check.
func writeH5(c *fw.Ctx, must bool, m *model.Group) (path string, ok bool) {
	path = freshName(c)
	n, problem := family.Write(path, netcdf.KindHDF5, m)
	c.Trans(n)
	if problem != "" {
		if must || len(problem) > 5 && problem[:5] == "PANIC" {
			c.Failf("content was not accepted or not written: %s", problem)
		} else {
			c.Note("contents_refused", 1)
			c.Outcome("refused " + problem)
		}
		return path, false
	}
	return path, true
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C04", Level: "model_checking",
		Rule: "every writer program of the bounded HDF5 family (package family, H5Programs) is executed on the real writer and read back through every read call; the reference model is the program's own content",
		Bounds: func(t string) string {
			return "variables<=3 over (type x shape) alphabets, rank<=5, extents<=5 (thorough 7), attribute lists<=2 over 84 values, dimension lists<=3 over 3 dims x pairs of variables, coordinate variables, all group trees of depth<=3 with <=2 children, names to 300 bytes, attributes and strings around 64 KB, 66000 strings, values of user-defined types (to nesting 2) x 4 fillings, the first sequence of each empty or not"
		},
		Assumptions: []string{"scratch file system stores what is written to it", "text contains no NUL (HDF5 strings are C strings)"},
		Enumerate: func(tier string, y fw.Yield) {
			family.H5Programs(tier == "thorough", func(must bool, desc func() string, mk func() *model.Group) {
				y(desc, func(c *fw.Ctx) {
					m := mk()
					path, ok := writeH5(c, must, m)
					defer os.Remove(path)
					if !ok {
						return
					}
					var g api.Group
					var err error
					if p := obs.Safe(func() { g, err = netcdf.Open(path) }); p != "" || err != nil {
						c.Failf("open: %v %s", err, p)
						return
					}
					n := 0
					bad := checkH5Content(g, m, true, &n)
					c.Trans(n)
					c.Trace(1)
					g.Close()
					if bad != "" {
						c.Failf("%s", bad)
						return
					}
					c.Sample(clip(desc()))
					b, _ := os.ReadFile(path)
					c.Outcome(string(b))
				})
			})
			userTypes(tier == "thorough", y, func(c *fw.Ctx, path string, m *model.Group) (bad string) {
				var h api.Group
				var err error
				if p := obs.Safe(func() { h, err = netcdf.Open(path) }); p != "" || err != nil {
					return fmt.Sprintf("open: %v %s", err, p)
				}
				bad = checkUser(h, m)
				h.Close()
				defer os.Remove(path)
				c.Trans(6)
				c.Trace(1)
				return bad
			})
		},
	})
}

// mustUser says whether the HDF5 writer has to accept values of a type.
func mustUser(t *h5gen.Type) bool {
	switch t.Class {
	case h5gen.Int, h5gen.Float, h5gen.Enum, h5gen.Opaque:
		return true
	case h5gen.Compound:
		for _, m := range t.Members {
			if !mustUser(m.T) {
				return false
			}
		}
		return true
	}
	return false
}

// userTypes are values of user-defined types, which only a reader can make.
func userTypes(thorough bool, y fw.Yield, check func(c *fw.Ctx, path string, m *model.Group) string) {
	types := append(family.BaseH5(), family.UserH5(thorough)...)
	for _, t := range types {
		for i := range 20 {
			sh, salt := [][]int{nil, {1}, {3}, {2, 2}, {0}}[i%5], i/5
			if salt > 0 && !strings.Contains(t.String(), "vlen") {
				continue // other salts begin with sequences of other lengths, 0 among them
			}
			y(func() string { return fmt.Sprintf("user %s%v from %d", t, sh, salt) }, func(c *fw.Ctx) {
				name := "src"
				d := &h5gen.Dataset{Name: name, T: t, Shape: sh, Layout: 'C', All: true, Salt: salt}
				if t.MemSize() < 10000 { // larger ones are huge objects of a heap
					d.Attrs = []h5gen.Attr{{Name: "a", T: t, Shape: sh, Salt: salt}}
				}
				f := &h5gen.File{Libver: 1, Root: &h5gen.Group{Items: []any{d}}}
				g, _ := openH5(c, f)
				if g == nil {
					return
				}
				defer g.Close()
				var v *api.Variable
				var err error
				if p := obs.Safe(func() { v, err = g.GetVariable(name) }); p != "" || err != nil {
					c.Failf("source: %v %s", err, p)
					return
				}
				av, has := v.Attributes.Get("a")
				if !has {
					av = v.Values
				}
				must := salt == 0 && mustUser(t) && len(sh) < 2 && (len(sh) == 0 || sh[0] > 0)
				for mode := range 3 {
					m := &model.Group{}
					dims := []string{"y", "x", "z"}[:len(sh)]
					switch mode {
					case 0:
						m.Vars = []model.Var{{Name: "v", Vals: v.Values, Dims: dims}, {Name: "s", Vals: []string{"p", "q"}, Dims: []string{"n"}}}
					case 1:
						m.Attrs = []model.Attr{{Name: "a", Val: av}, {Name: "b", Val: int8(1)}}
					case 2:
						m.Vars = []model.Var{{Name: "v", Vals: v.Values, Dims: dims, Attrs: []model.Attr{{Name: "a", Val: av}}}}
						m.Groups = []*model.Group{{Name: "g", Vars: []model.Var{{Name: "w", Vals: v.Values, Dims: dims}}}}
					}
					path, ok := writeH5(c, must && mode == 0, m)
					if !ok {
						c.Note(fmt.Sprintf("user_type_refused_class%d_rank%d_must%v_mode%d", t.Class, len(sh), must, mode), 1)
						continue
					}
					bad := check(c, path, m)
					if bad != "" {
						c.Failf("mode %d: %s", mode, bad)
						return
					}
					c.Outcome(fmt.Sprint(t, sh, salt, mode))
				}
			})
		}
	}
}

// checkUser compares values and attributes only: the shapes of user-defined
// types are not known to package model.
func checkUser(g api.Group, m *model.Group) (bad string) {
	if p := obs.Safe(func() {
		cmpAttrs := func(am api.AttributeMap, as []model.Attr) {
			if len(am.Keys()) != len(as) {
				bad = fmt.Sprintf("attributes %q", am.Keys())
				return
			}
			for _, a := range as {
				v, has := am.Get(a.Name)
				if w, r := obs.Render(model.AttrRead(a.Val)), obs.Render(v); !has || w != r {
					bad = fmt.Sprintf("attribute %s\n    want %s\n    got  %s", a.Name, clip(w), clip(r))
				}
			}
		}
		cmpAttrs(g.Attributes(), m.Attrs)
		if len(g.ListVariables()) != len(m.Vars) || len(g.ListSubgroups()) != len(m.Groups) {
			bad = fmt.Sprintf("lists %q and %q", g.ListVariables(), g.ListSubgroups())
		}
		for _, v := range m.Vars {
			if bad != "" {
				return
			}
			got, err := g.GetVariable(v.Name)
			if err != nil {
				bad = fmt.Sprintf("GetVariable %q: %v", v.Name, err)
				return
			}
			if a, b := obs.Render(v.Vals), obs.Render(got.Values); a != b {
				bad = fmt.Sprintf("variable %q\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
				return
			}
			if a, b := fmt.Sprintf("%q", append([]string{}, v.Dims...)), fmt.Sprintf("%q", append([]string{}, got.Dimensions...)); a != b {
				bad = fmt.Sprintf("variable %q dimensions: want %s got %s", v.Name, a, b)
				return
			}
			cmpAttrs(got.Attributes, v.Attrs)
		}
		for _, s := range m.Groups {
			sg, err := g.GetGroup(s.Name)
			if err != nil {
				bad = fmt.Sprintf("GetGroup: %v", err)
				return
			}
			if bad == "" {
				bad = checkUser(sg, s)
			}
			sg.Close()
		}
	}); p != "" {
		return p
	}
	return bad
}
