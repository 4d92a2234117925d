package props

import (
	"fmt"
	"slices"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
)

// basicOf is the name of a type without structure in Go, or "".
func basicOf(t *h5gen.Type) string {
	switch t.Class {
	case h5gen.Int:
		return fmt.Sprintf("%sint%d", map[bool]string{true: "u"}[t.Unsigned], 8*t.Size)
	case h5gen.Float:
		return fmt.Sprintf("float%d", 8*t.Size)
	case h5gen.VStr, h5gen.Str:
		return "string"
	}
	return ""
}

// sameAs tells whether two types are alike but for their names.
func sameAs(a, b *h5gen.Type) bool {
	x, y := *a, *b
	x.Named, y.Named = "", ""
	if x.Class != y.Class || basicOf(a) != basicOf(b) || x.Size != y.Size && x.Class == h5gen.Opaque ||
		len(x.Members) != len(y.Members) || !slices.Equal(x.Dims, y.Dims) || !slices.Equal(x.Names, y.Names) || !slices.Equal(x.Vals, y.Vals) {
		return false
	}
	for i, m := range x.Members {
		if n := y.Members[i]; m.Name != n.Name || !sameAs(m.T, n.T) {
			return false
		}
	}
	return x.Base == nil || sameAs(x.Base, y.Base)
}

// c22named are the types of a file.
type c22named []*h5gen.Type

func (all c22named) find(name string) *h5gen.Type {
	for _, t := range all {
		if t.Named == name {
			return t
		}
	}
	return nil
}

// goIs checks a parsed Go description. The definition of a type is no mere name.
func (all c22named) goIs(g *goT, t *h5gen.Type, definition bool) error {
	bad := fmt.Errorf("a description that isn't that of %s", t)
	if g.named != "" && g.enum == nil {
		o := all.find(g.named)
		if definition || o == nil || !sameAs(o, t) {
			return fmt.Errorf("the name %q for %s", g.named, t)
		}
		return nil
	}
	switch t.Class {
	case h5gen.Enum:
		if g.basic != basicOf(t.Base) || !slices.Equal(g.enum, t.Names) {
			return bad
		}
	case h5gen.Opaque:
		if g.elem == nil || g.n != t.Size || g.elem.basic != "uint8" {
			return bad
		}
	case h5gen.Vlen:
		if g.elem == nil || g.n != -1 {
			return bad
		}
		return all.goIs(g.elem, t.Base, false)
	case h5gen.Array:
		for _, n := range t.Dims {
			if g.elem == nil || g.n != n {
				return bad
			}
			g = g.elem
		}
		return all.goIs(g, t.Base, false)
	case h5gen.Compound:
		if len(g.fields) != len(t.Members) {
			return bad
		}
		for i, f := range g.fields {
			if f.name != t.Members[i].Name {
				return bad
			}
			if err := all.goIs(f.t, t.Members[i].T, false); err != nil {
				return err
			}
		}
	default:
		if g.basic != basicOf(t) {
			return bad
		}
	}
	return nil
}

// cdlIs checks the CDL description at the start of s and returns what follows it.
func (all c22named) cdlIs(s string, t *h5gen.Type, definition bool) (string, error) {
	bad := fmt.Errorf("%q for %s", s, t)
	if !definition {
		for i := len(s); i > 0; i-- {
			if o := all.find(s[:i]); o != nil {
				if !sameAs(o, t) {
					return "", bad
				}
				return s[i:], nil
			}
		}
	}
	expect := func(x string) bool {
		rest, ok := strings.CutPrefix(s, x)
		s = rest
		return ok
	}
	switch t.Class {
	case h5gen.Enum:
		if !expect(cdlNames[basicOf(t.Base)] + " enum {\n") {
			return "", bad
		}
		for i, n := range t.Names {
			if i > 0 && !expect(",\n") || !expect(fmt.Sprintf("\t%s = %d", n, t.Vals[i])) {
				return "", bad
			}
		}
		if !expect("\n}") {
			return "", bad
		}
	case h5gen.Opaque:
		if !expect(fmt.Sprintf("opaque(%d)", t.Size)) {
			return "", bad
		}
	case h5gen.Vlen:
		rest, err := all.cdlIs(s, t.Base, false)
		if err != nil {
			return "", err
		}
		if s = rest; !expect("(*)") {
			return "", bad
		}
	case h5gen.Compound:
		if !expect("compound {\n") {
			return "", bad
		}
		for _, m := range t.Members {
			if !expect("\t") {
				return "", bad
			}
			rest, err := all.cdlIs(s, m.T, false)
			if err != nil {
				return "", err
			}
			// (the dimensions of an array come before or after the name)
			if s = rest; !expect(" " + m.Name) {
				return "", bad
			}
			if m.T.Class == h5gen.Array && strings.HasPrefix(s, "(") {
				i := strings.IndexByte(s, ')')
				if i < 0 {
					return "", bad
				}
				s = s[i+1:]
			}
			if !expect(";\n") {
				return "", bad
			}
		}
		if !expect("}") {
			return "", bad
		}
	case h5gen.Array:
		rest, err := all.cdlIs(s, t.Base, false)
		if err != nil {
			return "", err
		}
		if s = rest; strings.HasPrefix(s, "(") {
			i := strings.IndexByte(s, ')')
			if i < 0 {
				return "", bad
			}
			s = s[i+1:]
		}
	default:
		if !expect(cdlNames[basicOf(t)]) {
			return "", bad
		}
	}
	return s, nil
}

// c22types enumerates files with lists of user-defined types, some alike, some made of others.
func c22types(thorough bool, emit fw.Yield) {
	i2, i4, f8, u1 := family.HInt(2, false, false), family.HInt(4, false, false), family.HFloat(8, false), family.HInt(1, true, false)
	kinds := []func(prev []*h5gen.Type) *h5gen.Type{
		func([]*h5gen.Type) *h5gen.Type { return family.HComp(i2, i4) },
		func([]*h5gen.Type) *h5gen.Type { return family.HComp(f8, family.HArray(i2, 2, 3)) },
		func([]*h5gen.Type) *h5gen.Type { return family.HOpaque(3) },
		func([]*h5gen.Type) *h5gen.Type { return family.HOpaque(5) },
		func([]*h5gen.Type) *h5gen.Type { return family.HEnum(u1, 0, 1, 7) },
		func([]*h5gen.Type) *h5gen.Type { return family.HEnum(i4, -1, 1) },
		func([]*h5gen.Type) *h5gen.Type { return family.HVlen(i4) },
		func([]*h5gen.Type) *h5gen.Type { return family.HComp(family.HVStr(false), u1) },
		// made of the types before
		func(p []*h5gen.Type) *h5gen.Type {
			if len(p) == 0 {
				return nil
			}
			return family.HComp(i2, p[len(p)-1])
		},
		func(p []*h5gen.Type) *h5gen.Type {
			if len(p) == 0 {
				return nil
			}
			return family.HVlen(p[0])
		},
		func(p []*h5gen.Type) *h5gen.Type {
			if len(p) < 2 {
				return nil
			}
			return family.HComp(p[0], p[1])
		},
	}
	try := func(list []int, nest bool) {
		var types []*h5gen.Type
		for i, k := range list {
			t := kinds[k](types)
			if t == nil {
				return
			}
			c := *t
			c.Named = fmt.Sprintf("T%d", i)
			types = append(types, &c)
		}
		emit(func() string {
			var s []string
			for _, t := range types {
				s = append(s, t.String())
			}
			return fmt.Sprintf("user-defined types nested=%v %v", nest, s)
		}, func(c *fw.Ctx) {
			r := &h5gen.NCGroup{Types: types, Dims: []h5gen.NCDim{{Name: "x", Len: 2}}}
			where := r
			if nest {
				where = &h5gen.NCGroup{Name: "g"}
				r.Groups = []*h5gen.NCGroup{where}
			}
			for i, t := range types {
				where.Vars = append(where.Vars, &h5gen.NCVar{Name: fmt.Sprintf("v%d", i), T: t, Dims: []string{"x"}, Shape: []int{2}, All: true, Salt: i,
					Attrs: []h5gen.Attr{{Name: "a", T: t, Shape: []int{2}}}})
			}
			b, err := h5gen.NCBytes(c.Dir, &h5gen.NC{Root: r})
			if err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			g, err := netcdf.New(family.NewMem(b))
			if err != nil {
				c.Failf("open: %v", err)
				return
			}
			defer g.Close()
			var want []string
			for _, t := range types {
				want = append(want, t.Named)
			}
			c.State(1)
			if got := g.ListTypes(); !slices.Equal(got, want) {
				c.Failf("types %q instead of %q", got, want)
				return
			}
			is := func(what, gs, cs string, t *h5gen.Type, definition bool) bool {
				c.Trans(2)
				gt, rest, err := parseGo(gs)
				if err == nil && strings.TrimSpace(rest) != "" {
					err = fmt.Errorf("%q left over", rest)
				}
				if err == nil {
					err = c22named(types).goIs(gt, t, definition)
				}
				if err != nil {
					c.Failf("%s: Go type %q: %v", what, gs, err)
					return false
				}
				rest, err = c22named(types).cdlIs(cs, t, definition)
				if err == nil && strings.TrimSpace(rest) != "" {
					err = fmt.Errorf("%q left over", rest)
				}
				if err != nil {
					c.Failf("%s: CDL type %q: %v", what, cs, err)
					return false
				}
				return true
			}
			for _, t := range types {
				cdl, _ := g.GetType(t.Named)
				gs, _ := g.GetGoType(t.Named)
				if !is(t.Named, strings.TrimPrefix(gs, "type "+t.Named+" "), cdl, t, true) {
					return
				}
			}
			if !nest {
				for i, t := range types {
					vg, err := g.GetVarGetter(fmt.Sprintf("v%d", i))
					if err != nil {
						c.Failf("v%d: %v", i, err)
						return
					}
					if !is(fmt.Sprintf("v%d", i), vg.GoType(), vg.Type(), t, false) {
						return
					}
				}
			}
			c.Trace(1)
		})
	}
	n := len(kinds)
	for a := range n {
		try([]int{a}, false)
		for b := range n {
			try([]int{a, b}, false)
			try([]int{a, b}, true)
			for d := range n {
				try([]int{a, b, d}, false)
				for e := range n {
					if thorough {
						try([]int{a, b, d, e}, false)
					}
				}
			}
		}
	}
	// many
	for _, m := range []int{8, 12, 25} {
		for _, step := range []int{0, 1, 3} {
			var l []int
			for i := range m {
				l = append(l, (i*step)%8)
			}
			try(l, false)
		}
	}
}
