package props

import (
	"fmt"
	"os"
	"path/filepath"
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// c14Types are user-defined types whose values get mixed.
func c14Types() []*h5gen.Type {
	i1, i4 := family.HInt(1, false, false), family.HInt(4, false, false)
	c1, c2 := family.HComp(i1), family.HComp(i4)
	return []*h5gen.Type{
		c1, c2, family.HComp(i1, i4), family.HComp(i4, i1), family.HComp(family.HFloat(4, false)), family.HComp(family.HStr(3, 1)), family.HComp(family.HVStr(false)),
		family.HComp(family.HArray(i4, 2)), family.HComp(family.HArray(i4, 3)), family.HComp(family.HVlen(i4)), family.HComp(family.HVlen(i1)), family.HComp(c1), family.HComp(c2), family.HComp(family.HArray(c1, 2)), family.HComp(family.HVlen(c2)),
		family.HComp(family.HOpaque(3)), family.HComp(family.HEnum(i1, 1, 2)),
		family.HOpaque(3), family.HOpaque(5), family.HVlen(c1), family.HVlen(c2), family.HVlen(family.HOpaque(3)), family.HVlen(family.HOpaque(5)), family.HEnum(i1, 1, 2), family.HEnum(i1, 1, 3), family.HEnum(i4, 1, 2), family.HVlen(family.HEnum(i1, 1, 2)),
	}
}

// c14Source reads three values of a type.
func c14Source(c *fw.Ctx, t *h5gen.Type) any {
	g, _ := openH5(c, &h5gen.File{Libver: 1, Root: &h5gen.Group{Items: []any{&h5gen.Dataset{Name: "v", T: t, Shape: []int{3}, Layout: 'C', All: true}}}})
	if g == nil {
		return nil
	}
	defer g.Close()
	v, err := g.GetVariable("v")
	if err != nil {
		c.Failf("source: %v", err)
		return nil
	}
	return v.Values
}

// c14Mixed offers values made of those of two types.
func c14Mixed(c *fw.Ctx, a, b *h5gen.Type) {
	va, vb := c14Source(c, a), c14Source(c, b)
	if va == nil || vb == nil {
		return
	}
	ra, rb := reflect.ValueOf(va), reflect.ValueOf(vb)
	if ra.Type() != rb.Type() || ra.Kind() != reflect.Slice {
		return
	}
	join := func(parts ...reflect.Value) any {
		s := reflect.MakeSlice(ra.Type(), 0, 0)
		for _, p := range parts {
			s = reflect.AppendSlice(s, p)
		}
		return s.Interface()
	}
	zero := reflect.MakeSlice(ra.Type(), 1, 1)
	zeros := reflect.MakeSlice(ra.Type(), 2, 2)
	for i, v := range []any{join(ra), join(ra, rb), join(ra.Slice(0, 1), rb.Slice(1, 3)), join(rb.Slice(0, 2), ra.Slice(1, 2), rb.Slice(2, 3)), join(zero), join(zeros), join(zero, ra), join(ra, zero), join(ra.Slice(0, 0)), []any{va, vb}, [][]any{{va}},
		[]any{ra.Index(0).Interface(), rb.Index(0).Interface()}} {
		c14Offer(c, fmt.Sprintf("mixture %d", i), v)
	}
}

// c14Swapped offers compound values of which one member was replaced.
func c14Swapped(c *fw.Ctx, t *h5gen.Type) {
	v := c14Source(c, t)
	if v == nil {
		return
	}
	np := (*int32)(nil)
	for i, x := range []any{nil, int8(1), int32(1), "text", "", []int32{1, 2}, []int32{}, []int32{1, 2, 3}, [][]int32{{1}, {2, 3}}, []string{"a", "bc"}, []string{}, true, int(1), map[string]int{}, np, []any{int8(1)}, []any{}, struct{}{}, uint64(1), []byte{1, 2}, v} {
		for at := range 3 {
			// a copy of the values with a member of one of them replaced
			rv := reflect.ValueOf(v)
			cp := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
			for j := range rv.Len() {
				e := rv.Index(j)
				ce := reflect.MakeSlice(e.Type(), e.Len(), e.Len())
				reflect.Copy(ce, e)
				if j == at || at == 2 {
					f := ce.Index(ce.Len() - 1).FieldByName("Val")
					if !f.IsValid() || !f.CanSet() {
						c.Note("fields_not_settable", 1)
						return
					}
					if x == nil {
						f.Set(reflect.Zero(f.Type()))
					} else {
						f.Set(reflect.ValueOf(x))
					}
				}
				cp.Index(j).Set(ce)
			}
			c14Offer(c, fmt.Sprintf("member replaced by %d (%T) in element %d", i, x, at), cp.Interface())
			if c.Failed() {
				return
			}
			c14Offer(c, fmt.Sprintf("member replaced by %d (%T), single value", i, x), cp.Index(at).Interface())
		}
	}
}

// c14Offer has both writers take or refuse a value in every place.
func c14Offer(c *fw.Ctx, what string, v any) {
	if c.Failed() {
		return
	}
	want := ""
	if p := obs.Safe(func() { want = obs.Render(v) }); p != "" {
		return // not a value at all
	}
	for _, kind := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5} {
		for where := range 4 {
			path := filepath.Join(c.Dir, "w14m.nc")
			w, err := netcdf.OpenWriter(path, kind)
			if err != nil {
				c.Failf("%v", err)
				return
			}
			mv := model.Var{Name: "p", Vals: []int32{1, 2}, Dims: []string{"x"}}
			m := &model.Group{Vars: []model.Var{mv}}
			if err := w.AddVar(mv.Name, mv.APIVar()); err != nil {
				c.Failf("%v", err)
			}
			applies := true
			p := obs.Safe(func() {
				am := []model.Attr{{Name: "ok", Val: int32(4)}, {Name: "bad", Val: v}}
				switch where {
				case 0:
					err = w.AddVar("v", api.Variable{Values: v, Dimensions: []string{"y"}})
					if err == nil {
						m.Vars = append(m.Vars, model.Var{Name: "v", Vals: v, Dims: []string{"y"}})
					}
				case 1:
					if err = w.AddAttributes(model.AttrMap(am)); err == nil {
						m.Attrs = am
					}
				case 2:
					nv := model.Var{Name: "v", Vals: []int16{1, 2, 3}, Dims: []string{"q"}, Attrs: am}
					if err = w.AddVar(nv.Name, nv.APIVar()); err == nil {
						m.Vars = append(m.Vars, nv)
					}
				case 3:
					g, err2 := w.CreateGroup("g")
					if err2 != nil {
						applies = false
						return
					}
					m.Groups = []*model.Group{{Name: "g"}}
					if err = g.AddVar("v", api.Variable{Values: v}); err == nil {
						m.Groups[0].Vars = []model.Var{{Name: "v", Vals: v, Dims: nil}}
					}
				}
			})
			c.Trans(2)
			c.State(1)
			bad := ""
			if p != "" {
				bad = "panic: " + p
			}
			last := model.Var{Name: "z", Vals: []float64{1.5}, Dims: []string{"y9"}}
			if applies && bad == "" {
				if e := w.AddVar(last.Name, last.APIVar()); e != nil {
					bad = fmt.Sprintf("a later variable: %v", e)
				}
				m.Vars = append(m.Vars, last)
			}
			var cerr error
			p = obs.Safe(func() { cerr = w.Close() })
			switch {
			case bad != "":
			case p != "":
				bad = "Close: panic: " + p
			case cerr != nil:
				bad = fmt.Sprintf("Close: %v", cerr)
			case applies:
				g, e := netcdf.Open(path)
				if e != nil {
					bad = fmt.Sprintf("open: %v", e)
					break
				}
				bad = c14UserContent(g, m)
				g.Close()
			}
			os.Remove(path)
			c.Trace(1)
			if bad != "" {
				c.Failf("%s: %s, offered as %d to kind %v (answer %v): %s", what, clip(want), where, kind, err, bad)
				return
			}
		}
	}
}

// c14UserContent is checkUser for variables without declared dimensions.
func c14UserContent(g api.Group, m *model.Group) (bad string) {
	for _, s := range m.Groups {
		for i, v := range s.Vars {
			if v.Dims != nil {
				continue
			}
			p := obs.Safe(func() {
				sg, err := g.GetGroup(s.Name)
				if err != nil {
					bad = err.Error()
					return
				}
				defer sg.Close()
				got, err := sg.GetVariable(v.Name)
				if err != nil {
					bad = err.Error()
					return
				}
				s.Vars[i].Dims = got.Dimensions
			})
			if p != "" || bad != "" {
				return bad + p
			}
		}
	}
	return checkUser(g, m)
}
