package props

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

type verdict int

const (
	accept verdict = iota // must be accepted
	refuse                // must be refused
	either
)

// wState is the model of a writer: the content so far and what follows from it.
type wState struct {
	root   *model.Group
	g      *model.Group // of the group made by CreateGroup
	gMade  bool
	dims   map[string]int64 // sizes of the named dimensions, -1 unlimited
	closed bool
}

// wOp is one writer call: what the model says about it, and the call.
type wOp struct {
	name string
	// judge gives the verdict and the effect if the call is accepted
	judge func(k netcdf.FileKind, s *wState) (verdict, func())
	call  func(x *wRun) error
}

type wRun struct {
	w api.Writer
	g api.Writer
}

func hasVar(g *model.Group, n string) bool {
	for _, v := range g.Vars {
		if v.Name == n {
			return true
		}
	}
	return false
}

func hasAttr(g *model.Group, n string) bool {
	for _, a := range g.Attrs {
		if a.Name == n {
			return true
		}
	}
	return false
}

// addVar is a call of AddVar in the root group or in the made group.
func addVar(inGroup bool, v model.Var, must verdict) wOp {
	return addVarRaw(inGroup, v, must, nil)
}

func addVarRaw(inGroup bool, v model.Var, must verdict, raw func() api.Variable) wOp {
	where := ""
	if inGroup {
		where = "g/"
	}
	name := fmt.Sprintf("AddVar(%s%q,%s,%q)", where, v.Name, model.Short(v.Vals), v.Dims)
	if len(v.Attrs) > 0 {
		name += model.AttrsString(v.Attrs)
	}
	return wOp{name, func(k netcdf.FileKind, s *wState) (verdict, func()) {
		g := s.root
		if inGroup {
			if !s.gMade {
				return -1, nil
			}
			g = s.g
		}
		if must == refuse || s.closed {
			return refuse, nil
		}
		if hasVar(g, v.Name) || g == s.root && s.gMade && v.Name == s.g.Name {
			return refuse, nil
		}
		if must == either {
			return either, func() {
				g.Vars = append(g.Vars, v)
				shape := model.Shape(v.Vals)
				for i := range min(len(shape), len(v.Dims)) {
					if _, has := s.dims[v.Dims[i]]; !has {
						s.dims[v.Dims[i]] = int64(shape[i])
					}
				}
			}
		}
		shape := model.Shape(v.Vals)
		add := map[string]int64{}
		for i, d := range v.Dims {
			n := int64(shape[i])
			old, has := s.dims[d]
			if !has {
				old, has = add[d]
			}
			if has && old != n {
				return refuse, nil
			}
			if n == 0 && k == netcdf.KindCDF {
				for o, sz := range s.dims {
					if sz == 0 && o != d {
						return refuse, nil // only one can be unlimited
					}
				}
			}
			if s.gMade && d == s.g.Name {
				if k == netcdf.KindHDF5 {
					return refuse, nil // dimensions are objects of the root group
				}
			}
			add[d] = n
		}
		return accept, func() {
			g.Vars = append(g.Vars, v)
			for d, n := range add {
				s.dims[d] = n
			}
		}
	}, func(x *wRun) error {
		w := x.w
		if inGroup {
			w = x.g
		}
		if raw != nil {
			return w.AddVar(v.Name, raw())
		}
		return w.AddVar(v.Name, v.APIVar())
	}}
}

func addAttrs(inGroup bool, as []model.Attr, must verdict) wOp {
	where := ""
	if inGroup {
		where = "g/"
	}
	return wOp{fmt.Sprintf("AddAttributes(%s%s)", where, model.AttrsString(as)), func(k netcdf.FileKind, s *wState) (verdict, func()) {
		g := s.root
		if inGroup {
			if !s.gMade {
				return -1, nil
			}
			g = s.g
		}
		if must == refuse || s.closed {
			return refuse, nil
		}
		for _, a := range as {
			if hasAttr(g, a.Name) {
				return refuse, nil
			}
		}
		return must, func() { g.Attrs = append(g.Attrs, as...) }
	}, func(x *wRun) error {
		w := x.w
		if inGroup {
			w = x.g
		}
		return w.AddAttributes(model.AttrMap(as))
	}}
}

func createGroup(name string, must verdict) wOp {
	return wOp{fmt.Sprintf("CreateGroup(%q)", name), func(k netcdf.FileKind, s *wState) (verdict, func()) {
		if k == netcdf.KindCDF || must == refuse || s.closed {
			return refuse, nil
		}
		if _, isDim := s.dims[name]; isDim || hasVar(s.root, name) {
			return refuse, nil
		}
		return accept, func() {
			if !s.gMade {
				s.gMade = true
				s.g = &model.Group{Name: name}
				s.root.Groups = append(s.root.Groups, s.g)
			}
		}
	}, func(x *wRun) error {
		g, err := x.w.CreateGroup(name)
		if err == nil {
			x.g = g
		} else if g != nil {
			return errors.New("CreateGroup returned a group and an error: " + err.Error())
		}
		return err
	}}
}

// c14Ops is the alphabet of calls.
func c14Ops(thorough bool) (ops []wOp) {
	at := func(kv ...any) (as []model.Attr) {
		for i := 0; i < len(kv); i += 2 {
			as = append(as, model.Attr{Name: kv[i].(string), Val: kv[i+1]})
		}
		return
	}
	type st struct{ A int32 }
	ops = append(ops,
		addVar(false, model.Var{Name: "a", Vals: []int32{1, 2}, Dims: []string{"x"}}, accept),
		addVar(false, model.Var{Name: "a", Vals: float64(3)}, accept),
		addVar(false, model.Var{Name: "b", Vals: [][]float32{{1, 2}, {3, 4}, {5, 6}}, Dims: []string{"y", "x"}, Attrs: at("u", "mm")}, accept),
		addVar(false, model.Var{Name: "c", Vals: []int16{1, 2, 3}, Dims: []string{"x"}}, accept), // conflicts with x=2
		addVar(false, model.Var{Name: "d", Vals: uint8(200)}, accept),                            // needs version 5
		addVar(false, model.Var{Name: "s", Vals: "text"}, accept),
		addVar(false, model.Var{Name: "x", Vals: []float64{1, 2}, Dims: []string{"x"}}, accept), // coordinate
		addVar(false, model.Var{Name: "n", Vals: []int32{}, Dims: []string{"t"}}, either),
		// refused for several reasons, each after something that could leave traces
		addVar(false, model.Var{Name: "bad/name", Vals: []int32{1, 2, 3, 4}, Dims: []string{"p"}}, refuse),
		addVar(false, model.Var{Name: "", Vals: int32(1)}, refuse),
		addVar(false, model.Var{Name: "r1", Vals: map[string]int{"a": 1}, Dims: []string{"p"}}, refuse),
		addVar(false, model.Var{Name: "r2", Vals: []int32{1, 2, 3, 4}, Dims: []string{"q", "p"}}, refuse), // too many dimensions
		addVar(false, model.Var{Name: "r3", Vals: [][]int32{{1, 2}, {3, 4}}, Dims: []string{"p", "p"}, Attrs: at("z/", int8(1))}, refuse),
		addVar(false, model.Var{Name: "r4", Vals: []uint64{1}, Dims: []string{"p"}, Attrs: at("z", st{1})}, refuse),
		addVar(false, model.Var{Name: "r5", Vals: [][]int32{{1, 2}, {3, 4, 5}}, Dims: []string{"p", "p"}}, refuse), // sizes differ, or ragged
		addVar(false, model.Var{Name: "r6", Vals: []int64{1, 2, 3, 4}, Dims: []string{"p/p"}}, refuse),
		addAttrs(false, at("a1", int32(1)), accept),
		addAttrs(false, at("a1", "again"), accept),
		addAttrs(false, at("a2", []float64{1, 2}, "a3", "t"), accept),
		addAttrs(false, at("a4", int16(1), "a/5", int16(1)), refuse),
		addAttrs(false, at("a6", uint64(1), "a7", complex(1, 1)), refuse),
		createGroup("g", accept),
		createGroup("g/", refuse),
		addVar(true, model.Var{Name: "a", Vals: []int8{1, 2}, Dims: []string{"x"}}, accept),
		addVar(true, model.Var{Name: "e", Vals: []int8{1, 2, 3}, Dims: []string{"x"}}, accept), // conflicts
		addVar(true, model.Var{Name: "f/", Vals: []int8{1, 2, 3}}, refuse),
		addAttrs(true, at("a1", int32(7)), accept),
		addVar(false, model.Var{Name: "g", Vals: int32(5)}, accept), // like the group
		wOp{"Close", func(k netcdf.FileKind, s *wState) (verdict, func()) {
			if s.closed {
				return either, func() {}
			}
			return accept, func() { s.closed = true }
		}, func(x *wRun) error { return x.w.Close() }},
	)
	if !thorough {
		return
	}
	return append(ops,
		addVar(false, model.Var{Name: "n2", Vals: []int32{}, Dims: []string{"t2"}}, either),
		addVar(false, model.Var{Name: "h", Vals: []string{"ab", "c"}, Dims: []string{"x", "l"}}, either),
		addVar(false, model.Var{Name: "r7", Vals: nil, Dims: []string{"p"}}, refuse),
		addAttrs(false, nil, accept),
		addAttrs(true, at("a1", int32(7), "a1/", int8(1)), refuse),
	)
}

// c14Odd are calls of AddVar with values of odd shapes: without elements, ragged, texts
// of several lengths. They may be refused, but what is accepted must be stored.
func c14Odd() (ops []wOp) {
	vals := []any{
		[]int32{}, [][]int32{}, [][]int32{{}}, [][]int32{{}, {}}, [][][]int8{}, [][][]int8{{}}, [][][]int8{{{}}}, [][][]int8{{{}, {}}, {{}, {}}}, [][][]int8{{}, {}},
		[][]int32{{1}, {}}, [][]int32{{}, {1}}, [][]int32{{1, 2}, {3}}, [][]int32{{1}, {2, 3}}, [][][]int8{{{1}}, {}}, [][][]int8{{{1}, {2}}, {{3}}}, [][][]int8{{{1}, {2}}, {{3}, {}}}, [][]int32{nil, nil}, [][]int32(nil),
		"", "ab", []string{}, []string{""}, []string{"", ""}, []string{"", "ab"}, []string{"ab", ""}, []string{"a", "bcd"}, []string{"ab", "cd"},
		[][]string{}, [][]string{{}}, [][]string{{}, {}}, [][]string{{""}}, [][]string{{"a"}, {}}, [][]string{{}, {"a"}}, [][]string{{"a", "bb"}, {"", "ccc"}}, [][]string{{"", ""}, {"", "cc"}}, []string(nil),
		[]int64{1, 2}, [][]uint8{{1, 2}, {3, 4}}, float32(2.5),
	}
	for i, v := range vals {
		for j, d := range [][]string{nil, {"x"}, {"x", "y"}, {"y", "x"}, {"x", "x"}, {"", "x"}, {"x", "", "y"}, {"x", "y", "z"}, {"x", "x", "x"}, {"x", "y", "z", "w"}} {
			if j > 1 && len(d) > rankOf(v)+2 {
				continue
			}
			ops = append(ops, addVar(false, model.Var{Name: fmt.Sprintf("v%dd%d", i, j), Vals: v, Dims: d}, either))
		}
	}
	return
}

func rankOf(v any) (n int) {
	for t := reflect.TypeOf(v); t.Kind() == reflect.Slice; t = t.Elem() {
		n++
	}
	return
}

// unsupported values, which must be refused without a panic
func unsupportedValues() []any {
	var np *int32
	var ni any
	i := int32(5)
	type st struct{ A int32 }
	return []any{nil, np, &i, &ni, true, []bool{true}, []bool{}, int(1), []int{1}, uint(1), []uint{}, uintptr(1), complex64(1), []complex128{1}, st{1}, []st{{1}}, []st{}, struct{}{},
		map[string]int32{}, map[string]int32(nil), make(chan int), func() {}, []any{}, []any{int32(1)}, []any{int32(1), "a"}, [][]any{{int8(1)}}, []*int32{&i}, []*int32{nil},
		[]map[string]int{{}}, []error{nil}, []func(){nil}, [][]int{{1}}, [][]bool{{}}, []chan int{nil}, struct{ A any }{nil}, []struct{}{{}}, [0]bool{}, [2]int{}, [][]map[int]int{}}
}

// c14Run makes a sequence of calls on a fresh writer.
func c14Run(c *fw.Ctx, kind netcdf.FileKind, ops []wOp, seq []int) (applicable bool, bad string) {
	s := &wState{root: &model.Group{}, dims: map[string]int64{}}
	var names []string
	path := filepath.Join(c.Dir, "w14.nc")
	defer os.Remove(path)
	w, err := netcdf.OpenWriter(path, kind)
	if err != nil {
		return true, err.Error()
	}
	x := &wRun{w: w}
	calls := 0
	panicked := ""
	refusedAny := false
	for _, i := range seq {
		v, effect := ops[i].judge(kind, s)
		if v < 0 || s.closed && ops[i].name == "Close" {
			w.Close()
			return false, ""
		}
		names = append(names, ops[i].name)
		wasClosed := s.closed
		err = nil
		panicked = obs.Safe(func() { err = ops[i].call(x) })
		calls++
		switch {
		case panicked != "":
			bad = "panic: " + panicked
		case v == accept && err != nil:
			bad = fmt.Sprintf("refused: %v", err)
		case v == refuse && err == nil:
			bad = "accepted"
			if wasClosed {
				bad = "accepted after Close"
			}
		}
		if bad != "" {
			break
		}
		if err == nil {
			effect()
			names[len(names)-1] += "=ok"
		} else {
			refusedAny = true
			names[len(names)-1] += "=refused"
		}
	}
	c.Trans(calls + 1)
	if bad == "" && !s.closed {
		if p := obs.Safe(func() { err = w.Close() }); p != "" {
			bad = "Close: panic: " + p
		} else if err != nil {
			bad = fmt.Sprintf("Close: %v", err)
		}
	} else if bad != "" && !s.closed {
		obs.Safe(func() { w.Close() })
	}
	if bad == "" {
		bad = c14Content(c, path, kind, s.root)
	}
	if bad != "" {
		return true, strings.Join(names, "; ") + ": " + bad
	}
	c.Outcome(s.root.String())
	if refusedAny {
		c.Note("sequences_with_refused_calls", 1)
	}
	return true, ""
}

// c14Content compares a written file with the accepted calls.
func c14Content(c *fw.Ctx, path string, kind netcdf.FileKind, m *model.Group) (bad string) {
	p := obs.Safe(func() {
		g, err := netcdf.Open(path)
		if err != nil {
			bad = fmt.Sprintf("open: %v", err)
			return
		}
		defer g.Close()
		n := 0
		if kind == netcdf.KindCDF {
			bad, n = checkCDF(g, m)
		} else {
			bad = checkH5Content(g, m, true, &n)
			if bad == "" {
				bad = checkH5Dims(g, m, &n)
			}
		}
		c.Trans(n)
		c.Trace(1)
	})
	if p != "" {
		bad = "reading: panic: " + p
	}
	return
}

func init() {
	fw.Register(&fw.Prop{
		ID:    "C14",
		Level: "model_checking",
		Rule: "one case per (format, first two calls); a case makes every sequence of writer calls of the bounded length that starts with them, on a real writer; a model of the writer says which calls must be accepted and which refused, " +
			"and the file is compared with the model's content (the accepted calls) after Close. Further cases: every unsupported value in a variable and in attributes, alone and after other calls.",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "34 calls (valid, invalid and conflicting variables, attributes, groups, Close); all sequences up to length 4 in both formats; 39 unsupported values; some 370 values of odd shapes and user-defined types, alone and as neighbours; 27 x 27 mixtures of members in lists of user-defined values, members replaced one at a time"
			}
			return "29 calls (valid, invalid and conflicting variables, attributes, groups, Close); all sequences up to length 4 in both formats; 39 unsupported values; some 370 values of odd shapes and user-defined types, alone and as neighbours; 27 x 27 mixtures of members in lists of user-defined values, members replaced one at a time"
		},
		Assumptions: []string{"variables with an extent of 0 may be refused or accepted, but what was answered must be what is stored"},
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			ops := c14Ops(thorough)
			depth := 4
			types := c14Types()
			for i, a := range types {
				for j, b := range types {
					y(func() string { return fmt.Sprintf("values of types %d and %d mixed: %s, %s", i, j, a, b) }, func(c *fw.Ctx) { c14Mixed(c, a, b) })
				}
				if a.Class == h5gen.Compound {
					y(func() string { return fmt.Sprintf("values of type %d with other members: %s", i, a) }, func(c *fw.Ctx) { c14Swapped(c, a) })
				}
			}
			for _, kind := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5} {
				kn := map[netcdf.FileKind]string{netcdf.KindCDF: "CDF", netcdf.KindHDF5: "HDF5"}[kind]
				y(func() string { return kn + " no call" }, func(c *fw.Ctx) {
					if _, bad := c14Run(c, kind, ops, nil); bad != "" {
						c.Failf("%s", bad)
					}
				})
				for a := range ops {
					for b := -1; b < len(ops); b++ {
						y(func() string {
							s := kn + " " + ops[a].name
							if b >= 0 {
								s += "; " + ops[b].name
							}
							return s
						}, func(c *fw.Ctx) {
							var rec func(seq []int) bool
							rec = func(seq []int) bool {
								ok, bad := c14Run(c, kind, ops, seq)
								if bad != "" {
									c.Failf("%s %s", kn, bad)
									return false
								}
								if !ok {
									return true
								}
								c.State(1)
								if b < 0 || len(seq) == depth {
									return true
								}
								for i := range ops {
									if !rec(append(append([]int{}, seq...), i)) {
										return false
									}
								}
								return true
							}
							if b < 0 {
								rec([]int{a})
							} else {
								rec([]int{a, b})
							}
						})
					}
				}
				odd := c14Odd()
				for a := range odd {
					y(func() string { return kn + " odd " + odd[a].name + ", alone and before every other" }, func(c *fw.Ctx) {
						for b := -1; b < len(odd); b++ {
							seq := []int{a, b}
							if b < 0 {
								seq = seq[:1]
							}
							if b == a {
								continue
							}
							if _, bad := c14Run(c, kind, odd, seq); bad != "" {
								c.Failf("%s %s", kn, bad)
								return
							}
							c.State(1)
						}
					})
				}
				for i, v := range unsupportedValues() {
					y(func() string { return fmt.Sprintf("%s unsupported %d %T", kn, i, v) }, func(c *fw.Ctx) {
						c14Unsupported(c, kind, v)
					})
				}
			}
		},
	})
}

// c14Unsupported offers an unsupported value everywhere.
func c14Unsupported(c *fw.Ctx, kind netcdf.FileKind, v any) {
	for _, prior := range []bool{false, true} {
		for where := range 6 {
			for _, dims := range [][]string{nil, {}, {"x"}, {"y"}, {"x", "y"}} {
				path := filepath.Join(c.Dir, "w14u.nc")
				w, err := netcdf.OpenWriter(path, kind)
				if err != nil {
					c.Failf("%v", err)
					return
				}
				m := &model.Group{}
				if prior {
					mv := model.Var{Name: "p", Vals: []int32{1, 2}, Dims: []string{"x"}}
					m.Vars = append(m.Vars, mv)
					if err := w.AddVar(mv.Name, mv.APIVar()); err != nil {
						c.Failf("%v", err)
					}
				}
				what := ""
				am := model.AttrMap([]model.Attr{{Name: "ok", Val: int64(1)}, {Name: "bad", Val: v}})
				p := obs.Safe(func() {
					err = nil
					switch where {
					case 0:
						what = "AddVar"
						err = w.AddVar("v", api.Variable{Values: v, Dimensions: dims})
					case 1:
						what = "AddAttributes"
						err = w.AddAttributes(am)
					case 2:
						what = "AddVar with the value in its attributes"
						err = w.AddVar("v", api.Variable{Values: []int64{1, 2}, Dimensions: append([]string{}, "q"), Attributes: am})
					case 3:
						what = "AddVar with a text of the wrong rank"
						if dims == nil {
							err = errors.New("fine")
							return
						}
						err = w.AddVar("v", api.Variable{Values: int32(1), Dimensions: append(append([]string{}, dims...), "z")})
					default:
						g, err2 := w.CreateGroup("g")
						if err2 != nil {
							err = err2
							return
						}
						m.Groups = append(m.Groups, &model.Group{Name: "g"})
						what = "AddVar in a group"
						if where == 4 {
							err = g.AddVar("v", api.Variable{Values: v, Dimensions: dims})
						} else {
							what = "AddAttributes in a group"
							err = g.AddAttributes(am)
						}
					}
				})
				c.Trans(1)
				c.State(1)
				bad := ""
				if p != "" {
					bad = "panic: " + p
				} else if err == nil {
					bad = "accepted"
				}
				p = obs.Safe(func() { err = w.Close() })
				if bad == "" && p != "" {
					bad = "Close: " + p
				}
				if bad == "" && err != nil {
					bad = fmt.Sprintf("Close: %v", err)
				}
				if bad == "" {
					bad = c14Content(c, path, kind, m)
				}
				os.Remove(path)
				if bad != "" {
					c.Failf("%s(%T %v) dims %q prior call %v: %s", what, v, v, dims, prior, bad)
					return
				}
				if where != 0 && where != 3 && where != 4 {
					break
				}
			}
		}
	}
}
