package props

import (
	"fmt"
	"reflect"
	"slices"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// omState is the model of an ordered map.
type omState struct {
	order  []string // visible and hidden keys in insertion order, without those added while hidden
	vals   map[string]any
	hidden map[string]bool
}

func (m *omState) add(k string, v any) {
	if _, has := m.vals[k]; !has && !m.hidden[k] {
		m.order = append(m.order, k)
	}
	m.vals[k] = v
}

func (m *omState) keys() []string {
	r := []string{}
	for _, k := range m.order {
		if !m.hidden[k] {
			r = append(r, k)
		}
	}
	return r
}

// omOp is one operation on the real map (with its caller's arguments) and the model.
type omOp struct {
	name string
	do   func(x *omRun)
}

type omRun struct {
	om     *util.OrderedMap
	m      *omState
	keys   []string       // the caller's slice
	values map[string]any // the caller's map
	got    []string       // an earlier answer of Keys
}

func omOps() (ops []omOp) {
	for _, k := range []string{"a", "b", "c"} {
		for _, v := range []any{int32(1), "two"} {
			ops = append(ops, omOp{fmt.Sprintf("Add(%s,%v)", k, v), func(x *omRun) { x.om.Add(k, v); x.m.add(k, v) }})
		}
		ops = append(ops, omOp{"Hide(" + k + ")", func(x *omRun) { x.om.Hide(k); x.m.hidden[k] = true }})
	}
	return append(ops,
		omOp{"caller overwrites its keys", func(x *omRun) {
			for i := range x.keys {
				x.keys[i] = "zz"
			}
		}},
		omOp{"caller appends to its keys", func(x *omRun) { x.keys = append(x.keys, "yy") }},
		omOp{"caller changes its values", func(x *omRun) {
			for k := range x.values {
				x.values[k] = float64(9)
			}
			if x.values != nil {
				x.values["new"] = 1
			}
		}},
		omOp{"caller empties its values", func(x *omRun) { clear(x.values) }},
		omOp{"caller overwrites the answer of Keys", func(x *omRun) {
			for i := range x.got {
				x.got[i] = "xx"
			}
		}},
		omOp{"caller appends to the answer of Keys", func(x *omRun) { x.got = append(x.got, "ww") }},
	)
}

func omCheck(x *omRun) string {
	want := x.m.keys()
	for range 2 {
		if got := x.om.Keys(); !slices.Equal(got, want) {
			return fmt.Sprintf("Keys() = %q, want %q", got, want)
		}
	}
	for _, k := range []string{"a", "b", "c", "zz", "new", "xx", "yy", "ww"} {
		w, has := x.m.vals[k]
		g, ok := x.om.Get(k)
		if ok != has || !reflect.DeepEqual(g, w) {
			return fmt.Sprintf("Get(%s) = %v, %v, want %v, %v", k, g, ok, w, has)
		}
		cdl, ok1 := x.om.GetType(k)
		gt, ok2 := x.om.GetGoType(k)
		wc, wg := "", ""
		if has {
			wc, wg = map[string]string{"int32": "int", "string": "string", "float64": "double"}[reflect.TypeOf(w).String()], reflect.TypeOf(w).String()
		}
		if ok1 != has || ok2 != has || cdl != wc || gt != wg {
			return fmt.Sprintf("types of %s: %q %v %q %v, want %q %q %v", k, cdl, ok1, gt, ok2, wc, wg, has)
		}
	}
	x.got = x.om.Keys()
	return ""
}

// permutations of every subset of the keys
func keyLists(ks []string) (r [][]string) {
	var rec func(cur []string)
	rec = func(cur []string) {
		r = append(r, slices.Clone(cur))
		for _, k := range ks {
			if !slices.Contains(cur, k) {
				rec(append(slices.Clone(cur), k))
			}
		}
	}
	rec(nil)
	return
}

func omRunSeq(keys []string, ops []omOp, seq []int) string {
	x := &omRun{m: &omState{vals: map[string]any{}, hidden: map[string]bool{}}}
	x.keys = make([]string, len(keys), len(keys)+3) // spare capacity, as from append
	copy(x.keys, keys)
	x.values = map[string]any{}
	for i, k := range keys {
		x.values[k] = int32(100 + i)
		x.m.add(k, int32(100+i))
	}
	var err error
	x.om, err = util.NewOrderedMap(x.keys, x.values)
	if err != nil {
		return fmt.Sprintf("NewOrderedMap(%q): %v", keys, err)
	}
	var names []string
	if bad := omCheck(x); bad != "" {
		return bad
	}
	for _, i := range seq {
		names = append(names, ops[i].name)
		ops[i].do(x)
		if bad := omCheck(x); bad != "" {
			return fmt.Sprintf("NewOrderedMap(%q), then %s: %s", keys, strings.Join(names, "; "), bad)
		}
	}
	return ""
}

// cdlOf and goOf describe a value; slices give their length, or * for none.
func cdlOf(v reflect.Value) string {
	if k := v.Kind(); k == reflect.Slice || k == reflect.Array {
		dims := ""
		for v.Kind() == reflect.Slice || v.Kind() == reflect.Array {
			d := fmt.Sprint(v.Len())
			if v.Len() == 0 && v.Kind() == reflect.Slice {
				d = "*"
			}
			dims += "," + d
			if v.Len() == 0 {
				v = reflect.Zero(v.Type().Elem())
			} else {
				v = v.Index(0)
			}
		}
		return cdlOf(v) + "(" + dims[1:] + ")"
	}
	if v.Kind() == reflect.Struct {
		s := "compound {"
		for i := range v.NumField() {
			s += " " + cdlOf(v.Field(i)) + " " + v.Type().Field(i).Name + ";"
		}
		return s + " }"
	}
	n := v.Kind().String()
	if c, ok := map[string]string{"int8": "byte", "uint8": "ubyte", "int16": "short", "uint16": "ushort", "int32": "int", "uint32": "uint", "float32": "float", "float64": "double"}[n]; ok {
		return c
	}
	return n
}

func goOf(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Slice:
		return "[]" + goOf(t.Elem())
	case reflect.Array:
		return fmt.Sprintf("[%d]%s", t.Len(), goOf(t.Elem()))
	case reflect.Struct:
		var f []string
		for i := range t.NumField() {
			f = append(f, t.Field(i).Name+" "+goOf(t.Field(i).Type))
		}
		return "struct { " + strings.Join(f, "; ") + " }"
	}
	return t.Kind().String()
}

// omValues calls f with values of every type up to a nesting depth.
func omValues(depth int, f func(v reflect.Value)) {
	base := []reflect.Type{}
	for _, x := range []any{int8(0), uint8(0), int16(0), uint16(0), int32(0), uint32(0), int64(0), uint64(0), float32(0), float64(0), ""} {
		base = append(base, reflect.TypeOf(x))
	}
	var types func(d int) []reflect.Type
	types = func(d int) []reflect.Type {
		if d == 0 {
			return base
		}
		r := append([]reflect.Type{}, base...)
		for _, t := range types(d - 1) {
			r = append(r, reflect.SliceOf(t), reflect.ArrayOf(2, t))
			if d == depth {
				r = append(r, reflect.ArrayOf(3, t), reflect.ArrayOf(0, t))
			}
			if t.Kind() != reflect.Struct {
				r = append(r, reflect.StructOf([]reflect.StructField{{Name: "A", Type: t}, {Name: "B", Type: base[len(r)%len(base)]}}))
			}
		}
		return r
	}
	var fill func(t reflect.Type, n int) reflect.Value
	fill = func(t reflect.Type, n int) reflect.Value {
		v := reflect.New(t).Elem()
		switch t.Kind() {
		case reflect.Slice:
			v = reflect.MakeSlice(t, n, n)
			fallthrough
		case reflect.Array:
			for i := range v.Len() {
				v.Index(i).Set(fill(t.Elem(), n))
			}
		case reflect.Struct:
			for i := range v.NumField() {
				v.Field(i).Set(fill(v.Type().Field(i).Type, n))
			}
		}
		return v
	}
	type in struct {
		x uint16
		Y []float32
	}
	for _, x := range []any{struct{ a int8 }{1}, in{3, nil}, struct {
		p []int16
		Q string
		r in
	}{}, []in{}, []in{{1, []float32{}}}, struct{ A, b [2]in }{}, struct{ s struct{ t struct{ u uint8 } } }{}, [][0]in{}} {
		f(reflect.ValueOf(x))
	}
	for _, t := range types(depth) {
		for n := range 4 {
			if n > 0 && !strings.Contains(t.String(), "[]") {
				break
			}
			f(fill(t, n))
		}
	}
}

var _ api.AttributeMap = (*util.OrderedMap)(nil)

func init() {
	fw.Register(&fw.Prop{
		ID:    "C20",
		Level: "model_checking",
		Rule: "one case per (initial key list, first operation); a case runs every sequence of operations of the bounded length on a real attribute map, including changes the caller makes to its own arguments " +
			"and to earlier answers, and after each operation compares keys, values and type names (asked twice) with a model map. Further cases: every pair of key list and value map over three keys for construction, and every value type up to a nesting depth for type names.",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "16 initial key lists over {a,b,c}; 15 operations; all sequences up to length 5; value types of nesting depth 3, arrays of no elements and structs with unexported fields among them"
			}
			return "16 initial key lists over {a,b,c}; 15 operations; all sequences up to length 4; value types of nesting depth 2, arrays of no elements and structs with unexported fields among them"
		},
		Assumptions: []string{"a key that is added again keeps its place and gets the new value; a key added while hidden is retrievable but not listed"},
		Enumerate: func(tier string, y fw.Yield) {
			depth, tdepth := 4, 2
			if tier == "thorough" {
				depth, tdepth = 5, 3
			}
			ops := omOps()
			lists := keyLists([]string{"a", "b", "c"})
			for _, ks := range lists {
				for first := range ops {
					y(func() string { return fmt.Sprintf("map%q first %s", ks, ops[first].name) }, func(c *fw.Ctx) {
						seq := make([]int, depth)
						seq[0] = first
						var rec func(i int) bool
						rec = func(i int) bool {
							if i == depth {
								c.State(1)
								c.Trans(depth)
								c.Trace(1)
								bad := ""
								if p := obs.Safe(func() { bad = omRunSeq(ks, ops, seq) }); p != "" {
									bad = "panic: " + p
								}
								if bad != "" {
									c.Failf("%s", bad)
									return false
								}
								return true
							}
							for o := range ops {
								seq[i] = o
								if !rec(i + 1) {
									return false
								}
							}
							return true
						}
						rec(1)
						c.Outcome(fmt.Sprint(ks, first))
					})
				}
			}
			// construction
			var kl [][]string
			var rec func(cur []string)
			rec = func(cur []string) {
				kl = append(kl, slices.Clone(cur))
				if len(cur) == 3 {
					return
				}
				for _, k := range []string{"a", "b", "c"} {
					rec(append(slices.Clone(cur), k))
				}
			}
			rec(nil)
			for _, ks := range kl {
				for mask := range 8 {
					y(func() string { return fmt.Sprintf("NewOrderedMap(%q, keys %03b)", ks, mask) }, func(c *fw.Ctx) {
						vals := map[string]any{}
						for i, k := range []string{"a", "b", "c"} {
							if mask>>i&1 == 1 {
								vals[k] = i
							}
						}
						match := len(ks) == len(vals)
						for _, k := range ks {
							_, has := vals[k]
							match = match && has
						}
						seen := map[string]bool{}
						for _, k := range ks {
							match = match && !seen[k]
							seen[k] = true
						}
						c.Trans(1)
						c.State(1)
						om, err := util.NewOrderedMap(ks, vals)
						if (err == nil) != match {
							c.Failf("NewOrderedMap(%q, %v): error %v, keys match: %v", ks, vals, err, match)
							return
						}
						if err == nil && !slices.Equal(om.Keys(), ks) && len(ks) > 0 {
							c.Failf("keys %q, want %q", om.Keys(), ks)
						}
						if err != nil && om != nil {
							c.Failf("a map and an error")
						}
					})
				}
			}
			omValues(tdepth, func(v reflect.Value) {
				y(func() string { return "type of " + obs.Render(v.Interface()) }, func(c *fw.Ctx) {
					om, err := util.NewOrderedMap([]string{"k"}, map[string]any{"k": v.Interface()})
					if err != nil {
						c.Failf("%v", err)
						return
					}
					c.Trans(2)
					c.State(1)
					cdl, ok1 := om.GetType("k")
					gt, ok2 := om.GetGoType("k")
					wc, wg := cdlOf(v), goOf(v.Type())
					c.Outcome(wc)
					if !ok1 || !ok2 || cdl != wc || gt != wg {
						c.Failf("types %q %v %q %v, want %q and %q", cdl, ok1, gt, ok2, wc, wg)
					}
				})
			})
		},
	})
}
