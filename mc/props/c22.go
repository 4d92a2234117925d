package props

import (
	"fmt"
	"reflect"
	"slices"
	"strconv"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// goT is a parsed Go type description of the API.
type goT struct {
	basic  string // "" otherwise
	named  string
	enum   []string // constant names, in a type with constants
	elem   *goT
	n      int // length of an array, -1 for a slice
	fields []goField
}

type goField struct {
	name string
	t    *goT
}

var basicGo = map[string]reflect.Kind{"int8": reflect.Int8, "int16": reflect.Int16, "int32": reflect.Int32, "int64": reflect.Int64,
	"uint8": reflect.Uint8, "uint16": reflect.Uint16, "uint32": reflect.Uint32, "uint64": reflect.Uint64,
	"float32": reflect.Float32, "float64": reflect.Float64, "string": reflect.String}

// cdlNames has the CDL name of each basic type.
var cdlNames = map[string]string{"int8": "byte", "int16": "short", "int32": "int", "int64": "int64", "uint8": "ubyte", "uint16": "ushort",
	"uint32": "uint", "uint64": "uint64", "float32": "float", "float64": "double", "string": "string"}

// parseGo parses a type at the start of s and returns what follows it.
func parseGo(s string) (t *goT, rest string, err error) {
	s = strings.TrimLeft(s, " \t\n")
	switch {
	case strings.HasPrefix(s, "[]"):
		el, rest, err := parseGo(s[2:])
		return &goT{elem: el, n: -1}, rest, err
	case strings.HasPrefix(s, "["):
		i := strings.IndexByte(s, ']')
		if i < 0 {
			return nil, s, fmt.Errorf("no ] in %q", s)
		}
		n, err := strconv.Atoi(s[1:i])
		if err != nil {
			return nil, s, err
		}
		el, rest, err := parseGo(s[i+1:])
		return &goT{elem: el, n: n}, rest, err
	case strings.HasPrefix(s, "struct {"):
		t = &goT{fields: []goField{}}
		s = s[len("struct {"):]
		for {
			s = strings.TrimLeft(s, " \t\n")
			if strings.HasPrefix(s, "}") {
				return t, s[1:], nil
			}
			i := strings.IndexByte(s, ' ')
			if i < 0 {
				return nil, s, fmt.Errorf("no field in %q", s)
			}
			ft, rest, err := parseGo(s[i+1:])
			if err != nil {
				return nil, s, err
			}
			t.fields = append(t.fields, goField{s[:i], ft})
			s = rest
		}
	}
	i := 0
	for i < len(s) && !strings.ContainsRune(" \t\n", rune(s[i])) {
		i++
	}
	if i == 0 {
		return nil, s, fmt.Errorf("no type in %q", s)
	}
	t, rest = &goT{named: s[:i]}, s[i:]
	if _, has := basicGo[s[:i]]; has {
		t = &goT{basic: s[:i]}
	}
	if strings.HasPrefix(strings.TrimLeft(rest, "\n"), "const (") {
		j := strings.Index(rest, "\n)")
		if j < 0 {
			return nil, s, fmt.Errorf("constants in %q", s)
		}
		lines := strings.Split(strings.TrimLeft(rest[:j], "\n"), "\n")
		for _, l := range lines[1:] {
			t.enum = append(t.enum, strings.Fields(l)[0])
		}
		rest = rest[j+2:]
	}
	return t, rest, nil
}

// fits checks a value of a shape against a type; lookup resolves named types.
func (t *goT) fits(v reflect.Value, lookup func(string) (*goT, error)) error {
	if v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return fmt.Errorf("nil")
	}
	if v.Kind() == reflect.Struct && v.Type().Name() == "enumerated" {
		v = v.FieldByName("values")
		if v.Kind() == reflect.Interface {
			v = v.Elem()
		}
	}
	switch {
	case t.named != "":
		n, err := lookup(t.named)
		if err != nil {
			return err
		}
		return n.fits(v, lookup)
	case t.basic != "":
		if v.Kind() != basicGo[t.basic] {
			return fmt.Errorf("a %s where the type is %s", v.Type(), t.basic)
		}
		return nil
	case t.elem != nil:
		if v.Kind() != reflect.Slice && v.Kind() != reflect.Array {
			return fmt.Errorf("a %s where the type is a list", v.Type())
		}
		if t.n >= 0 && v.Len() != t.n {
			return fmt.Errorf("%d elements where the type has %d", v.Len(), t.n)
		}
		for i := range v.Len() {
			if err := t.elem.fits(v.Index(i), lookup); err != nil {
				return err
			}
		}
		return nil
	}
	if v.Kind() != reflect.Slice || v.Type().Name() != "compound" {
		return fmt.Errorf("a %s where the type is a structure", v.Type())
	}
	if v.Len() != len(t.fields) {
		return fmt.Errorf("%d fields where the type has %d", v.Len(), len(t.fields))
	}
	for i, f := range t.fields {
		if n := v.Index(i).FieldByName("Name").String(); n != f.name {
			return fmt.Errorf("field %q where the type has %q", n, f.name)
		}
		if err := f.t.fits(v.Index(i).FieldByName("Val"), lookup); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
	}
	return nil
}

// shaped checks the nesting of lists, and then the elements.
func shaped(v reflect.Value, shape []int64, elem func(reflect.Value) error) error {
	if v.IsValid() && v.Kind() == reflect.Struct && v.Type().Name() == "enumerated" {
		v = v.FieldByName("values").Elem()
	}
	if len(shape) == 0 {
		return elem(v)
	}
	if !v.IsValid() || v.Kind() != reflect.Slice || int64(v.Len()) != shape[0] {
		if !v.IsValid() || v.Kind() != reflect.Slice {
			return fmt.Errorf("no list where the shape has %v", shape)
		}
		return fmt.Errorf("%d elements where the shape has %v", v.Len(), shape)
	}
	for i := range v.Len() {
		if err := shaped(v.Index(i), shape[1:], elem); err != nil {
			return err
		}
	}
	return nil
}

// c22view checks a group and everything below it. up are the groups above it.
type c22view struct {
	c     *fw.Ctx
	unlim map[string]bool // dimensions whose variables may differ in length
}

func (x c22view) group(g api.Group, up []api.Group, path string) (bad string) {
	p := obs.Safe(func() { bad = x.check(g, up, path) })
	if p != "" {
		return path + ": " + p
	}
	return bad
}

func unique(names []string) bool {
	s := sortedCopy(names)
	return len(slices.Compact(s)) == len(names)
}

func (x c22view) check(g api.Group, up []api.Group, path string) string {
	c := x.c
	chain := append(append([]api.Group{}, up...), g)
	calls := 0
	defer func() { c.Trans(calls) }()
	lookup := func(name string) (*goT, error) {
		calls++
		s, has := g.GetGoType(name)
		if !has {
			return nil, fmt.Errorf("type %q has no description", name)
		}
		s, ok := strings.CutPrefix(s, "type "+name+" ")
		if !ok {
			return nil, fmt.Errorf("type %q is described as %q", name, s)
		}
		t, rest, err := parseGo(s)
		if err == nil && strings.TrimSpace(rest) != "" {
			err = fmt.Errorf("type %q is described as %q", name, s)
		}
		return t, err
	}
	if bad := x.attrs(path+" attributes", g.Attributes(), lookup, &calls); bad != "" {
		return bad
	}
	// dimensions
	calls += 4
	dims, types, vars, subs := g.ListDimensions(), g.ListTypes(), g.ListVariables(), g.ListSubgroups()
	if !unique(dims) || !unique(types) || !unique(vars) || !unique(subs) {
		return fmt.Sprintf("%s: listed twice: dimensions %q types %q variables %q subgroups %q", path, dims, types, vars, subs)
	}
	for _, d := range dims {
		calls++
		if _, has := g.GetDimension(d); !has {
			return fmt.Sprintf("%s: the dimension %q is listed but can't be looked up", path, d)
		}
	}
	for _, s := range subs {
		calls++
		sg, err := g.GetGroup(s)
		if err != nil || sg == nil {
			return fmt.Sprintf("%s: the group %q is listed but can't be opened: %v", path, s, err)
		}
		bad := x.group(sg, chain, path+s+"/")
		sg.Close()
		if bad != "" {
			return bad
		}
	}
	for _, t := range types {
		calls += 2
		cdl, has := g.GetType(t)
		gt, err := lookup(t)
		if !has || cdl == "" || err != nil || gt == nil {
			return fmt.Sprintf("%s: the type %q is listed but described as %q,%v, in Go: %v", path, t, cdl, has, err)
		}
	}
	// what isn't listed can't be looked up
	for _, n := range append([]string{"nosuchname", ""}, slices.Concat(dims, types, vars, subs)...) {
		calls += 5
		if _, has := g.GetDimension(n); has != slices.Contains(dims, n) {
			return fmt.Sprintf("%s: GetDimension(%q) is %v, but the list is %q", path, n, has, dims)
		}
		if _, has := g.GetType(n); has != slices.Contains(types, n) {
			return fmt.Sprintf("%s: GetType(%q) is %v, but the list is %q", path, n, has, types)
		}
		if _, has := g.GetGoType(n); has != slices.Contains(types, n) {
			return fmt.Sprintf("%s: GetGoType(%q) is %v, but the list is %q", path, n, has, types)
		}
		v, err := g.GetVariable(n)
		if (err == nil) != slices.Contains(vars, n) || (err == nil) != (v != nil) {
			return fmt.Sprintf("%s: GetVariable(%q) gives %v, %v, but the list is %q", path, n, v != nil, err, vars)
		}
		vg, err := g.GetVarGetter(n)
		if (err == nil) != slices.Contains(vars, n) || (err == nil) != (vg != nil) {
			return fmt.Sprintf("%s: GetVarGetter(%q) gives %v, %v, but the list is %q", path, n, vg != nil, err, vars)
		}
	}
	for _, n := range vars {
		c.State(1)
		if bad := x.variable(g, chain, n, lookup, &calls); bad != "" {
			return fmt.Sprintf("%s%s: %s", path, n, bad)
		}
	}
	return ""
}

func (x c22view) variable(g api.Group, chain []api.Group, n string, lookup func(string) (*goT, error), calls *int) string {
	*calls += 11
	v, err := g.GetVariable(n)
	if err != nil {
		return err.Error()
	}
	vg, err := g.GetVarGetter(n)
	if err != nil {
		return err.Error()
	}
	shape := vg.Shape()
	length := int64(1)
	if len(shape) > 0 {
		length = shape[0]
	}
	if vg.Len() != length {
		return fmt.Sprintf("length %d, shape %v", vg.Len(), shape)
	}
	if !slices.Equal(v.Dimensions, vg.Dimensions()) {
		return fmt.Sprintf("dimensions %q and %q", v.Dimensions, vg.Dimensions())
	}
	// attributes
	if bad := x.attrs("attributes", v.Attributes, lookup, calls); bad != "" {
		return bad
	}
	if a, b := obs.Attrs(v.Attributes, true), obs.Attrs(vg.Attributes(), true); a != b {
		return fmt.Sprintf("attributes {%s} and {%s}", a, b)
	}
	// values
	val := obs.Render(v.Values)
	v2, err := vg.Values()
	if s := obs.Render(v2); err != nil || s != val {
		return fmt.Sprintf("value %s and %s, %v", clip(val), clip(s), err)
	}
	v3, err := vg.GetSlice(0, vg.Len())
	if s := obs.Render(v3); err != nil || s != val {
		return fmt.Sprintf("value %s and as a slice %s, %v", clip(val), clip(s), err)
	}
	v4, err := vg.GetSliceMD(make([]int64, len(shape)), slices.Clone(shape))
	if s := obs.Render(v4); err != nil || s != val {
		return fmt.Sprintf("value %s and as a slice of all dimensions %s, %v", clip(val), clip(s), err)
	}
	// type
	gt, rest, err := parseGo(vg.GoType())
	if err != nil || strings.TrimSpace(rest) != "" {
		return fmt.Sprintf("Go type %q: %v", vg.GoType(), err)
	}
	want := cdlNames[gt.basic]
	text := gt.basic == "string" && vg.Type() == "char" // of a CDF file
	if text {
		want = "char"
	}
	textArray := gt.basic == "string" && strings.HasPrefix(vg.Type(), "char(")
	if gt.basic != "" && gt.enum == nil && vg.Type() != want && !textArray {
		return fmt.Sprintf("Go type %q and CDL type %q", vg.GoType(), vg.Type())
	}
	if gt.named != "" && vg.Type() != gt.named {
		return fmt.Sprintf("Go type %q and CDL type %q", vg.GoType(), vg.Type())
	}
	nested := shape
	if text && len(shape) > 0 {
		nested = shape[:len(shape)-1]
	}
	if err := shaped(reflect.ValueOf(v.Values), nested, func(e reflect.Value) error {
		if err := gt.fits(e, lookup); err != nil {
			return err
		}
		if text && len(shape) > 0 && int64(e.Len()) > shape[len(shape)-1] {
			return fmt.Errorf("text %q longer than %d", e, shape[len(shape)-1])
		}
		return nil
	}); err != nil {
		return fmt.Sprintf("shape %v type %q value %s: %v", shape, vg.GoType(), clip(val), err)
	}
	// dimensions
	ds := v.Dimensions
	if len(ds) != 0 && len(ds) != len(shape) {
		return fmt.Sprintf("dimensions %q, shape %v", ds, shape)
	}
	for i, d := range ds {
		if d == "" {
			continue
		}
		found := false
		for j := len(chain) - 1; j >= 0 && !found; j-- {
			*calls++
			size, has := chain[j].GetDimension(d)
			if !has {
				continue
			}
			found = true
			if int64(size) != shape[i] && size != 0 && !x.unlim[d] {
				return fmt.Sprintf("dimensions %q, shape %v, but %q has the size %d", ds, shape, d, size)
			}
		}
		if !found {
			return fmt.Sprintf("dimensions %q, but %q can't be looked up", ds, d)
		}
	}
	return ""
}

// attrs checks an attribute map.
func (x c22view) attrs(what string, am api.AttributeMap, lookup func(string) (*goT, error), calls *int) string {
	if am == nil {
		return what + ": none"
	}
	keys := am.Keys()
	*calls++
	if !unique(keys) {
		return fmt.Sprintf("%s: keys %q", what, keys)
	}
	for _, k := range append([]string{"nosuchname", ""}, keys...) {
		*calls += 3
		listed := slices.Contains(keys, k)
		v, has := am.Get(k)
		cdl, has1 := am.GetType(k)
		gs, has2 := am.GetGoType(k)
		if has != listed || has1 != listed || has2 != listed {
			return fmt.Sprintf("%s: keys %q, but for %q value, CDL type and Go type are there: %v %v %v", what, keys, k, has, has1, has2)
		}
		if !listed {
			continue
		}
		if v == nil {
			return fmt.Sprintf("%s: %q is nil", what, k)
		}
		gt, rest, err := parseGo(gs)
		if err != nil || strings.TrimSpace(rest) != "" {
			return fmt.Sprintf("%s: %q has the Go type %q: %v", what, k, gs, err)
		}
		err = gt.fits(reflect.ValueOf(v), lookup)
		if err != nil {
			return fmt.Sprintf("%s: %q has the Go type %q and the value %s: %v", what, k, gs, clip(obs.Render(v)), err)
		}
		// the CDL type
		rank := 0
		for gt.elem != nil {
			gt = gt.elem
			rank++
		}
		if gt.basic != "" && gt.enum == nil {
			base, dims, _ := strings.Cut(cdl, "(")
			// "(*)(*)" and "(2,3)" are both used
			r := 0
			if dims != "" {
				r = strings.Count(strings.ReplaceAll(dims, ")(", ","), ",") + 1
			}
			opaque := base == "opaque" && gt.basic == "uint8"
			text := base == "char" && gt.basic == "string"
			if !opaque && !text && (base != cdlNames[gt.basic] || r != rank) {
				return fmt.Sprintf("%s: %q has the Go type %q and the CDL type %q", what, k, gs, cdl)
			}
		}
	}
	return ""
}

// checkViews opens a file and checks all views of it.
func checkViews(c *fw.Ctx, open func() (api.Group, error), unlim map[string]bool) {
	var g api.Group
	var err error
	if p := obs.Safe(func() { g, err = open() }); p != "" || err != nil {
		c.Failf("open: %v %s", err, p)
		return
	}
	c.Trace(1)
	if bad := (c22view{c, unlim}).group(g, nil, "/"); bad != "" {
		c.Failf("%s", bad)
	}
	g.Close()
}

// ncDims compares the dimension names with those the file was made with.
func ncDims(c *fw.Ctx, g api.Group, m *h5gen.NCGroup, path string) {
	for _, v := range m.Vars {
		c.Trans(1)
		if got, err := g.GetVariable(v.Name); err != nil || !slices.Equal(got.Dimensions, v.Dims) {
			c.Failf("%s%s: dimensions %q want %q, %v", path, v.Name, got.Dimensions, v.Dims, err)
		}
	}
	for _, d := range m.Dims {
		c.Trans(1)
		if n, has := g.GetDimension(d.Name); !has || int(n) != d.Len && !(d.Unlim && n == 0) {
			c.Failf("%s: dimension %q: %d,%v want %d", path, d.Name, n, has, d.Len)
		}
	}
	for _, s := range m.Groups {
		sg, err := g.GetGroup(s.Name)
		if err != nil {
			c.Failf("%s: %v", s.Name, err)
			return
		}
		ncDims(c, sg, s, path+s.Name+"/")
		sg.Close()
	}
}

// c22NC is a family of files of the netCDF library, with dimensions shared in many ways.
func c22NC(thorough bool, y func(desc func() string, f *h5gen.NC, unlim map[string]bool)) {
	i2, f8 := family.HInt(2, false, false), family.HFloat(8, false)
	types := []*h5gen.Type{i2, f8, family.HStr(1, 0), family.HVStr(false)}
	if !thorough {
		types = types[:3]
	}
	// variables over the dimensions x, y (of the group above) and the unlimited t: every
	// list of up to two dimensions, under every name that clashes or not
	all := []string{"x", "y", "t"}
	lens := map[string]int{"x": 2, "y": 3, "t": 2}
	var lists [][]string
	lists = append(lists, nil)
	for _, a := range all {
		lists = append(lists, []string{a})
		for _, b := range all {
			lists = append(lists, []string{a, b})
		}
	}
	mkVar := func(name string, t *h5gen.Type, dims []string, salt int) *h5gen.NCVar {
		v := &h5gen.NCVar{Name: name, T: t, Dims: dims, All: true, Salt: salt, Attrs: []h5gen.Attr{{Name: "a", T: i2, Shape: []int{2}}}}
		for _, d := range dims {
			v.Shape = append(v.Shape, lens[d])
		}
		return v
	}
	// levels says in which group the dimensions and each variable are
	for _, tl := range []bool{false, true} {
		for _, names := range [][]string{{"v"}, {"x"}, {"t"}, {"v", "x"}, {"x", "v"}, {"x", "y"}, {"y", "x"}, {"t", "v"}, {"v", "t"}} {
			for _, l1 := range lists {
				for i2x, l2 := range lists {
					if len(names) == 1 && i2x > 0 {
						continue
					}
					for nested := range 4 {
						for ti, t := range types {
							if ti > 0 && (len(names) == 2 || nested > 0) && !thorough {
								continue
							}
							dims := []h5gen.NCDim{{Name: "x", Len: 2}, {Name: "y", Len: 3}, {Name: "t", Len: 2, Unlim: tl}}
							root := &h5gen.NCGroup{Dims: dims}
							where := root
							if nested > 0 {
								sub := &h5gen.NCGroup{Name: "g"}
								root.Groups = []*h5gen.NCGroup{sub}
								where = sub
								sub.Dims = []h5gen.NCDim{{Name: "z", Len: 5}}
								if nested == 3 { // hides the dimension of the group above
									sub.Dims = []h5gen.NCDim{{Name: "x", Len: 4}}
								}
							}
							lens["x"] = 2
							if nested == 3 {
								lens["x"] = 4
							}
							v1 := mkVar(names[0], t, l1, 1)
							where.Vars = append(where.Vars, v1)
							if len(names) == 2 {
								v2 := mkVar(names[1], i2, l2, 2)
								if nested == 2 {
									root.Vars = append(root.Vars, v2)
								} else {
									where.Vars = append(where.Vars, v2)
								}
							} else if nested == 2 {
								continue
							}
							f := &h5gen.NC{Root: root}
							y(f.String, f, nil)
						}
					}
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C22", Level: "model_checking",
		Rule: "for every file of the enumerated families, in every group: names are listed once, a name can be looked up exactly if it is listed, and for every variable all the calls are made " +
			"(GetVariable, GetVarGetter, Len, Shape, Type, GoType, Dimensions, Attributes, Values, GetSlice and GetSliceMD of everything) and for every attribute Get, GetType and GetGoType; " +
			"what they return is checked against each other: the same values, dimensions and attributes, values nested as the shape says with elements of the described Go type (which is parsed, named types being looked up), " +
			"the CDL type that of the Go type, every dimension found in the group or one above with the size the shape says",
		Bounds: func(tier string) string {
			s := "the corpus; the classic files, HDF5 types, attributes, chunked files and fill values, and writer programs of the quick families of C01, C03, C04, C06, C07, C19; netCDF-4 files with up to 2 variables over the dimensions x, y, t (fixed or unlimited) in the same or a nested group, with names that clash with dimensions; all lists of up to 3 user-defined types out of 11 kinds, alike and made of each other, and lists of up to 25"
			if tier == "thorough" {
				s = strings.ReplaceAll(s, "quick families", "thorough families") + ", all pairs of dimension lists and 4 types, lists of up to 4 user-defined types"
			}
			return s
		},
		Assumptions: []string{"an unlimited dimension may report the size 0", "a list of one attribute value reads as the value", "the CDL type of user-defined types is only required to name the same type"},
		Enumerate: func(tier string, emit fw.Yield) {
			thorough := tier == "thorough"
			for _, s := range family.Corpus() {
				emit(func() string { return "corpus " + s.Name }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					checkViews(c, func() (api.Group, error) { return netcdf.New(family.NewMem(b)) }, map[string]bool{"t": true})
				})
			}
			family.CDFFiles(thorough, func(desc string, mk func() (*cdfspec.File, cdfspec.Options)) {
				emit(func() string { return "cdf " + desc }, func(c *fw.Ctx) {
					f, o := mk()
					b := cdfspec.Encode(f, o)
					checkViews(c, func() (api.Group, error) { return netcdf.New(family.NewMem(b)) }, nil)
				})
			})
			h5 := func(pre string) family.YieldH5 {
				return func(desc string, mk func() *h5gen.File) {
					emit(func() string { return pre + desc }, func(c *fw.Ctx) {
						b, err := h5gen.Bytes(c.Dir, mk())
						if err != nil {
							panic("CHECK BROKEN: " + err.Error())
						}
						checkViews(c, func() (api.Group, error) { return netcdf.New(family.NewMem(b)) }, nil)
					})
				}
			}
			family.H5Types(thorough, h5("types "))
			family.H5Attrs(thorough, h5("attrs "))
			family.H5Fills(thorough, func(desc string, mk func() *h5gen.File) {
				if !strings.Contains(desc, "fill=undef") { // the values are unspecified
					h5("fills ")(desc, mk)
				}
			})
			i := 0
			family.H5Chunks(thorough, func(desc string, mk func() *h5gen.File) {
				if i++; thorough || i%7 == 0 {
					h5("chunks ")(desc, mk)
				}
			})
			family.H5Programs(thorough, func(must bool, desc func() string, mk func() *model.Group) {
				emit(func() string { return "hdf5 program " + desc() }, func(c *fw.Ctx) {
					path, ok := writeH5(c, must, mk())
					if !ok {
						return
					}
					checkViews(c, func() (api.Group, error) { return netcdf.Open(path) }, nil)
				})
			})
			family.CDFPrograms(thorough, func(desc func() string, mk func() *model.Group) {
				emit(func() string { return "cdf program " + desc() }, func(c *fw.Ctx) {
					path, ok := writeTo(c, netcdf.KindCDF, mk())
					if !ok {
						return
					}
					checkViews(c, func() (api.Group, error) { return netcdf.Open(path) }, nil)
				})
			})
			c22types(thorough, emit)
			c22NC(thorough, func(desc func() string, f *h5gen.NC, unlim map[string]bool) {
				emit(desc, func(c *fw.Ctx) {
					b, err := h5gen.NCBytes(c.Dir, f)
					if err != nil {
						panic("CHECK BROKEN: " + err.Error())
					}
					checkViews(c, func() (api.Group, error) { return netcdf.New(family.NewMem(b)) }, unlim)
					if c.Failed() {
						return
					}
					g, err := netcdf.New(family.NewMem(b))
					if err != nil {
						c.Failf("open: %v", err)
						return
					}
					defer g.Close()
					ncDims(c, g, f.Root, "/")
				})
			})
		},
	})
}
