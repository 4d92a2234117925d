// Package model holds the boring reference description of a file's content and
// the construction of values for it.
package model

import (
	"fmt"
	"math"
	"reflect"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/util"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// Attr is one attribute as given to a writer.
type Attr struct {
	Name string
	Val  any
}

// Var is one variable as given to a writer.
type Var struct {
	Name  string
	Vals  any
	Dims  []string // nil: none given
	Attrs []Attr
}

// Group is a group's content.
type Group struct {
	Name   string
	Attrs  []Attr
	Vars   []Var
	Groups []*Group
}

// AttrMap builds the API's attribute map.
func AttrMap(as []Attr) api.AttributeMap {
	keys := []string{}
	vals := map[string]any{}
	for _, a := range as {
		keys = append(keys, a.Name)
		vals[a.Name] = a.Val
	}
	om, err := util.NewOrderedMap(keys, vals)
	if err != nil {
		panic(err)
	}
	return om
}

// APIVar is the variable as passed to AddVar.
func (v Var) APIVar() api.Variable {
	r := api.Variable{Values: v.Vals}
	if v.Dims != nil {
		r.Dimensions = append([]string(nil), v.Dims...)
	}
	if v.Attrs != nil {
		r.Attributes = AttrMap(v.Attrs)
	}
	return r
}

// String describes the content compactly.
func (g *Group) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "{")
	if len(g.Attrs) > 0 {
		fmt.Fprintf(&b, "attrs=%s ", AttrsString(g.Attrs))
	}
	for _, v := range g.Vars {
		fmt.Fprintf(&b, "%s; ", v.String())
	}
	for _, s := range g.Groups {
		fmt.Fprintf(&b, "group %q %s ", s.Name, s.String())
	}
	b.WriteString("}")
	return b.String()
}

func (v Var) String() string {
	s := fmt.Sprintf("%s(%s)", v.Name, strings.Join(v.Dims, ","))
	if v.Dims == nil {
		s = v.Name + "()"
	}
	s += "=" + Short(v.Vals)
	if len(v.Attrs) > 0 {
		s += " " + AttrsString(v.Attrs)
	}
	return s
}

func AttrsString(as []Attr) string {
	var p []string
	for _, a := range as {
		p = append(p, a.Name+"="+Short(a.Val))
	}
	return "[" + strings.Join(p, " ") + "]"
}

// Short renders a value, abbreviated when long.
func Short(v any) string {
	s := obs.Render(v)
	if len(s) > 120 {
		s = s[:60] + "..." + fmt.Sprintf("(%d chars)", len(s))
	}
	return s
}

// NumTypes are the numeric element types in a fixed order.
var NumTypes = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0)),
	reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)),
}

// StringType is the string type.
var StringType = reflect.TypeOf("")

// AllTypes are the numeric types and string.
var AllTypes = append(append([]reflect.Type{}, NumTypes...), StringType)

// ClassicTypes need no 64-bit-data format.
var ClassicTypes = []reflect.Type{NumTypes[0], NumTypes[2], NumTypes[4], NumTypes[8], NumTypes[9]}

// CDL is the netCDF name of a Go element type.
func CDL(t reflect.Type) string {
	switch t.Kind() {
	case reflect.Int8:
		return "byte"
	case reflect.Uint8:
		return "ubyte"
	case reflect.Int16:
		return "short"
	case reflect.Uint16:
		return "ushort"
	case reflect.Int32:
		return "int"
	case reflect.Uint32:
		return "uint"
	case reflect.Int64:
		return "int64"
	case reflect.Uint64:
		return "uint64"
	case reflect.Float32:
		return "float"
	case reflect.Float64:
		return "double"
	case reflect.String:
		return "char"
	}
	return "?"
}

// Elem makes the i-th distinct element of a type (i counts within a variable,
// salt distinguishes variables). The bytes of every element are distinct from
// its neighbours', so that misplaced data is visible.
func Elem(t reflect.Type, i, salt int) reflect.Value {
	v := reflect.New(t).Elem()
	x := int64(i*7+salt*31) + 1
	switch t.Kind() {
	case reflect.Int8:
		v.SetInt(int64(int8(x*3 - 100)))
	case reflect.Int16:
		v.SetInt(int64(int16(x*259 - 20000)))
	case reflect.Int32:
		v.SetInt(int64(int32(x*16843009 - 2000000000)))
	case reflect.Int64:
		v.SetInt(x*72340172838076673 - 9000000000000000000)
	case reflect.Uint8:
		v.SetUint(uint64(uint8(x*5 + 100)))
	case reflect.Uint16:
		v.SetUint(uint64(uint16(x*263 + 30000)))
	case reflect.Uint32:
		v.SetUint(uint64(uint32(x*16909060 + 3000000000)))
	case reflect.Uint64:
		v.SetUint(uint64(x)*72623859790382856 + 9300000000000000000)
	case reflect.Float32:
		v.SetFloat(float64(float32(x) * 1.2345678e-3))
	case reflect.Float64:
		v.SetFloat(float64(x) * -1.234567890123e10)
	case reflect.String:
		n := 1 + (i+salt)%3
		s := ""
		for k := range n {
			s += string(rune('a' + (int(x)+k*5)%26))
		}
		v.SetString(s)
	}
	return v
}

// Make builds nested slices of the element type with the given shape.
func Make(t reflect.Type, shape []int, salt int) any {
	n := 0
	var build func(shape []int) reflect.Value
	build = func(shape []int) reflect.Value {
		if len(shape) == 0 {
			e := Elem(t, n, salt)
			n++
			return e
		}
		st := t
		for range shape {
			st = reflect.SliceOf(st)
		}
		s := reflect.MakeSlice(st, shape[0], shape[0])
		for i := range shape[0] {
			s.Index(i).Set(build(shape[1:]))
		}
		return s
	}
	return build(shape).Interface()
}

// Extremes are the boundary values of a type.
func Extremes(t reflect.Type) []any {
	switch t.Kind() {
	case reflect.Int8:
		return []any{int8(0), int8(1), int8(-1), int8(127), int8(-128), int8(-127)}
	case reflect.Uint8:
		return []any{uint8(0), uint8(1), uint8(127), uint8(128), uint8(254), uint8(255)}
	case reflect.Int16:
		return []any{int16(0), int16(1), int16(-1), int16(32767), int16(-32768), int16(-32767), int16(256), int16(255)}
	case reflect.Uint16:
		return []any{uint16(0), uint16(1), uint16(255), uint16(256), uint16(32768), uint16(65535), uint16(65534)}
	case reflect.Int32:
		return []any{int32(0), int32(1), int32(-1), int32(math.MaxInt32), int32(math.MinInt32), int32(65536), int32(-2147483647)}
	case reflect.Uint32:
		return []any{uint32(0), uint32(1), uint32(65536), uint32(1 << 31), uint32(math.MaxUint32), uint32(math.MaxUint32 - 1)}
	case reflect.Int64:
		return []any{int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(1) << 32, int64(-9223372036854775806)}
	case reflect.Uint64:
		return []any{uint64(0), uint64(1), uint64(1) << 32, uint64(1) << 63, uint64(math.MaxUint64), uint64(math.MaxUint64 - 1)}
	case reflect.Float32:
		return []any{float32(0), math.Float32frombits(0x80000000), float32(1), float32(math.MaxFloat32), float32(math.SmallestNonzeroFloat32),
			float32(math.Inf(1)), float32(math.Inf(-1)), math.Float32frombits(0x7fc00000), float32(-1.5e-40), math.Float32frombits(0x7cf00000)}
	case reflect.Float64:
		return []any{float64(0), math.Copysign(0, -1), 1.0, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1),
			math.Float64frombits(0x7ff8000000000001), -1.5e-310, math.Float64frombits(0x479e000000000000)}
	case reflect.String:
		return []any{"a", "ab", "abc", "abcd", "abcde", "é", "a b", "\x7f", "naïve 世界"}
	}
	return nil
}

// SliceOf makes a []T of the given values.
func SliceOf(t reflect.Type, vals []any) any {
	s := reflect.MakeSlice(reflect.SliceOf(t), len(vals), len(vals))
	for i, v := range vals {
		s.Index(i).Set(reflect.ValueOf(v))
	}
	return s.Interface()
}

// Shape is the rectangular shape of nested slices (strings are leaves).
func Shape(v any) []int {
	var s []int
	rv := reflect.ValueOf(v)
	for rv.Kind() == reflect.Slice {
		s = append(s, rv.Len())
		if rv.Len() == 0 {
			t := rv.Type().Elem()
			for t.Kind() == reflect.Slice {
				s = append(s, 0)
				t = t.Elem()
			}
			return s
		}
		rv = rv.Index(0)
	}
	return s
}

// ElemType is the leaf type of nested slices.
func ElemType(v any) reflect.Type {
	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Slice {
		t = t.Elem()
	}
	return t
}

// AttrRead is how an attribute value reads back: one-element slices as scalars.
func AttrRead(v any) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice && rv.Type().Name() == "" && rv.Len() == 1 {
		return rv.Index(0).Interface()
	}
	return v
}

// AttrsDump renders attributes the way obs.Attrs does (without types).
func AttrsDump(as []Attr, sorted bool) string {
	var parts []string
	for _, a := range as {
		parts = append(parts, fmt.Sprintf("%q:%v:%s", a.Name, true, obs.Render(AttrRead(a.Val))))
	}
	if sorted {
		sort.Strings(parts)
		return strings.Join(parts, "; ")
	}
	s := ""
	for _, p := range parts {
		s += p + "; "
	}
	return s
}

// PadStrings pads every string leaf with NULs to n bytes (CDF character arrays).
func PadStrings(v any, n int) any {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.String {
		s := rv.String()
		for len(s) < n {
			s += "\x00"
		}
		return s
	}
	out := reflect.MakeSlice(rv.Type(), rv.Len(), rv.Len())
	for i := range rv.Len() {
		out.Index(i).Set(reflect.ValueOf(PadStrings(rv.Index(i).Interface(), n)))
	}
	return out.Interface()
}

// MaxString is the longest string leaf.
func MaxString(v any) int {
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.String {
		return rv.Len()
	}
	m := 0
	for i := range rv.Len() {
		if k := MaxString(rv.Index(i).Interface()); k > m {
			m = k
		}
	}
	return m
}

// SubArray takes [begin[i],end[i]) in each dimension of nested slices.
func SubArray(v any, begin, end []int64) any {
	rv := reflect.ValueOf(v)
	if len(begin) == 0 {
		return v
	}
	if rv.Kind() == reflect.String {
		return rv.String()[begin[0]:end[0]]
	}
	n := int(end[0] - begin[0])
	out := reflect.MakeSlice(rv.Type(), n, n)
	for i := range n {
		out.Index(i).Set(reflect.ValueOf(SubArray(rv.Index(int(begin[0])+i).Interface(), begin[1:], end[1:])))
	}
	return out.Interface()
}
