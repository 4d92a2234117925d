// Package obs renders everything observable through the public API in a
// canonical, comparable form.
package obs

import (
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
)

// Safe runs f and returns the panic, if any, with the place it came from.
func Safe(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("PANIC %v at %s", r, where(string(debug.Stack())))
		}
	}()
	f()
	return ""
}

func where(stack string) string {
	lines := strings.Split(stack, "\n")
	for i, l := range lines {
		if strings.Contains(l, "panic(") {
			for _, m := range lines[i:] {
				if strings.Contains(m, "/repo/") || strings.Contains(m, "go-native-netcdf") {
					m = strings.TrimSpace(m)
					if k := strings.LastIndexByte(m, '('); k > 0 && !strings.HasPrefix(m[k:], "(*") {
						m = m[:k]
					}
					return m
				}
			}
		}
	}
	return "?"
}

// Render gives the Go type and the exact value (floats by their bits).
func Render(v any) string {
	if v == nil {
		return "nil"
	}
	var b strings.Builder
	rv := reflect.ValueOf(v)
	b.WriteString(typeName(rv.Type()))
	b.WriteByte('=')
	render(&b, rv, 0)
	return b.String()
}

func typeName(t reflect.Type) string {
	return t.String()
}

func render(b *strings.Builder, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			b.WriteString("[]") // nil and empty are not distinguished
			return
		}
		b.WriteByte('[')
		for i := range v.Len() {
			if i > 0 {
				b.WriteByte(' ')
			}
			render(b, v.Index(i), depth+1)
		}
		b.WriteByte(']')
	case reflect.Struct:
		b.WriteByte('{')
		for i := range v.NumField() {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(v.Type().Field(i).Name)
			b.WriteByte(':')
			render(b, v.Field(i), depth+1)
		}
		b.WriteByte('}')
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(typeName(v.Elem().Type()))
		b.WriteByte(':')
		render(b, v.Elem(), depth+1)
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Float32:
		fmt.Fprintf(b, "%v/%08x", v.Float(), math.Float32bits(float32Exact(v)))
	case reflect.Float64:
		fmt.Fprintf(b, "%v/%016x", v.Float(), math.Float64bits(v.Float()))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprintf(b, "%d", v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		fmt.Fprintf(b, "%d", v.Uint())
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	default:
		fmt.Fprintf(b, "<%s>", v.Kind())
	}
}

func float32Exact(v reflect.Value) float32 {
	if v.CanInterface() {
		if f, ok := v.Interface().(float32); ok {
			return f
		}
	}
	return float32(v.Float())
}

// Attrs renders an attribute map in its listing order.
func Attrs(am api.AttributeMap, types bool) (s string) {
	var b strings.Builder
	if p := Safe(func() {
		if am == nil || reflect.ValueOf(am).IsNil() {
			b.WriteString("nilattrs")
			return
		}
		for _, k := range am.Keys() {
			v, has := am.Get(k)
			fmt.Fprintf(&b, "%q:%v:%s", k, has, Render(v))
			if types {
				t, ok := am.GetType(k)
				gt, gok := am.GetGoType(k)
				fmt.Fprintf(&b, "<%s,%v|%s,%v>", t, ok, gt, gok)
			}
			b.WriteString("; ")
		}
	}); p != "" {
		return p
	}
	return b.String()
}

// SortedAttrs renders an attribute map in key order.
func SortedAttrs(am api.AttributeMap) (s string) {
	var parts []string
	if p := Safe(func() {
		for _, k := range am.Keys() {
			v, has := am.Get(k)
			parts = append(parts, fmt.Sprintf("%q:%v:%s", k, has, Render(v)))
		}
	}); p != "" {
		return p
	}
	sort.Strings(parts)
	return strings.Join(parts, "; ")
}

// Opt says what Dump includes.
type Opt struct {
	SortAttrs  bool // attribute order is not compared
	SortVars   bool
	Types      bool // CDL and Go type strings
	AttrTypes  bool
	UserTypes  bool
	NoDims     bool // leave out ListDimensions/GetDimension
	SortDims   bool
	Getter     bool // also through GetVarGetter
	ErrText    bool // include error texts (otherwise only the fact)
	MaxLen     int64
	NoSubgroup bool
}

// Err renders an error.
func (o Opt) Err(err error) string {
	if err == nil {
		return "nil"
	}
	if o.ErrText {
		return "error(" + err.Error() + ")"
	}
	return "error"
}

// Dump renders everything reachable from g, one fact per line.
func Dump(g api.Group, o Opt) []string {
	var out []string
	dumpGroup(g, "/", o, &out, 0)
	return out
}

func dumpGroup(g api.Group, path string, o Opt, out *[]string, depth int) {
	add := func(f string, a ...any) { *out = append(*out, path+" "+fmt.Sprintf(f, a...)) }
	if depth > 8 {
		add("TOO DEEP")
		return
	}
	if p := Safe(func() {
		if o.SortAttrs {
			add("attrs %s", SortedAttrs(g.Attributes()))
		} else {
			add("attrs %s", Attrs(g.Attributes(), o.AttrTypes))
		}
	}); p != "" {
		add("attrs %s", p)
	}
	if !o.NoDims {
		if p := Safe(func() {
			ds := append([]string(nil), g.ListDimensions()...)
			if o.SortDims {
				sort.Strings(ds)
			}
			for _, d := range ds {
				n, has := g.GetDimension(d)
				add("dim %q %d %v", d, n, has)
			}
		}); p != "" {
			add("dims %s", p)
		}
	}
	if o.UserTypes {
		if p := Safe(func() {
			ts := append([]string(nil), g.ListTypes()...)
			for _, t := range ts {
				a, ok := g.GetType(t)
				b, ok2 := g.GetGoType(t)
				add("type %q %q,%v %q,%v", t, a, ok, b, ok2)
			}
		}); p != "" {
			add("types %s", p)
		}
	}
	var vars []string
	if p := Safe(func() { vars = append([]string(nil), g.ListVariables()...) }); p != "" {
		add("vars %s", p)
	}
	if o.SortVars {
		sort.Strings(vars)
	}
	for _, name := range vars {
		add("%s", Var(g, name, o))
	}
	if o.NoSubgroup {
		return
	}
	var subs []string
	if p := Safe(func() { subs = append([]string(nil), g.ListSubgroups()...) }); p != "" {
		add("groups %s", p)
	}
	if o.SortVars {
		sort.Strings(subs)
	}
	for _, s := range subs {
		var sg api.Group
		var err error
		if p := Safe(func() { sg, err = g.GetGroup(s) }); p != "" {
			add("group %q %s", s, p)
			continue
		}
		if err != nil {
			add("group %q %s", s, o.Err(err))
			continue
		}
		add("group %q", s)
		dumpGroup(sg, path+s+"/", o, out, depth+1)
		if p := Safe(func() { sg.Close() }); p != "" {
			add("group %q close %s", s, p)
		}
	}
}

// Var renders one variable.
func Var(g api.Group, name string, o Opt) string {
	var b strings.Builder
	fmt.Fprintf(&b, "var %q", name)
	attrs := func(am api.AttributeMap) string {
		if o.SortAttrs {
			return SortedAttrs(am)
		}
		return Attrs(am, o.AttrTypes)
	}
	if p := Safe(func() {
		if o.MaxLen > 0 {
			vg, err := g.GetVarGetter(name)
			if err == nil {
				n := int64(1)
				for _, s := range vg.Shape() {
					if s < 0 || s > o.MaxLen || n > o.MaxLen {
						n = o.MaxLen + 1
						break
					}
					n *= s
				}
				if n > o.MaxLen {
					b.WriteString(" TOO BIG")
					return
				}
			}
		}
		v, err := g.GetVariable(name)
		if err != nil {
			b.WriteString(" " + o.Err(err))
			return
		}
		fmt.Fprintf(&b, " dims=%q val=%s attrs={%s}", v.Dimensions, Render(v.Values), attrs(v.Attributes))
	}); p != "" {
		b.WriteString(" " + p)
	}
	if o.Getter || o.Types {
		if p := Safe(func() {
			vg, err := g.GetVarGetter(name)
			if err != nil {
				b.WriteString(" getter " + o.Err(err))
				return
			}
			if o.Types {
				fmt.Fprintf(&b, " type=%s gotype=%s", vg.Type(), vg.GoType())
			}
			if o.Getter {
				fmt.Fprintf(&b, " len=%d shape=%v gdims=%q gattrs={%s}", vg.Len(), vg.Shape(), vg.Dimensions(), attrs(vg.Attributes()))
			}
		}); p != "" {
			b.WriteString(" getter " + p)
		}
	}
	return b.String()
}

// Diff gives the first differing line of two dumps ("" if equal).
func Diff(want, got []string) string {
	for i := 0; i < len(want) || i < len(got); i++ {
		w, g := "<end>", "<end>"
		if i < len(want) {
			w = want[i]
		}
		if i < len(got) {
			g = got[i]
		}
		if w != g {
			return fmt.Sprintf("line %d\n    want: %s\n    got:  %s", i, clip(w), clip(g))
		}
	}
	return ""
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// FileHash is a file's content, as an outcome.
func FileHash(path string) string {
	b, _ := os.ReadFile(path)
	return string(b)
}
