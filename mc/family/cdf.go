// Package family enumerates the bounded families of file contents.
package family

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/verifmc/model"
)

// Make yields one content; the description must identify it.
type YieldGroup func(desc func() string, mk func() *model.Group)

// Shapes of a tier.
func Shapes(thorough bool) [][]int {
	s := [][]int{{}, {1}, {2}, {3}, {4}, {5}, {7}, {0}}
	n := 3
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			s = append(s, []int{i, j})
		}
	}
	for i := 1; i <= n; i++ {
		for j := 1; j <= n; j++ {
			for k := 1; k <= n; k++ {
				s = append(s, []int{i, j, k})
			}
		}
	}
	m := 2
	if thorough {
		m = 3
		s = append(s, []int{4, 5}, []int{5, 4}, []int{1, 7}, []int{7, 1}, []int{6, 6}, []int{2, 5, 4}, []int{5, 1, 5})
	}
	for i := 1; i <= m; i++ {
		for j := 1; j <= m; j++ {
			for k := 1; k <= m; k++ {
				for l := 1; l <= m; l++ {
					s = append(s, []int{i, j, k, l})
				}
			}
		}
	}
	s = append(s, []int{2, 1, 2, 1, 2}, []int{1, 2, 1, 2, 3})
	return s
}

// AttrValues is the alphabet of attribute values.
func AttrValues(strs bool) []any {
	var out []any
	for _, t := range model.NumTypes {
		out = append(out, model.Make(t, nil, 5))
		for _, n := range []int{0, 1, 2, 3, 5} {
			out = append(out, model.Make(t, []int{n}, n))
		}
	}
	if strs {
		for _, s := range []string{"", "a", "ab", "abc", "abcd", "abcde", "héllo", "20 \xb0C", "\xff\xfe\xfd", "a\nb\t\"c\\"} {
			out = append(out, s)
		}
	}
	return out
}

func dimNames(prefix string, n int) []string {
	d := []string{}
	for i := range n {
		d = append(d, fmt.Sprintf("%s%d", prefix, i))
	}
	return d
}

// nameOf a length (distinct characters).
func nameOf(c byte, n int) string {
	b := []byte{}
	for i := range n {
		b = append(b, c+byte(i%20))
	}
	return string(b)
}

func grp(vars ...model.Var) *model.Group { return &model.Group{Vars: vars} }

// CDFPrograms are the contents for the CDF writer. All of them are valid.
func CDFPrograms(thorough bool, y YieldGroup) {
	one := []model.Attr{{Name: "units", Val: "m/s"}, {Name: "n", Val: int16(7)}}
	emit := func(tag string, mk func() *model.Group) {
		y(func() string { return tag + " " + mk().String() }, mk)
	}
	// S: one variable
	for _, t := range model.AllTypes {
		for _, sh := range Shapes(thorough) {
			if t == model.StringType && len(sh) > 0 && sh[0] == 0 {
				continue
			}
			for mode := range 4 {
				emit("S", func() *model.Group {
					v := model.Var{Name: "v", Vals: model.Make(t, sh, 1)}
					r := len(sh)
					if t == model.StringType {
						r++
					}
					switch mode {
					case 0, 3:
						v.Dims = dimNames("d", r)
						if mode == 0 && t == model.StringType {
							v.Dims = v.Dims[:r-1]
						}
					case 2:
						if r > 1 {
							v.Dims = dimNames("d", 1)
						}
					}
					if mode == 3 {
						v.Attrs = one
					}
					return grp(v)
				})
			}
		}
	}
	// E: extreme values
	for _, t := range model.AllTypes {
		ex := model.Extremes(t)
		emit("E", func() *model.Group {
			return grp(model.Var{Name: "all", Vals: model.SliceOf(t, ex), Dims: []string{"n"}})
		})
		for _, e := range ex {
			emit("E", func() *model.Group {
				return &model.Group{Vars: []model.Var{{Name: "s", Vals: e, Attrs: []model.Attr{{Name: "a", Val: e}}}},
					Attrs: []model.Attr{{Name: "g", Val: e}}}
			})
		}
	}
	// P: ordered pairs of variables
	shapes := [][]int{{}, {1}, {3}, {5}, {0}, {2, 3}}
	if thorough {
		shapes = append(shapes, []int{2}, []int{3, 1, 3})
	}
	var alpha []model.Var
	for _, t := range model.AllTypes {
		for _, sh := range shapes {
			if len(sh) > 0 && sh[0] == 0 && t == model.StringType {
				continue
			}
			alpha = append(alpha, model.Var{Vals: model.Make(t, sh, 0)})
		}
	}
	with := func(name string, salt int, v model.Var) model.Var {
		sh := model.Shape(v.Vals)
		r := model.Var{Name: name, Vals: model.Make(model.ElemType(v.Vals), sh, salt)}
		for i, n := range sh {
			if n == 0 {
				r.Dims = append(r.Dims, "rec")
			} else {
				r.Dims = append(r.Dims, fmt.Sprintf("%s_%d", name, i))
			}
		}
		return r
	}

	for _, a := range alpha {
		for _, b := range alpha {
			emit("P", func() *model.Group { return grp(with("a", 1, a), with("b", 2, b)) })
		}
	}
	// T: ordered triples over a reduced alphabet
	ts := []reflect.Type{model.NumTypes[0], model.NumTypes[2], model.NumTypes[4], model.NumTypes[9], model.NumTypes[1], model.StringType}
	tsh := [][]int{{}, {3}, {0}}
	if thorough {
		ts = append(ts, model.NumTypes[6], model.NumTypes[3], model.NumTypes[8])
		tsh = append(tsh, []int{2, 3})
	}
	var alpha3 []model.Var
	for _, t := range ts {
		for _, sh := range tsh {
			if len(sh) > 0 && sh[0] == 0 && t == model.StringType {
				continue
			}
			alpha3 = append(alpha3, model.Var{Vals: model.Make(t, sh, 0)})
		}
	}
	for _, a := range alpha3 {
		for _, b := range alpha3 {
			for _, c := range alpha3 {
				emit("T", func() *model.Group { return grp(with("a", 1, a), with("b", 2, b), with("c", 3, c)) })
			}
		}
	}
	// A: attributes, in one list and in two lists
	av := AttrValues(true)
	for _, a := range av {
		emit("A", func() *model.Group { return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}}} })
		for _, t := range model.AllTypes {
			// a global attribute alone may select the data format
			emit("A", func() *model.Group {
				return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}},
					Vars: []model.Var{{Name: "v", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"}}}}
			})
			emit("A", func() *model.Group {
				return &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"},
					Attrs: []model.Attr{{Name: "a", Val: a}}}, {Name: "w", Vals: int16(5)}}}
			})
		}
		for _, b := range av {
			emit("A", func() *model.Group {
				return &model.Group{Attrs: []model.Attr{{Name: "b", Val: a}, {Name: "a", Val: b}},
					Vars: []model.Var{{Name: "v", Vals: int32(1)}}}
			})
			emit("A", func() *model.Group {
				return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}},
					Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "z", Val: b}, {Name: "b", Val: a}}},
						{Name: "w", Vals: float64(1.5), Attrs: []model.Attr{{Name: "b", Val: b}}}}}
			})
		}
	}
	// D: shared dimensions
	dl := map[string]int{"x": 2, "y": 3, "z": 1}
	var lists [][]string
	var rec func(p []string)
	rec = func(p []string) {
		lists = append(lists, append([]string{}, p...))
		if len(p) == 3 {
			return
		}
		for _, d := range []string{"x", "y", "z"} {
			rec(append(append([]string{}, p...), d))
		}
	}
	rec(nil)
	shapeOf := func(d []string) []int {
		s := []int{}
		for _, n := range d {
			s = append(s, dl[n])
		}
		return s
	}
	for _, a := range lists {
		for _, b := range lists {
			emit("D", func() *model.Group {
				return grp(model.Var{Name: "a", Vals: model.Make(model.NumTypes[2], shapeOf(a), 1), Dims: a},
					model.Var{Name: "b", Vals: model.Make(model.NumTypes[9], shapeOf(b), 2), Dims: b})
			})
		}
	}
	// R: every dimension list of length <= 5 over x,y (interior repeats and ones at every place)
	var lists2 [][]string
	var rec2 func(p []string, n int)
	rec2 = func(p []string, n int) {
		lists2 = append(lists2, append([]string{}, p...))
		if len(p) == n {
			return
		}
		for _, d := range []string{"x", "z"} {
			rec2(append(append([]string{}, p...), d), n)
		}
	}
	rec2(nil, 6)
	for _, a := range lists2 {
		for _, t := range []reflect.Type{model.NumTypes[0], model.NumTypes[3], model.NumTypes[8], model.StringType} {
			emit("R", func() *model.Group {
				return grp(model.Var{Name: "a", Vals: model.Make(t, shapeOf(a), 1), Dims: a}, model.Var{Name: "end", Vals: int32(77)})
			})
		}
	}
	// U: dimensions without names, for which the writer makes some, after ones that the caller named alike
	made := []string{"x", "_dimid_0", "_dimid_1", "_dimid_2", "_dimid_3", "_stringlen_b", "_stringlen_b_"}
	for _, d1 := range made {
		for _, d2 := range append([]string{""}, made...) {
			if d1 == d2 {
				continue
			}
			for k := range 32 {
				emit("U", func() *model.Group {
					a := model.Var{Name: "a", Dims: []string{d1}}
					sh := []int{2 + k&1}
					if d2 != "" {
						a.Dims, sh = append(a.Dims, d2), append(sh, 2+k>>1&1)
					}
					a.Vals = model.Make(model.NumTypes[1], sh, 1)
					b := model.Var{Name: "b", Vals: model.Make(model.NumTypes[3], []int{2 + k>>2&1, 2}, 2)}
					if k>>4&1 == 1 {
						b.Vals = []string{"ab", "abc"[:2+k>>2&1]}
					}
					c := model.Var{Name: "c", Vals: model.Make(model.NumTypes[2], []int{2 + k>>3&1}, 3)}
					return grp(a, b, c)
				})
			}
		}
	}
	// N: name lengths (padding)
	nmax := 6
	if thorough {
		nmax = 9
	}
	for i := 1; i <= nmax; i++ {
		for j := 1; j <= nmax; j++ {
			for k := 1; k <= nmax; k++ {
				for v5 := range 2 {
					emit("N", func() *model.Group {
						var val any = []int8{1, 2, 3}
						if v5 == 1 {
							val = []uint8{1, 2, 3}
						}
						at := []model.Attr{{Name: nameOf('a', k), Val: "x"}}
						return &model.Group{Attrs: at, Vars: []model.Var{
							{Name: nameOf('b', i), Vals: val, Dims: []string{nameOf('c', j)}, Attrs: at},
							{Name: "tail", Vals: []int16{5, 6, 7}, Dims: []string{nameOf('c', j)}}}}
					})
				}
			}
		}
	}
	for _, nm := range []string{"é", "世界", "naïve name", "a-b", "x.y", "1st", "A b", "tab_", "p%q", "a\\b", "q\"r"} {
		emit("N", func() *model.Group {
			return &model.Group{Attrs: []model.Attr{{Name: nm, Val: "x"}}, Vars: []model.Var{
				{Name: nm, Vals: []int16{1}, Dims: []string{nm}, Attrs: []model.Attr{{Name: nm, Val: int8(1)}}}}}
		})
	}
	for _, n := range []int{63, 64, 100, 255, 256, 257} {
		emit("N", func() *model.Group {
			nm := strings.Repeat("n", n)
			return &model.Group{Attrs: []model.Attr{{Name: nm, Val: "x"}}, Vars: []model.Var{
				{Name: nm, Vals: []int16{1}, Dims: []string{nm}, Attrs: []model.Attr{{Name: nm, Val: int8(1)}}}}}
		})
	}
	// M: many
	many := []int{0, 1, 2, 3, 10, 40, 127, 128, 129, 130, 255, 256, 257, 300}
	if thorough {
		many = append(many, 1000, 1024, 1025)
	}
	for _, n := range many {
		for kind := range 4 {
			emit(fmt.Sprintf("M%d/%d", kind, n), func() *model.Group {
				g := &model.Group{}
				for i := range n {
					switch kind {
					case 0:
						g.Attrs = append(g.Attrs, model.Attr{Name: fmt.Sprintf("k%d", (i*37)%n), Val: int32(i)})
					case 1:
						g.Vars = append(g.Vars, model.Var{Name: fmt.Sprintf("k%d", (i*37)%n), Vals: []int8{int8(i), 1, 2}, Dims: []string{"x"}})
					case 2:
						g.Vars = append(g.Vars, model.Var{Name: fmt.Sprintf("k%d", (i*37)%n), Vals: model.Make(model.NumTypes[4], []int{i + 1}, i), Dims: []string{fmt.Sprintf("d%d", i)}})
					case 3:
						g.Vars = append(g.Vars, model.Var{Name: fmt.Sprintf("k%d", (i*37)%n), Vals: uint16(i), Attrs: []model.Attr{{Name: "a", Val: []uint8{byte(i)}}}})
					}
				}
				return g
			})
		}
	}
	// W: ranks
	for _, r := range Ranks {
		for _, t := range []reflect.Type{model.NumTypes[0], model.NumTypes[3], model.NumTypes[8], model.StringType} {
			for kind := range 3 {
				emit(fmt.Sprintf("W%d/%s", kind, t), func() *model.Group { return grp(Ranked(r, kind, t), model.Var{Name: "tail", Vals: int16(-5)}) })
			}
		}
	}
	// X: extents and lengths around the limits of one and two byte counts
	for _, n := range Lengths {
		for kind := range 6 {
			emit(fmt.Sprintf("X%d/%d", kind, n), func() *model.Group { return Long(n, kind) })
		}
	}
	// L: sizes around buffer boundaries
	for _, t := range model.NumTypes {
		for _, n := range []int{4093, 4094, 4095, 4096, 4097} {
			m := n / int(t.Size())
			for d := range 3 {
				emit(fmt.Sprintf("L%s/%d", t, m+d-1), func() *model.Group {
					return grp(model.Var{Name: "big", Vals: model.Make(t, []int{m + d - 1}, 1), Dims: []string{"n"}},
						model.Var{Name: "big2", Vals: model.Make(t, []int{2, m + d - 1}, 2), Dims: []string{"two", "n"}},
						model.Var{Name: "tail", Vals: int16(-5)})
				})
			}
		}
	}
}

// Ranks of variables beyond the shapes that are enumerated.
var Ranks = []int{6, 7, 8, 9, 15, 16, 17, 31, 32}

// Ranked is a variable of rank r. In kind 0 its first and last extents are 2
// and 3 and the others 1; in kind 1 the same with one dimension name for each
// extent; in kind 2 they are all 1 but for two in the middle.
func Ranked(r, kind int, t reflect.Type) model.Var {
	sh := make([]int, r)
	v := model.Var{Name: "v"}
	for i := range sh {
		sh[i] = 1
		if kind < 2 && i == 0 || kind == 2 && i == r/2 {
			sh[i] = 2
		}
		if kind < 2 && i == r-1 || kind == 2 && i == r/2+1 {
			sh[i] = 3
		}
		if kind == 1 {
			v.Dims = append(v.Dims, fmt.Sprintf("x%d", sh[i]))
		} else {
			v.Dims = append(v.Dims, fmt.Sprintf("d%d", i))
		}
	}
	v.Vals = model.Make(t, sh, 1)
	return v
}

// Lengths around the limits of one and two byte counts.
var Lengths = []int{126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 32767, 32768, 65534, 65535, 65536, 65537}

// Long contents, with something of length n.
func Long(n, kind int) *model.Group {
	tail := model.Var{Name: "tail", Vals: int16(-5)}
	text := func(salt int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = 'a' + byte((i+i/26+salt)%26)
		}
		return string(b)
	}
	short := min(n, 1000)
	switch kind {
	case 0:
		return grp(model.Var{Name: "v", Vals: model.Make(model.NumTypes[0], []int{n}, 1), Dims: []string{"n"}},
			model.Var{Name: "w", Vals: model.Make(model.NumTypes[2], []int{n, 2}, 1), Dims: []string{"n", "two"}}, tail)
	case 1:
		return grp(model.Var{Name: "v", Vals: model.Make(model.NumTypes[1], []int{2, n}, 1), Dims: []string{"two", "n"}}, tail)
	case 2:
		return grp(model.Var{Name: "s", Vals: text(0)}, model.Var{Name: "ss", Vals: []string{text(1), "x", ""}, Dims: []string{"three"}}, tail)
	case 3:
		return &model.Group{Attrs: []model.Attr{{Name: "a", Val: text(2)[:min(n, 60000)]}, {Name: "b", Val: "x"}},
			Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "b", Val: text(3)[:min(n, 60000)]}, {Name: "a", Val: int8(3)}}}, tail}}
	case 4:
		k := min(n, 7000)
		return &model.Group{Attrs: []model.Attr{{Name: "a", Val: model.Make(model.NumTypes[9], []int{k}, 1)}, {Name: "b", Val: "x"}},
			Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "b", Val: model.Make(model.NumTypes[2], []int{k}, 1)}, {Name: "a", Val: int8(3)}}}, tail}}
	default:
		s := make([]string, short)
		for i := range s {
			s[i] = fmt.Sprint("s", i*i)
		}
		return grp(model.Var{Name: "v", Vals: s, Dims: []string{"n"}}, tail)
	}
}
