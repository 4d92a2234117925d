package family

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/batchatco/go-native-netcdf/verifmc/model"
)

// YieldH5W receives a content; must says whether the writer has to accept it
// (otherwise it may refuse it, but not store something else).
type YieldH5W func(must bool, desc func() string, mk func() *model.Group)

// h5AttrValues is the alphabet of attribute values of the HDF5 writer.
func h5AttrValues() []any {
	out := AttrValues(true)
	return append(out, []string{"a"}, []string{"a", "bc"}, []string{"", "x", ""}, []string{"same", "same"}, []string{"héllo", "__dimref:x", "世界"},
		[][]int32{{1, 2}, {3, 4}}, [][]float64{{1}, {2, 3}}, [][]int8{{1, 2, 3}}, [][]uint16{{}, {}}, [][]int64{})
}

// VlenValues are ragged values: slices of the type with lengths up to n.
func vlenOf(t reflect.Type, lens []int) any {
	s := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(t)), len(lens), len(lens))
	for i, n := range lens {
		s.Index(i).Set(reflect.ValueOf(model.Make(t, []int{n}, 3*i)))
	}
	return s.Interface()
}

// H5Programs are the contents for the HDF5 writer.
func H5Programs(thorough bool, y YieldH5W) {
	one := []model.Attr{{Name: "units", Val: "m/s"}, {Name: "n", Val: int16(7)}}
	emit := func(tag string, mk func() *model.Group) {
		y(true, func() string { return tag + " " + mk().String() }, mk)
	}
	odd := func(tag string, mk func() *model.Group) {
		y(false, func() string { return tag + " " + mk().String() }, mk)
	}
	// S: one variable of every type and shape, in the root and in a group
	for _, t := range model.AllTypes {
		for _, sh := range Shapes(thorough) {
			for mode := range 3 {
				emit("S", func() *model.Group {
					v := model.Var{Name: "v", Vals: model.Make(t, sh, 1), Dims: dimNames("d", len(sh))}
					if mode == 2 {
						v.Attrs = one
					}
					if mode == 1 {
						return &model.Group{Groups: []*model.Group{{Name: "g", Vars: []model.Var{v}}}}
					}
					return grp(v)
				})
			}
		}
		for _, sh := range [][]int{{1, 0}, {2, 0}, {0, 2}, {0, 0}, {2, 3, 0}} {
			odd("S0", func() *model.Group {
				return grp(model.Var{Name: "v", Vals: model.Make(t, sh, 1), Dims: dimNames("d", len(sh))})
			})
		}
		// fewer and more names than dimensions, and empty names
		for _, sh := range [][]int{{}, {1}, {3}, {2, 3}, {2, 1, 2}} {
			for n := 0; n <= len(sh)+1; n++ {
				if n == len(sh) {
					continue
				}
				put := odd
				if t == model.StringType && (n == len(sh)+1 || n == 0) {
					put = emit
				}
				put("SD", func() *model.Group {
					return grp(model.Var{Name: "v", Vals: model.Make(t, sh, 1), Dims: dimNames("d", n)}, model.Var{Name: "end", Vals: int16(3)})
				})
			}
			for m := 1; m < 1<<len(sh); m++ {
				odd("SE", func() *model.Group {
					d := dimNames("d", len(sh))
					for i := range d {
						if m>>i&1 == 1 {
							d[i] = ""
						}
					}
					return grp(model.Var{Name: "v", Vals: model.Make(t, sh, 1), Dims: d}, model.Var{Name: "end", Vals: int16(3)})
				})
			}
		}
	}
	// E: extreme values
	for _, t := range model.AllTypes {
		ex := model.Extremes(t)
		emit("E", func() *model.Group {
			return grp(model.Var{Name: "all", Vals: model.SliceOf(t, ex), Dims: []string{"n"}})
		})
		for _, e := range ex {
			emit("E", func() *model.Group {
				return &model.Group{Vars: []model.Var{{Name: "s", Vals: e, Attrs: []model.Attr{{Name: "a", Val: e}}}},
					Attrs: []model.Attr{{Name: "g", Val: e}}}
			})
		}
	}
	// Q: strings
	strs := []string{"", "a", "ab", "abcdefg", "abcdefgh", "abcdefghi", "é", "世界", "__dimref:n", strings.Repeat("x", 5000)}
	for _, a := range strs {
		emit("Q", func() *model.Group {
			return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}, {Name: "b", Val: []string{a, "z", a}}}, Vars: []model.Var{
				{Name: "s", Vals: a}, {Name: "l", Vals: []string{a}, Dims: []string{"one"}}}}
		})
		for _, b := range strs {
			emit("Q", func() *model.Group {
				return grp(model.Var{Name: "v", Vals: []string{a, b, "mid", a}, Dims: []string{"n"}, Attrs: []model.Attr{{Name: "a", Val: []string{b, a}}}},
					model.Var{Name: "w", Vals: [][]string{{b, b}, {a, "q"}}, Dims: []string{"y", "x"}})
			})
		}
	}
	// P: pairs of variables, with shared and own dimensions
	shapes := [][]int{{}, {1}, {3}, {0}, {2, 3}}
	if thorough {
		shapes = append(shapes, []int{2}, []int{3, 1, 3})
	}
	var alpha []model.Var
	for _, t := range model.AllTypes {
		for _, sh := range shapes {
			alpha = append(alpha, model.Var{Vals: model.Make(t, sh, 0)})
		}
	}
	with := func(name, dims string, salt int, v model.Var) model.Var {
		sh := model.Shape(v.Vals)
		r := model.Var{Name: name, Vals: model.Make(model.ElemType(v.Vals), sh, salt), Dims: []string{}}
		for i, n := range sh {
			r.Dims = append(r.Dims, fmt.Sprintf("%s%d_%d", dims, i, n))
		}
		return r
	}
	for i, a := range alpha {
		for j, b := range alpha {
			emit("P", func() *model.Group {
				n1, n2 := "a", "b"
				if (i+j)%2 == 1 {
					n1, n2 = n2, n1
				}
				return grp(with(n1, "d", 1, a), with(n2, []string{"d", "e"}[(i+2*j)%2], 2, b))
			})
		}
	}
	// A: attributes
	av := h5AttrValues()
	for _, a := range av {
		emit("A", func() *model.Group { return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}}} })
		for _, t := range model.AllTypes {
			emit("A", func() *model.Group {
				return &model.Group{Vars: []model.Var{{Name: "v", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"},
					Attrs: []model.Attr{{Name: "a", Val: a}}}, {Name: "w", Vals: int16(5)}}}
			})
		}
		for _, b := range av {
			emit("A", func() *model.Group {
				return &model.Group{Attrs: []model.Attr{{Name: "b", Val: a}, {Name: "a", Val: b}},
					Groups: []*model.Group{{Name: "g", Attrs: []model.Attr{{Name: "z", Val: b}},
						Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "z", Val: b}, {Name: "b", Val: a}}}}}}}
			})
		}
	}
	// deeper attributes, which netCDF does not have
	for _, a := range []any{[][]string{{"a", "b"}, {"c", "dd"}}, [][]string{{"a"}, {}}, [][][]int16{{{1, 2}}, {{3, 4}}}, [][][]int16{{{1}, {}}, {}}} {
		odd("A", func() *model.Group {
			return &model.Group{Attrs: []model.Attr{{Name: "a", Val: a}}, Vars: []model.Var{{Name: "w", Vals: int16(5)}}}
		})
		odd("A", func() *model.Group {
			return &model.Group{Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "a", Val: a}}}, {Name: "w", Vals: int16(5)}}}
		})
	}
	// V: variable-length sequences
	for _, t := range model.NumTypes {
		for _, lens := range [][]int{{}, {0}, {1}, {2, 2}, {0, 1}, {3, 0, 2}, {1, 2, 3}, {5, 5, 1}, {0, 0}} {
			emit("V", func() *model.Group {
				return grp(model.Var{Name: "v", Vals: vlenOf(t, lens), Dims: []string{"n"}, Attrs: []model.Attr{{Name: "a", Val: int8(4)}}},
					model.Var{Name: "w", Vals: []string{"p", "q"}, Dims: []string{"m"}})
			})
			if len(lens) > 0 {
				odd("V", func() *model.Group {
					return &model.Group{Attrs: []model.Attr{{Name: "a", Val: vlenOf(t, lens)}}, Vars: []model.Var{{Name: "v", Vals: t1(t), Attrs: []model.Attr{{Name: "b", Val: vlenOf(t, lens)}, {Name: "c", Val: "x"}}}}}
				})
			}
		}
		for _, n := range []int{0, 1, 4} {
			odd("V", func() *model.Group {
				return grp(model.Var{Name: "v", Vals: model.Make(t, []int{n}, 1)})
			})
		}
		odd("V", func() *model.Group {
			x := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(reflect.SliceOf(t))), 0, 0)
			x = reflect.Append(x, reflect.ValueOf(vlenOf(t, []int{2, 1})), reflect.ValueOf(vlenOf(t, []int{0, 3})))
			return grp(model.Var{Name: "v", Vals: x.Interface(), Dims: []string{"y", "x"}})
		})
		odd("V", func() *model.Group {
			x := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(reflect.SliceOf(t))), 0, 0)
			x = reflect.Append(x, reflect.ValueOf(vlenOf(t, []int{2, 1})), reflect.ValueOf(vlenOf(t, []int{0, 3, 1})))
			return grp(model.Var{Name: "v", Vals: x.Interface(), Dims: []string{"y", "x"}})
		})
		odd("V", func() *model.Group { // ragged, with a name for each level
			return grp(model.Var{Name: "v", Vals: vlenOf(t, []int{2, 3}), Dims: []string{"y", "x"}})
		})
		odd("V", func() *model.Group { // ragged two levels below the names
			x := reflect.MakeSlice(reflect.SliceOf(reflect.SliceOf(reflect.SliceOf(t))), 0, 0)
			x = reflect.Append(x, reflect.ValueOf(vlenOf(t, []int{2, 1})), reflect.ValueOf(vlenOf(t, []int{0, 3, 1})))
			return grp(model.Var{Name: "v", Vals: x.Interface(), Dims: []string{"y"}})
		})
	}
	// D: shared dimensions and coordinate variables
	dl := map[string]int{"x": 2, "y": 3, "z": 1}
	var lists [][]string
	var rec func(p []string)
	rec = func(p []string) {
		lists = append(lists, append([]string{}, p...))
		if len(p) == 3 {
			return
		}
		for _, d := range []string{"x", "y", "z"} {
			rec(append(append([]string{}, p...), d))
		}
	}
	rec(nil)
	shapeOf := func(d []string) []int {
		s := []int{}
		for _, n := range d {
			s = append(s, dl[n])
		}
		return s
	}
	for _, a := range lists {
		for _, b := range lists {
			emit("D", func() *model.Group {
				return grp(model.Var{Name: "a", Vals: model.Make(model.NumTypes[2], shapeOf(a), 1), Dims: a},
					model.Var{Name: "b", Vals: model.Make(model.NumTypes[9], shapeOf(b), 2), Dims: b})
			})
			if len(a) > 2 || len(b) > 2 {
				continue
			}
			// variables named like dimensions, before and after the dimension's user
			for _, cn := range []string{"x", "y"} {
				put := emit
				if !(len(a) == 1 && a[0] == cn) {
					put = odd // not a coordinate variable, but has a dimension's name
				}
				for _, first := range []bool{true, false} {
					put("DC", func() *model.Group {
						c := model.Var{Name: cn, Vals: model.Make(model.NumTypes[8], shapeOf(a), 1), Dims: a, Attrs: one}
						v := model.Var{Name: "v", Vals: model.Make(model.NumTypes[3], shapeOf(b), 2), Dims: b}
						if first {
							return grp(c, v)
						}
						return grp(v, c)
					})
				}
				put("DG", func() *model.Group {
					c := model.Var{Name: cn, Vals: model.Make(model.NumTypes[8], shapeOf(a), 1), Dims: a, Attrs: one}
					v := model.Var{Name: "v", Vals: model.Make(model.NumTypes[3], shapeOf(b), 2), Dims: b}
					return &model.Group{Vars: []model.Var{c}, Groups: []*model.Group{{Name: "g", Vars: []model.Var{v}}}}
				})
				put("DG", func() *model.Group {
					c := model.Var{Name: cn, Vals: model.Make(model.NumTypes[8], shapeOf(a), 1), Dims: a, Attrs: one}
					v := model.Var{Name: "v", Vals: model.Make(model.NumTypes[3], shapeOf(b), 2), Dims: b}
					return &model.Group{Vars: []model.Var{v}, Groups: []*model.Group{{Name: "g", Vars: []model.Var{c}}}}
				})
			}
		}
	}
	for _, t := range model.AllTypes {
		emit("DT", func() *model.Group {
			return grp(model.Var{Name: "x", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"}, Attrs: []model.Attr{{Name: "l", Val: []string{"p", "q"}}, {Name: "u", Val: "m"}}},
				model.Var{Name: "v", Vals: model.Make(t, []int{2, 3}, 2), Dims: []string{"y", "x"}})
		})
		emit("DT", func() *model.Group { // no user but itself
			return grp(model.Var{Name: "x", Vals: model.Make(t, []int{3}, 1), Dims: []string{"x"}})
		})
	}
	emit("DV", func() *model.Group {
		return grp(model.Var{Name: "x", Vals: [][]int16{{1}, {2, 3}}, Dims: []string{"x"}}, model.Var{Name: "v", Vals: []int8{1, 2}, Dims: []string{"x"}})
	})
	// C: the same dimension name with different lengths
	for _, a := range [][]int{{2}, {3}, {2, 3}} {
		for _, b := range [][]int{{2}, {3}, {3, 2}} {
			for _, sub := range []bool{false, true} {
				odd("C", func() *model.Group {
					va := model.Var{Name: "a", Vals: model.Make(model.NumTypes[4], a, 1), Dims: []string{"x", "y"}[:len(a)]}
					vb := model.Var{Name: "b", Vals: model.Make(model.NumTypes[4], b, 2), Dims: []string{"x", "y"}[:len(b)]}
					if sub {
						return &model.Group{Vars: []model.Var{va}, Groups: []*model.Group{{Name: "g", Vars: []model.Var{vb}}}}
					}
					return grp(va, vb)
				})
			}
		}
	}
	for _, v := range []any{[]int32{1, 2}, [][]int32{{1, 2}, {3, 4}}, [][]int32{{1, 2, 3}, {4, 5, 6}}} {
		odd("C", func() *model.Group {
			return grp(model.Var{Name: "v", Vals: v, Dims: []string{"x", "x"}[:len(model.Shape(v))]})
		})
	}
	// ragged where dimensions are declared
	odd("C", func() *model.Group {
		return grp(model.Var{Name: "v", Vals: [][]string{{"a"}, {"b", "c"}}, Dims: []string{"y", "x"}})
	})
	odd("C", func() *model.Group {
		return grp(model.Var{Name: "v", Vals: [][]string{{"a"}, {"b", "c"}}, Dims: []string{"y"}})
	})
	odd("C", func() *model.Group {
		return grp(model.Var{Name: "v", Vals: [][]int16{{1, 2}, {}}, Dims: []string{"y", "x"}})
	})
	// names of different things
	for _, n := range []string{"x", "v", "g", "w"} {
		for _, m := range []string{"x", "v", "g", "w"} {
			odd("K", func() *model.Group {
				return &model.Group{Vars: []model.Var{{Name: "v", Vals: []int8{1, 2}, Dims: []string{n}}, {Name: "w", Vals: int32(5)}},
					Groups: []*model.Group{{Name: m, Vars: []model.Var{{Name: "v", Vals: []int8{3, 4}, Dims: []string{n}}}}}}
			})
		}
	}
	// G: group trees
	var trees []*model.Group
	var grow func(depth int) []*model.Group
	grow = func(depth int) []*model.Group {
		out := []*model.Group{{}}
		if depth == 0 {
			return out
		}
		sub := grow(depth - 1)
		for i, a := range sub {
			x := *a
			x.Name = "a"
			out = append(out, &model.Group{Groups: []*model.Group{&x}})
			if i < 3 {
				for _, b := range sub {
					z := *b
					z.Name = "b"
					out = append(out, &model.Group{Groups: []*model.Group{&z, &x}})
				}
			}
		}
		return out
	}
	depth := 3
	trees = grow(depth)
	for _, t := range trees {
		for mode := range 4 {
			emit("G", func() *model.Group {
				n := 0
				var deco func(g *model.Group) *model.Group
				deco = func(g *model.Group) *model.Group {
					n++
					k := n
					r := &model.Group{Name: g.Name}
					if mode&1 == 1 || k%2 == 0 {
						r.Vars = append(r.Vars, model.Var{Name: "v", Vals: []int32{int32(k), 2}, Dims: []string{"x"}, Attrs: []model.Attr{{Name: "k", Val: int16(k)}}})
					}
					if mode&2 == 2 || k%3 == 0 {
						r.Vars = append(r.Vars, model.Var{Name: "s", Vals: []string{fmt.Sprint("g", k), "", "same"}, Dims: []string{"y"}})
						r.Attrs = []model.Attr{{Name: "k", Val: int32(k)}, {Name: "l", Val: []string{"p", fmt.Sprint(k)}}}
					}
					for _, s := range g.Groups {
						r.Groups = append(r.Groups, deco(s))
					}
					return r
				}
				return deco(t)
			})
		}
	}
	// N: names
	nmax := 6
	if thorough {
		nmax = 9
	}
	for i := 1; i <= nmax; i++ {
		for j := 1; j <= nmax; j++ {
			for k := 1; k <= nmax; k++ {
				emit("N", func() *model.Group {
					at := []model.Attr{{Name: nameOf('a', k), Val: "x"}}
					return &model.Group{Attrs: at, Vars: []model.Var{
						{Name: nameOf('b', i), Vals: []int8{1, 2, 3}, Dims: []string{nameOf('m', j)}, Attrs: at},
						{Name: "tail", Vals: []int16{5, 6, 7}, Dims: []string{nameOf('m', j)}}},
						Groups: []*model.Group{{Name: nameOf('g', k), Vars: []model.Var{{Name: nameOf('b', j), Vals: int8(4)}}}}}
				})
			}
		}
	}
	for _, nm := range []string{"é", "世界", "naïve name", "a-b", "x.y", "1st", "A b", "tab_", "p%q", "a\\b", "q\"r"} {
		emit("N", func() *model.Group {
			return &model.Group{Attrs: []model.Attr{{Name: nm, Val: "x"}}, Vars: []model.Var{
				{Name: nm, Vals: []int16{1}, Dims: []string{nm}, Attrs: []model.Attr{{Name: nm, Val: int8(1)}}}},
				Groups: []*model.Group{{Name: nm + "g", Vars: []model.Var{{Name: nm, Vals: int8(3)}}}}}
		})
	}
	for _, n := range []int{63, 64, 100, 254, 255, 256, 257, 300} {
		put := emit
		if n > 256 {
			put = odd // longer than netCDF's limit
		}
		put("N", func() *model.Group {
			nm := strings.Repeat("n", n)
			return &model.Group{Attrs: []model.Attr{{Name: nm, Val: "x"}}, Vars: []model.Var{
				{Name: nm, Vals: []int16{1}, Dims: []string{"d" + nm[1:]}, Attrs: []model.Attr{{Name: nm, Val: int8(1)}}}},
				Groups: []*model.Group{{Name: "g" + nm[1:], Vars: []model.Var{{Name: nm, Vals: int8(3)}}}}}
		})
	}
	// M: many
	many := []int{0, 1, 2, 3, 10, 40, 127, 128, 129, 130, 255, 256, 257, 300}
	if thorough {
		many = append(many, 1000, 1024, 1025)
	}
	for _, n := range many {
		for kind := range 5 {
			emit(fmt.Sprintf("M%d/%d", kind, n), func() *model.Group {
				g := &model.Group{}
				for i := range n {
					name := fmt.Sprintf("k%d", (i*37)%n)
					switch kind {
					case 0:
						g.Attrs = append(g.Attrs, model.Attr{Name: name, Val: int32(i)})
					case 1:
						g.Vars = append(g.Vars, model.Var{Name: name, Vals: []int8{int8(i), 1, 2}, Dims: []string{"x"}})
					case 2:
						g.Vars = append(g.Vars, model.Var{Name: name, Vals: model.Make(model.NumTypes[4], []int{i + 1}, i), Dims: []string{fmt.Sprintf("d%d", i)}})
					case 3:
						g.Vars = append(g.Vars, model.Var{Name: name, Vals: []string{fmt.Sprint(i), "x"}, Dims: []string{"two"}, Attrs: []model.Attr{{Name: "a", Val: []string{"y", fmt.Sprint(-i)}}}})
					case 4:
						g.Groups = append(g.Groups, &model.Group{Name: name, Vars: []model.Var{{Name: "v", Vals: uint16(i)}}})
					}
				}
				return g
			})
		}
	}
	// W: ranks
	for _, r := range Ranks {
		for _, t := range []reflect.Type{model.NumTypes[0], model.NumTypes[3], model.NumTypes[8], model.StringType} {
			if r == 32 && t == model.StringType {
				continue // libhdf5 1.10 divides by zero now and then when it reads these
			}
			for kind := range 3 {
				emit(fmt.Sprintf("W%d/%s", kind, t), func() *model.Group { return grp(Ranked(r, kind, t), model.Var{Name: "tail", Vals: int16(-5)}) })
			}
		}
	}
	// X: extents and lengths around the limits of one and two byte counts
	for _, n := range Lengths {
		for kind := range 6 {
			emit(fmt.Sprintf("X%d/%d", kind, n), func() *model.Group { return Long(n, kind) })
		}
	}
	// L: sizes around limits of the format's fields
	for _, t := range model.NumTypes {
		for _, n := range []int{0, 4090, 4096, 4100} {
			for d := range 3 {
				emit(fmt.Sprintf("L%s/%d", t, n+d), func() *model.Group {
					return grp(model.Var{Name: "big", Vals: model.Make(t, []int{n + d}, 1), Dims: []string{"n"}},
						model.Var{Name: "big2", Vals: model.Make(t, []int{2, n + d}, 2), Dims: []string{"two", "n"}},
						model.Var{Name: "tail", Vals: int16(-5)})
				})
			}
		}
	}
	for _, n := range []int{60000, 65400, 65450, 65480, 65490, 65500, 65510, 65520, 65530, 65535, 65536, 70000, 131072} {
		put := emit
		if n > 65400 {
			put = odd // does not fit into an object header message
		}
		put(fmt.Sprintf("LA%d", n), func() *model.Group {
			return &model.Group{Attrs: []model.Attr{{Name: "a", Val: strings.Repeat("x", n)}}, Vars: []model.Var{{Name: "v", Vals: int8(1), Attrs: []model.Attr{{Name: "b", Val: model.Make(model.NumTypes[0], []int{n}, 1)}}}}}
		})
	}
	heap := []int{65530, 65535, 65536, 66000}
	for _, n := range heap {
		put := emit
		if n > 65000 {
			put = odd
		}
		put(fmt.Sprintf("LH%d", n), func() *model.Group {
			s := make([]string, n)
			for i := range s {
				s[i] = fmt.Sprint("s", i)
			}
			return grp(model.Var{Name: "v", Vals: s, Dims: []string{"n"}})
		})
	}
	for _, n := range []int{60000, 65536, 70000} {
		emit(fmt.Sprintf("LS%d", n), func() *model.Group {
			return grp(model.Var{Name: "v", Vals: []string{strings.Repeat("x", n), "tail"}, Dims: []string{"n"}}, model.Var{Name: "w", Vals: strings.Repeat("y", n)})
		})
		emit(fmt.Sprintf("LV%d", n), func() *model.Group {
			return grp(model.Var{Name: "v", Vals: [][]int8{make([]int8, n), {1}}, Dims: []string{"n"}})
		})
	}
}

func t1(t reflect.Type) any { return model.Make(t, nil, 4) }
