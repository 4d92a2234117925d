package family

import (
	"fmt"
	"strings"

	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
)

// FileOf is a lazily made classic-family file.
type YieldFile func(desc string, mk func() (*cdfspec.File, cdfspec.Options))

// elements makes n distinct stored elements of a type.
func elements(t, n, salt int) []byte {
	if t == cdfspec.Char {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('A' + (i*7+salt*11)%57)
		}
		return b
	}
	return cdfspec.Raw(model.Make(cdfspec.GoType(t), []int{n}, salt))
}

// VSpec describes one variable of a generated file.
type VSpec struct {
	Type  int
	Rec   bool
	Inner []int64
	Attrs []cdfspec.Attr
}

func (v VSpec) String() string {
	s := fmt.Sprint("t", v.Type)
	if v.Rec {
		s += "rec"
	}
	return s + strings.ReplaceAll(fmt.Sprint(v.Inner), " ", "x")
}

// MakeFile lays out a file with a record dimension "time" when one is needed.
func MakeFile(version int, numRecs int64, vs []VSpec) *cdfspec.File {
	f := &cdfspec.File{Version: version}
	dim := func(name string, n int64) int {
		for i, d := range f.Dims {
			if d.Name == name {
				return i
			}
		}
		f.Dims = append(f.Dims, cdfspec.Dim{Name: name, Len: n})
		return len(f.Dims) - 1
	}
	for i, v := range vs {
		fv := cdfspec.Var{Name: fmt.Sprintf("v%d", i), Type: v.Type, Attrs: v.Attrs}
		n := int64(1)
		if v.Rec {
			f.NumRecs = numRecs
			fv.DimIDs = append(fv.DimIDs, dim("time", 0))
			n = numRecs
		}
		for _, l := range v.Inner {
			fv.DimIDs = append(fv.DimIDs, dim(fmt.Sprint("d", l), l))
			n *= l
		}
		fv.Data = elements(v.Type, int(n), i+1)
		f.Vars = append(f.Vars, fv)
	}
	return f
}

// TypesOf a version.
func TypesOf(version int) []int {
	n := cdfspec.Double
	if version == 5 {
		n = cdfspec.UInt64
	}
	ts := []int{}
	for t := 1; t <= n; t++ {
		ts = append(ts, t)
	}
	return ts
}

var innerShapes = [][]int64{{}, {1}, {2}, {3}, {4}, {5}, {7}, {1, 1}, {2, 3}, {3, 2}, {3, 3}, {1, 3}, {3, 1}, {5, 1}, {2, 3, 2}, {1, 3, 1}, {3, 1, 3}, {2, 2, 2, 2}, {3, 1, 1, 2}}

// CDFFiles enumerates well-formed classic-family files.
func CDFFiles(thorough bool, y YieldFile) {
	versions := []int{1, 2, 5}
	nrs := []int64{0, 1, 2, 3}
	if thorough {
		nrs = append(nrs, 4, 5, 7)
	}
	emit := func(desc string, mk func() *cdfspec.File) {
		y(desc, func() (*cdfspec.File, cdfspec.Options) { return mk(), cdfspec.Options{} })
	}
	// V: one variable
	for _, ver := range versions {
		for _, t := range TypesOf(ver) {
			for _, in := range innerShapes {
				v := VSpec{Type: t, Inner: in}
				emit(fmt.Sprintf("V%d %v", ver, v), func() *cdfspec.File { return MakeFile(ver, 0, []VSpec{v}) })
				v.Rec = true
				for _, nr := range nrs {
					emit(fmt.Sprintf("V%d nr%d %v", ver, nr, v), func() *cdfspec.File { return MakeFile(ver, nr, []VSpec{v}) })
				}
			}
		}
	}
	// X: extreme values, all characters
	for _, ver := range versions {
		for _, t := range TypesOf(ver) {
			var raw []byte
			if t == cdfspec.Char {
				for b := range 256 {
					raw = append(raw, byte(b))
				}
			} else {
				for _, e := range model.Extremes(cdfspec.GoType(t)) {
					raw = append(raw, cdfspec.Raw(e)...)
				}
			}
			n := len(raw) / cdfspec.Size(t)
			for i := range n + 1 {
				emit(fmt.Sprintf("X%d t%d #%d", ver, t, i), func() *cdfspec.File {
					if i == n {
						f := MakeFile(ver, int64(n), []VSpec{{Type: t, Inner: []int64{int64(n)}}, {Type: t, Rec: true}})
						f.Vars[0].Data, f.Vars[1].Data = raw, raw
						f.Attrs = []cdfspec.Attr{{Name: "a", Type: t, N: int64(n), Data: raw}}
						return f
					}
					f := MakeFile(ver, 1, []VSpec{{Type: t}, {Type: t, Rec: true}, {Type: t, Rec: true, Inner: []int64{1}}})
					b := raw[i*cdfspec.Size(t) : (i+1)*cdfspec.Size(t)]
					for k := range f.Vars {
						f.Vars[k].Data = b
					}
					f.Attrs = []cdfspec.Attr{{Name: "a", Type: t, N: 1, Data: b}}
					return f
				})
			}
		}
	}
	// W: pairs
	shapes := []VSpec{{}, {Inner: []int64{3}}, {Rec: true}, {Rec: true, Inner: []int64{3}}, {Rec: true, Inner: []int64{2, 2}}}
	if thorough {
		shapes = append(shapes, VSpec{Inner: []int64{3, 3}}, VSpec{Rec: true, Inner: []int64{5}})
	}
	specs := func(ver int, types []int, sh []VSpec) []VSpec {
		var out []VSpec
		for _, t := range types {
			for _, s := range sh {
				s.Type = t
				out = append(out, s)
			}
		}
		return out
	}
	for _, ver := range versions {
		al := specs(ver, TypesOf(ver), shapes)
		for _, a := range al {
			for _, b := range al {
				for _, nr := range nrs {
					if nr != 0 && !a.Rec && !b.Rec {
						continue
					}
					emit(fmt.Sprintf("W%d nr%d %v %v", ver, nr, a, b), func() *cdfspec.File { return MakeFile(ver, nr, []VSpec{a, b}) })
				}
			}
		}
	}
	// T: triples
	for _, ver := range versions {
		types := []int{cdfspec.Char, cdfspec.Short, cdfspec.Int, cdfspec.Double}
		if ver == 5 {
			types = append(types, cdfspec.UByte)
		}
		al := specs(ver, types, []VSpec{{Inner: []int64{3}}, {Rec: true}, {Rec: true, Inner: []int64{3}}})
		for _, a := range al {
			for _, b := range al {
				for _, c := range al {
					for _, nr := range []int64{0, 1, 3} {
						if nr != 0 && !a.Rec && !b.Rec && !c.Rec {
							continue
						}
						emit(fmt.Sprintf("T%d nr%d %v %v %v", ver, nr, a, b, c), func() *cdfspec.File { return MakeFile(ver, nr, []VSpec{a, b, c}) })
					}
				}
			}
		}
	}
	// A: attributes
	for _, ver := range versions {
		var attrs []cdfspec.Attr
		for _, t := range TypesOf(ver) {
			for n := range 6 {
				attrs = append(attrs, cdfspec.Attr{Type: t, N: int64(n), Data: elements(t, n, n+t)})
			}
		}
		named := func(a cdfspec.Attr, n string) cdfspec.Attr { a.Name = n; return a }
		for _, a := range attrs {
			for _, b := range attrs {
				emit(fmt.Sprintf("A%d t%d*%d t%d*%d", ver, a.Type, a.N, b.Type, b.N), func() *cdfspec.File {
					f := MakeFile(ver, 2, []VSpec{{Type: cdfspec.Short, Rec: true, Attrs: []cdfspec.Attr{named(b, "zz"), named(a, "b"), named(b, "a")}},
						{Type: cdfspec.Int, Attrs: []cdfspec.Attr{named(a, "x")}}})
					f.Attrs = []cdfspec.Attr{named(a, "second"), named(b, "first")}
					return f
				})
			}
		}
	}
	// D: every placement of the record dimension and of unused dimensions, gaps
	for _, ver := range versions {
		for pos := range 5 {
			for _, nr := range []int64{0, 2} {
				for use := range 3 {
					for variant, gap := range []int{0, 4, 100, 8192, 0, 0, 0} {
						o := cdfspec.Options{HeaderGap: gap}
						if variant > 3 {
							// the format's documentation calls the stored sizes redundant
							o.BadVSize, o.VSize = true, []int64{0, 12, 1<<31 - 4}[variant-4]
						}
						y(fmt.Sprintf("D%d pos%d nr%d use%d gap%d variant%d", ver, pos, nr, use, gap, variant), func() (*cdfspec.File, cdfspec.Options) {
							f := &cdfspec.File{Version: ver, NumRecs: nr}
							for i := range 4 {
								if i == pos {
									f.Dims = append(f.Dims, cdfspec.Dim{Name: "t", Len: 0})
								}
								f.Dims = append(f.Dims, cdfspec.Dim{Name: fmt.Sprint("x", i), Len: int64(i + 1)})
							}
							if pos == 4 {
								f.Dims = append(f.Dims, cdfspec.Dim{Name: "t", Len: 0})
							}
							rec := 0
							for i, d := range f.Dims {
								if d.Len == 0 {
									rec = i
								}
							}
							if use > 0 {
								f.Vars = append(f.Vars, cdfspec.Var{Name: "r", Type: cdfspec.Short, DimIDs: []int{rec}, Data: elements(cdfspec.Short, int(nr), 3)})
							} else {
								f.NumRecs = 0
							}
							other := (rec + 1) % len(f.Dims)
							n := int(f.Dims[other].Len)
							f.Vars = append(f.Vars, cdfspec.Var{Name: "fixed", Type: cdfspec.Int, DimIDs: []int{other, other}, Data: elements(cdfspec.Int, n*n, 4)})
							if use > 1 {
								f.Vars = append(f.Vars, cdfspec.Var{Name: "r2", Type: cdfspec.Byte, DimIDs: []int{rec, other}, Data: elements(cdfspec.Byte, int(nr)*n, 5)})
							}
							return f, o
						})
					}
				}
			}
		}
	}
	// N: names
	names := []string{"é", "世界", "a b", "_x", "_dimid_0", "A-B", "p.q+r", "x(1)", "~", "1"}
	for i := 1; i <= 9; i++ {
		names = append(names, nameOf('k', i))
	}
	for _, n := range []int{127, 128, 255, 256, 300} {
		names = append(names, nameOf('k', n))
	}
	for _, ver := range versions {
		for _, a := range names {
			for _, b := range names {
				if a == b || len(a) > 256 || len(b) > 256 { // NC_MAX_NAME
					continue
				}
				emit(fmt.Sprintf("N%d %q %q", ver, a, b), func() *cdfspec.File {
					f := MakeFile(ver, 1, []VSpec{{Type: cdfspec.Short, Rec: true, Attrs: []cdfspec.Attr{{Name: b, Type: cdfspec.Byte, N: 1, Data: []byte{1}}, {Name: a, Type: cdfspec.Char, N: 1, Data: []byte{65}}}}, {Type: cdfspec.Byte, Inner: []int64{3}}})
					f.Dims[0].Name, f.Dims[1].Name = a, b
					f.Vars[0].Name, f.Vars[1].Name = b, a
					f.Attrs = []cdfspec.Attr{{Name: b, Type: cdfspec.Char, N: 2, Data: []byte("xy")}, {Name: a, Type: cdfspec.Short, N: 1, Data: []byte{1, 2}}}
					return f
				})
			}
		}
	}
	// M: many records and variables (buffer boundaries)
	for _, ver := range versions {
		for _, nr := range []int64{100, 1500, 4100} {
			for _, t := range TypesOf(ver) {
				emit(fmt.Sprintf("M%d nr%d t%d", ver, nr, t), func() *cdfspec.File {
					return MakeFile(ver, nr, []VSpec{{Type: t, Rec: true, Inner: []int64{3}}, {Type: cdfspec.Byte, Rec: true}, {Type: t, Inner: []int64{3}}})
				})
				emit(fmt.Sprintf("M%d one nr%d t%d", ver, nr, t), func() *cdfspec.File {
					return MakeFile(ver, nr, []VSpec{{Type: t, Rec: true, Inner: []int64{5}}})
				})
			}
		}
		for _, nv := range []int{0, 10, 127, 128, 200, 255, 256, 257, 1025} {
			emit(fmt.Sprintf("M%d nv%d", ver, nv), func() *cdfspec.File {
				var vs []VSpec
				for i := range nv {
					vs = append(vs, VSpec{Type: TypesOf(ver)[i%6], Rec: i%3 == 0, Inner: []int64{int64(i%4 + 1)}})
				}
				return MakeFile(ver, 3, vs)
			})
		}
	} // O: ranks, up to netCDF's highest
	for _, ver := range versions {
		for _, r := range []int{6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 255, 256, 1023} {
			for kind := range 4 {
				for _, t := range []int{cdfspec.Char, cdfspec.Short, cdfspec.Double} {
					emit(fmt.Sprintf("O%d rank%d kind%d t%d", ver, r, kind, t), func() *cdfspec.File {
						in := make([]int64, r)
						for i := range in {
							in[i] = 1
						}
						if kind%2 == 0 {
							in[0], in[r-1] = 2, 3
						} else {
							in[r/2], in[r/2+1] = 2, 3
						}
						return MakeFile(ver, 2, []VSpec{{Type: t, Rec: kind > 1, Inner: in}, {Type: cdfspec.Byte, Rec: true}, {Type: cdfspec.Int}})
					})
				}
			}
		}
	}
	// P: extents and counts around the limits of one and two byte counts
	for _, ver := range versions {
		for _, n := range []int64{126, 127, 128, 129, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537} {
			for _, t := range []int{cdfspec.Byte, cdfspec.Char, cdfspec.Short, cdfspec.Float} {
				emit(fmt.Sprintf("P%d extent%d t%d", ver, n, t), func() *cdfspec.File {
					return MakeFile(ver, 2, []VSpec{{Type: t, Inner: []int64{n}}, {Type: t, Inner: []int64{2, n}}, {Type: t, Rec: true, Inner: []int64{n}}, {Type: cdfspec.Int}, {Type: cdfspec.Byte, Rec: true}})
				})
				emit(fmt.Sprintf("P%d records%d t%d", ver, n, t), func() *cdfspec.File {
					return MakeFile(ver, n, []VSpec{{Type: t, Rec: true}, {Type: cdfspec.Short, Rec: true, Inner: []int64{2}}, {Type: t, Inner: []int64{3}}})
				})
				emit(fmt.Sprintf("P%d attribute%d t%d", ver, n, t), func() *cdfspec.File {
					f := MakeFile(ver, 1, []VSpec{{Type: cdfspec.Short, Attrs: []cdfspec.Attr{{Name: "a", Type: t, N: n, Data: elements(t, int(n), 3)}, {Name: "b", Type: cdfspec.Byte, N: 1, Data: []byte{7}}}}, {Type: cdfspec.Byte, Rec: true}})
					f.Attrs = []cdfspec.Attr{{Name: "z", Type: t, N: n, Data: elements(t, int(n), 4)}, {Name: "b", Type: cdfspec.Byte, N: 1, Data: []byte{8}}}
					return f
				})
				if n > 1000 || t > cdfspec.Char {
					continue
				}
				emit(fmt.Sprintf("P%d attributes%d", ver, n), func() *cdfspec.File {
					var at []cdfspec.Attr
					for i := range n {
						at = append(at, cdfspec.Attr{Name: fmt.Sprint("k", (i*37)%n), Type: t, N: 1 + i%3, Data: elements(t, int(1+i%3), int(i))})
					}
					f := MakeFile(ver, 1, []VSpec{{Type: cdfspec.Short, Attrs: at}, {Type: cdfspec.Byte, Rec: true}})
					f.Attrs = at
					return f
				})
				emit(fmt.Sprintf("P%d dimensions%d", ver, n), func() *cdfspec.File {
					vs := []VSpec{{Type: t, Rec: true}}
					for i := range n {
						vs = append(vs, VSpec{Type: t, Inner: []int64{i + 1}})
					}
					return MakeFile(ver, 1, vs)
				})
			}
		}
	}
}
