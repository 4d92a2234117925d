package props

import (
	"fmt"
	"slices"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// metaKind is a way of storing links and attributes.
type metaKind struct {
	libver        int
	track, dl, da bool
}

func (k metaKind) String() string {
	s := fmt.Sprintf("libver%d", k.libver)
	if k.track {
		s += " tracked"
	}
	if k.dl {
		s += " dense-links"
	}
	if k.da {
		s += " dense-attributes"
	}
	return s
}

var metaKinds = []metaKind{{0, false, false, false}, {1, false, false, false}, {1, true, false, false}, {1, false, true, true}, {1, true, true, true}}

// metaName is the i-th name, of one of several patterns of lengths.
func metaName(pat string, i int) string {
	n := fmt.Sprintf("%s%d", pat[:1], i*7919%10007)
	l := 0
	switch pat[1:] {
	case "100":
		l = 100
	case "250":
		l = 250
	case "mix":
		l = []int{0, 3, 40, 130, 255, 7, 300, 64}[i%8]
	}
	if l > len(n) {
		n += strings.Repeat("x", l-len(n))
	}
	return n
}

func metaAttrs(n, size int) (as []h5gen.Attr) {
	t := family.HInt(1, true, false)
	for i := range n {
		a := h5gen.Attr{Name: metaName("a", i), T: t, Shape: []int{size}, Salt: i}
		switch {
		case size < 0: // a mixture
			switch i % 5 {
			case 0:
				a.T, a.Shape = family.HInt(4, false, false), nil
			case 1:
				a.Shape = []int{[]int{2, 31, 200, 900, 1300}[i/5%5]}
			case 2:
				a.T, a.Shape = family.HStr(3+i%40, 0), nil
			case 3:
				a.T, a.Shape = family.HVStr(false), []int{2}
			case 4:
				a.T, a.Shape = family.HFloat(8, true), []int{2, 2}
			}
		}
		as = append(as, a)
	}
	return
}

// checkMeta compares all names and attributes of a group, recursively, and the
// values of the datasets.
func checkMeta(c *fw.Ctx, g api.Group, gr *h5gen.Group, ordered bool) string {
	var vars, subs, types []string
	for _, it := range gr.Items {
		switch x := it.(type) {
		case *h5gen.Dataset:
			if !slices.Contains(gr.Del, x.Name) {
				vars = append(vars, x.Name)
			}
		case *h5gen.Group:
			if !slices.Contains(gr.Del, x.Name) {
				subs = append(subs, x.Name)
			}
		case *h5gen.Type:
			if !slices.Contains(gr.Del, x.Named) {
				types = append(types, x.Named)
			}
		}
	}
	cmp := func(what string, got, want []string) string {
		c.Trans(1)
		if !ordered {
			got, want = slices.Clone(got), slices.Clone(want)
			sort.Strings(got)
			sort.Strings(want)
		}
		if !slices.Equal(got, want) {
			return fmt.Sprintf("%s are %s, must be %s", what, clip(fmt.Sprintf("%d %q", len(got), got)), clip(fmt.Sprintf("%d %q", len(want), want)))
		}
		return ""
	}
	if bad := cmp("variables", g.ListVariables(), vars) + cmp("subgroups", g.ListSubgroups(), subs) + cmp("types", g.ListTypes(), types); bad != "" {
		return bad
	}
	attrs := func(am api.AttributeMap, as []h5gen.Attr) string {
		var names []string
		for _, a := range as {
			if !a.Del && !a.Gone {
				names = append(names, a.Name)
			}
		}
		sort.SliceStable(names, func(i, j int) bool { // late ones are made last
			late := func(n string) bool {
				return as[slices.IndexFunc(as, func(a h5gen.Attr) bool { return a.Name == n })].Late
			}
			return !late(names[i]) && late(names[j])
		})
		if bad := cmp("attributes", am.Keys(), names); bad != "" {
			return bad
		}
		return checkAttrs(am, as)
	}
	if bad := attrs(g.Attributes(), gr.Attrs); bad != "" {
		return "group: " + bad
	}
	for _, it := range gr.Items {
		switch x := it.(type) {
		case *h5gen.Dataset:
			if slices.Contains(gr.Del, x.Name) {
				continue
			}
			v, err := g.GetVariable(x.Name)
			if err != nil {
				return fmt.Sprintf("GetVariable(%s): %v", clip(x.Name), err)
			}
			if r := norm(v.Values); r != norm(x.Want()) {
				return fmt.Sprintf("variable %s is %s, must be %s", clip(x.Name), clip(r), clip(norm(x.Want())))
			}
			if bad := attrs(v.Attributes, x.Attrs); bad != "" {
				return "variable " + clip(x.Name) + ": " + bad
			}
			c.Trans(1)
		case *h5gen.Group:
			if slices.Contains(gr.Del, x.Name) {
				continue
			}
			s, err := g.GetGroup(x.Name)
			if err != nil {
				return fmt.Sprintf("GetGroup(%s): %v", clip(x.Name), err)
			}
			if bad := checkMeta(c, s, x, ordered); bad != "" {
				return clip(x.Name) + "/" + bad
			}
			s.Close()
		}
	}
	return ""
}

func metaCase(y fw.Yield, k metaKind, desc string, mk func() *h5gen.Group) {
	fileCase(y, k, desc, func() *h5gen.File { return &h5gen.File{} }, mk)
}

func fileCase(y fw.Yield, k metaKind, desc string, mkFile func() *h5gen.File, mk func() *h5gen.Group) {
	y(func() string { return fmt.Sprintf("%s %s", k, desc) }, func(c *fw.Ctx) {
		root := mk()
		var set func(g *h5gen.Group)
		set = func(g *h5gen.Group) {
			g.Track, g.Dense, g.DenseA = k.track, k.dl, k.da
			for _, it := range g.Items {
				switch x := it.(type) {
				case *h5gen.Group:
					set(x)
				case *h5gen.Dataset:
					x.Track = k.track
					if k.da && x.Dense == 0 {
						x.Dense = 1
					}
				}
			}
		}
		set(root)
		f := mkFile()
		f.Libver, f.Root = k.libver, root
		// The library says that it doesn't support superblock extensions, which tell
		// of such properties, doesn't look for a superblock elsewhere, and reads symbol
		// table nodes of the common size only.
		if f.Space > 0 || f.SymK[1] != 0 && f.SymK[1] != 4 || f.Block > 0 || k.libver > 0 && (f.SymK != [2]int{} || f.IstoreK > 0) {
			b, err := h5gen.Bytes(c.Dir, f)
			if err != nil {
				panic("CHECK BROKEN: " + c.Desc + ": " + err.Error())
			}
			var g api.Group
			if p := obs.Safe(func() { g, err = hdf5.New(family.NewMem(b)) }); p != "" {
				c.Failf("open: %s", p)
				return
			} else if err != nil {
				c.State(1)
				c.Note("unsupported_files_refused", 1)
				return
			}
			g.Close()
		}
		g, b := openH5(c, f)
		if g == nil {
			return
		}
		bad := ""
		if p := obs.Safe(func() { bad = checkMeta(c, g, root, k.track) }); p != "" || bad != "" {
			c.Failf("%s%s", bad, p)
			return
		}
		g.Close()
		c.State(1)
		c.Trace(1)
		c.Sample(c.Desc)
		c.Outcome(string(b[:min(len(b), 4000)]))
	})
}

func init() {
	fw.Register(&fw.Prop{ID: "C28", Level: "model_checking",
		Rule: "files with every bounded number of links and attributes, of several sizes, in every way HDF5 stores them, are written by the reference HDF5 library (also with deletions and late additions) and read by the real reader; the model is the tree that was written",
		Bounds: func(tier string) string {
			return "5 ways of storing (symbol tables, links in headers, tracked, heaps, tracked heaps) x every number of links 0..40 and steps to 700 (thorough 4000) x 4 name length patterns x datasets, groups and committed types; every number of attributes 0..40 and steps to 400 (thorough 2000) x value sizes 1..4000 on a group and a dataset, and heaps of 1 to 5 (9) MB; attributes replaced by smaller and larger ones; comments of 1..40 bytes; 8 estimates x 7 limits of groups x 0..40 links x deletions; every subset of deletions from 6 links and 6 attributes, deletions of every position and of whole ranges from 30; attributes added before and after everything else in every split of 12; one further hard link to a dataset, a group, a member of a group or the root, with each of 4 names, in 2 groups at every position; 10 sizes of symbol table nodes x numbers of links, 5 free-space strategies, pages, node sizes of chunk indexes, shared messages, user blocks (a file may be refused, what is read must be right); 288 files with the messages of each object header in all orders (of up to 5, thorough 7, messages; beyond that one moved or two swapped), and, in the newer formats, every subset of the messages in one or two nested continuations, told of at every place; headers without times, 0..12 attributes of 4 sizes"
		},
		Assumptions: []string{"libhdf5 1.10 writes the members it is given", "heap objects too large for a heap block (attributes of more than 4096 bytes in dense storage) are outside of what the library supports"},
		Enumerate: func(tier string, y fw.Yield) {
			thorough := tier == "thorough"
			orderCases(thorough, y)
			i2 := family.HInt(2, false, false)
			ds := func(name string, i int) *h5gen.Dataset {
				return &h5gen.Dataset{Name: name, T: i2, Shape: []int{1 + i%3}, Layout: 'C', All: true, Salt: i}
			}
			var ns []int
			for n := 0; n <= 40; n++ {
				ns = append(ns, n)
			}
			ns = append(ns, 44, 45, 46, 63, 64, 65, 90, 91, 127, 128, 129, 135, 200, 255, 256, 257, 258, 300, 520, 700)
			if thorough {
				ns = append(ns, 1100, 1300, 2100, 4000)
			}
			for _, k := range metaKinds {
				ns := ns
				if k.dl {
					ns = append(slices.Clone(ns), 2200, 4400) // heaps with indirect blocks
				}
				for _, n := range ns {
					for pi, pat := range []string{"l", "l100", "l250", "lmix"} {
						if !thorough && (n > 300 && n <= 2200 && pi%2 == 0 && k.track || n > 2000 && pi != 2) {
							continue
						}
						metaCase(y, k, fmt.Sprintf("%d links named %s", n, pat), func() *h5gen.Group {
							g := &h5gen.Group{}
							for i := range n {
								name := metaName(pat, i)
								switch {
								case i%11 == 3:
									g.Items = append(g.Items, &h5gen.Group{Name: name, Items: []any{ds("v", i)}})
								case i%13 == 5:
									g.Items = append(g.Items, &h5gen.Type{Class: h5gen.Opaque, Size: 3, Tag: "t", Named: name})
								default:
									g.Items = append(g.Items, ds(name, i))
								}
							}
							return g
						})
					}
				}
				as := slices.Clone(ns[:41])
				as = append(as, 45, 46, 47, 60, 61, 90, 130, 160, 200, 400)
				if thorough {
					as = append(as, 1000, 2000)
				}
				for _, n := range as {
					for _, size := range []int{2, 60, 1000, 3900, -1} {
						if n*size > 400000 && n*size != 160*3900 && !thorough || k.libver == 0 && size == 3900 && n > 16 {
							continue
						}
						metaCase(y, k, fmt.Sprintf("%d attributes of size %d", n, size), func() *h5gen.Group {
							d := ds("v", 1)
							d.Attrs = metaAttrs(n, size)
							return &h5gen.Group{Attrs: metaAttrs(n, size), Items: []any{d, &h5gen.Group{Name: "g", Attrs: metaAttrs(n, 5)}}}
						})
					}
				}
				if k.da { // heaps with several rows of indirect blocks, and with indirect blocks in those
					for _, n := range []int{262, 280, 330, 420, 530, 700, 1160, 1250, 2300} {
						if n > 1250 && !thorough {
							continue
						}
						metaCase(y, k, fmt.Sprintf("%d attributes of size 3900", n), func() *h5gen.Group {
							return &h5gen.Group{Attrs: metaAttrs(n, 3900), Items: []any{ds("v", 1)}}
						})
					}
				}
				// attributes in every split between early and late
				for n := 0; n <= 12; n++ {
					for late := 0; late <= n; late++ {
						metaCase(y, k, fmt.Sprintf("%d attributes, the last %d late", n, late), func() *h5gen.Group {
							d := ds("v", 1)
							d.Attrs = metaAttrs(n, -1)
							g := &h5gen.Group{Attrs: metaAttrs(n, -1), Items: []any{d, ds("w", 2)}}
							for i := n - late; i < n; i++ {
								d.Attrs[i].Late, g.Attrs[i].Late = true, true
							}
							return g
						})
					}
				}
				// an attribute gives its place to another one, of the same size or smaller
				// (which leaves a gap in the header) or larger
				for _, which := range []int{0, 1, 2} {
					for _, was := range []int{1, 2, 8, 9, 40, 41, 300} {
						for d := -26; d <= 9; d++ {
							now := was + d
							if now < 0 {
								continue
							}
							metaCase(y, k, fmt.Sprintf("attribute %d of %d bytes replaced by one of %d", which, was, now), func() *h5gen.Group {
								t := family.HInt(1, true, false)
								as := func() []h5gen.Attr {
									as := []h5gen.Attr{{Name: "a", T: t, Shape: []int{3}}, {Name: "b", T: t, Shape: []int{5}, Salt: 2}, {Name: "c", T: t, Shape: []int{6}, Salt: 4}}
									as[which].Shape, as[which].Gone = []int{was}, true
									return append(as, h5gen.Attr{Name: "d", T: t, Shape: []int{now}, Late: true, Salt: 9})
								}
								d := ds("v", 1)
								d.Attrs = as()
								return &h5gen.Group{Attrs: as(), Items: []any{d, &h5gen.Group{Name: "g", Attrs: as()}, ds("w", 2)}}
							})
						}
					}
				}
				// headers with and without times, of sizes that need 1 and 2 bytes
				for n := 0; n <= 12; n++ {
					for _, size := range []int{1, 40, 300, 3900} {
						for _, no := range []bool{false, true} {
							if size*n > 30000 && k.libver == 0 {
								continue
							}
							fileCase(y, k, fmt.Sprintf("%d attributes of %d bytes, no times: %v", n, size, no), func() *h5gen.File { return &h5gen.File{NoTimes: no} }, func() *h5gen.Group {
								d := ds("v", 1)
								d.Attrs = metaAttrs(n, size)
								return &h5gen.Group{Attrs: metaAttrs(n, size), Items: []any{d, &h5gen.Group{Name: "g", Attrs: metaAttrs(n, size), Items: []any{ds("w", 2)}}}}
							})
						}
					}
				}
				// properties of the file
				for _, sym := range [][2]int{{}, {1, 4}, {2, 4}, {3, 4}, {5, 4}, {40, 4}, {500, 4}, {1, 1}, {2, 3}, {3, 40}} {
					for space := range 9 {
						for _, page := range []int{0, 512, 4096, 65536} {
							for _, ik := range []int{0, 2, 100} {
								for _, bl := range []int{0, 512} {
									if page > 0 && space%4 != 2 || sym != [2]int{} && (space > 2 || ik > 0) || bl > 0 && space > 0 {
										continue
									}
									fileCase(y, k, fmt.Sprintf("symbol nodes %v, space strategy %d, pages %d, chunk nodes %d, user block %d", sym, space, page, ik, bl),
										func() *h5gen.File {
											return &h5gen.File{SymK: sym, Space: space, Page: page, IstoreK: ik, Block: bl}
										}, func() *h5gen.Group {
											g := &h5gen.Group{Attrs: metaAttrs(3, -1)}
											for i := range 45 {
												d := ds(metaName("lmix", i), i)
												if i%3 == 0 {
													d.Shape, d.Layout, d.Chunk = []int{9, 4}, 'H', []int{1, 3}
												}
												d.Attrs = metaAttrs(i%12, -1)
												g.Items = append(g.Items, d)
												if i%9 == 4 {
													g.Items = append(g.Items, &h5gen.Group{Name: fmt.Sprint("g", i), Items: []any{ds("v", i)}})
												}
											}
											g.Del = []string{metaName("lmix", 7), metaName("lmix", 30)}
											return g
										})
								}
							}
						}
					}
				}
				// comments
				for n := 1; n <= 40; n++ {
					metaCase(y, k, fmt.Sprintf("comments of %d bytes", n), func() *h5gen.Group {
						d, cm := ds("v", 1), strings.Repeat("comment ", n)[:n]
						d.Comment, d.Attrs = cm, metaAttrs(n%4, -1)
						return &h5gen.Group{Comment: cm, Attrs: metaAttrs(n%3, -1), Items: []any{d, &h5gen.Group{Name: "g", Comment: cm[:n/2], Attrs: metaAttrs(2, 5)}}}
					})
				}
				// what the group was made for
				if k.libver > 0 && !k.dl {
					for _, est := range [][2]int{{}, {1, 1}, {0, 8}, {4, 9}, {20, 3}, {300, 30}, {1, 65535}, {65535, 1}} {
						for _, ph := range [][2]int{{}, {1, 1}, {3, 2}, {2, 0}, {12, 4}, {300, 280}, {65535, 0}} {
							for _, n := range []int{0, 1, 2, 3, 4, 9, 40} {
								for gone := range min(n, 4) {
									metaCase(y, k, fmt.Sprintf("groups for %v links, limits %v, with %d, then %d fewer", est, ph, n, gone), func() *h5gen.Group {
										mk := func(name string) *h5gen.Group {
											g := &h5gen.Group{Name: name, Est: est, Phase: ph, Attrs: metaAttrs(2, 5)}
											for i := range n {
												g.Items = append(g.Items, ds(metaName("l", i), i))
												if i < gone {
													g.Del = append(g.Del, metaName("l", i))
												}
											}
											return g
										}
										r := mk("")
										r.Items = append(r.Items, mk("g"))
										return r
									})
								}
							}
						}
					}
				}
				// further links to an object, or to a group around, made at every place
				// among the members
				for _, to := range []string{"/b", "/m", "/m/p", "/"} {
					for _, name := range []string{"a", "bb", "mm", "z"} {
						for _, in := range []string{"", "m"} {
							for at := range 5 {
								c28link(y, k, to, name, in, at, ds)
							}
						}
					}
				}
				// deletions
				del := func(desc string, n int, gone func(i int) bool) {
					metaCase(y, k, fmt.Sprintf("%d members, %s deleted", n, desc), func() *h5gen.Group {
						d := ds("v", 1)
						d.Attrs = metaAttrs(n, -1)
						sub := &h5gen.Group{Name: "sub"}
						g := &h5gen.Group{Attrs: metaAttrs(n, -1), Items: []any{d, sub}}
						for i := range n {
							d.Attrs[i].Del, g.Attrs[i].Del = gone(i), gone(i)
							sub.Items = append(sub.Items, ds(metaName("lmix", i), i))
							if gone(i) {
								sub.Del = append(sub.Del, metaName("lmix", i))
							}
						}
						return g
					})
				}
				for m := range 1 << 6 {
					del(fmt.Sprintf("%06b", m), 6, func(i int) bool { return m>>i&1 == 1 })
				}
				for _, n := range []int{10, 30} {
					for i := range n {
						del(fmt.Sprint(i), n, func(x int) bool { return x == i })
						if i%3 == 0 || thorough {
							del(fmt.Sprintf("0..%d", i), n, func(x int) bool { return x <= i })
							del(fmt.Sprintf("%d..", i), n, func(x int) bool { return x >= i })
							del(fmt.Sprintf("multiples of %d", i+2), n, func(x int) bool { return x%(i+2) == 0 })
						}
					}
				}
			}
		}})
}

// c28link makes one further link to an object. The library lists each object under
// one of its names only; the others must all be there, and nothing may be read twice
// for ever.
func c28link(y fw.Yield, k metaKind, to, name, in string, at int, ds func(string, int) *h5gen.Dataset) {
	y(func() string { return fmt.Sprintf("%s a link %s/%s to %s, member %d", k, in, name, to, at) }, func(c *fw.Ctx) {
		// the members of m have the same names at other places in it
		m := &h5gen.Group{Name: "m", Track: k.track, Dense: k.dl, Items: []any{ds("p", 3), ds("bc", 4), ds("x", 5), &h5gen.Group{Name: "q", Items: []any{ds("b", 6)}}}}
		root := &h5gen.Group{Track: k.track, Dense: k.dl, Items: []any{ds("b", 1), m, ds("c", 2), ds("y", 8)}}
		l := &h5gen.Link{Name: name, To: to}
		where := root
		if in == "m" {
			where = m
		}
		if at > len(where.Items) || to != "/" && where == root && at < 2 {
			return // the target isn't there yet
		}
		if where == m && at < 1 && to == "/m/p" {
			return
		}
		where.Items = slices.Insert(where.Items, at, any(l))
		g, b := openH5(c, &h5gen.File{Libver: k.libver, Root: root})
		if g == nil {
			return
		}
		defer g.Close()
		got := map[string]string{}
		var walk func(g api.Group, path string)
		walk = func(g api.Group, path string) {
			for _, n := range g.ListVariables() {
				v, err := g.GetVariable(n)
				if err != nil {
					c.Failf("GetVariable(%s%s): %v", path, n, err)
					return
				}
				got[path+n] = norm(v.Values)
			}
			for _, n := range g.ListSubgroups() {
				s, err := g.GetGroup(n)
				if err != nil {
					c.Failf("GetGroup(%s%s): %v", path, n, err)
					return
				}
				walk(s, path+n+"/")
				s.Close()
			}
		}
		if p := obs.Safe(func() { walk(g, "/") }); p != "" {
			c.Failf("%s", p)
		}
		if c.Failed() {
			return
		}
		link := "/" + name
		if in != "" {
			link = "/" + in + link
		}
		for p, d := range map[string]*h5gen.Dataset{"/b": ds("b", 1), "/c": ds("c", 2), "/y": ds("y", 8), "/m/p": ds("p", 3), "/m/bc": ds("bc", 4), "/m/x": ds("x", 5), "/m/q/b": ds("b", 6)} {
			c.Trans(1)
			r, ok := got[p]
			if !ok && to != "/" && strings.HasPrefix(p+"/", to+"/") {
				p = link + strings.TrimPrefix(p, to)
				r, ok = got[p]
			}
			if !ok {
				c.Failf("variable %s isn't there: there are %s", p, clip(fmt.Sprint(len(got), got)))
			} else if w := norm(d.Want()); r != w {
				c.Failf("variable %s is %s, must be %s", p, clip(r), clip(w))
			}
			delete(got, p)
		}
		for p := range got {
			if !strings.HasPrefix(p+"/", link+"/") {
				c.Failf("there's a variable %s", p)
			}
		}
		c.State(1)
		c.Trace(1)
		c.Outcome(string(b[:min(len(b), 4000)]))
	})
}
