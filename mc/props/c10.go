package props

import (
	"fmt"
	"reflect"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// scribble overwrites everything a caller can reach in a value that was returned.
func scribble(v any) {
	var f func(rv reflect.Value)
	f = func(rv reflect.Value) {
		switch rv.Kind() {
		case reflect.Slice, reflect.Array:
			for i := range rv.Len() {
				f(rv.Index(i))
				if rv.Index(i).CanSet() {
					rv.Index(i).SetZero()
				}
			}
		case reflect.Interface, reflect.Pointer:
			if !rv.IsNil() {
				f(rv.Elem())
			}
		case reflect.Struct:
			for i := range rv.NumField() {
				f(rv.Field(i))
			}
		}
	}
	if v == nil {
		return
	}
	if am, ok := v.(api.AttributeMap); ok {
		for _, k := range am.Keys() {
			if v, has := am.Get(k); has {
				scribble(v)
			}
		}
		scribble(am.Keys())
		return
	}
	f(reflect.ValueOf(v))
}

type c10kept struct {
	v    any
	text string
	from string
}

// c10run runs a sequence of calls on one handle (or alternately on two handles of the file)
// and compares every answer with the one on a fresh file.
func c10run(c *fw.Ctx, b []byte, calls []call, want []string, seq []int, two, scrib bool) bool {
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	hs := []api.Group{g}
	if two {
		h, err := g.GetGroup("/")
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		hs = append(hs, h)
	}
	defer func() {
		for _, h := range hs {
			h.Close()
		}
	}()
	var kept []c10kept
	c.State(1)
	for n, i := range seq {
		x := calls[i]
		c.Trans(1)
		first := len(kept)
		a, _ := x.run(hs[n%len(hs)], func(v any) { kept = append(kept, c10kept{v: v, from: x.name}) })
		c.Trace(1)
		if a != want[i] {
			before := ""
			for _, k := range seq[:n] {
				before += calls[k].name + "; "
			}
			c.Failf("%s after %s(two handles: %v, overwritten: %v)\n    want: %s\n    got:  %s", x.name, before, two, scrib, clip(want[i]), clip(a))
			return false
		}
		if scrib {
			for _, k := range kept[first:] {
				scribble(k.v)
			}
			continue
		}
		for k := range kept {
			t := renderKept(kept[k].v)
			if k >= first {
				kept[k].text = t
			} else if t != kept[k].text {
				c.Failf("%s changed what %s had returned\n    from: %s\n    to:   %s", x.name, kept[k].from, clip(kept[k].text), clip(t))
				return false
			}
		}
	}
	return true
}

// c10getters keeps a getter of every variable while another call is made.
func c10getters(c *fw.Ctx, b []byte, calls []call, want []string) {
	render := func(vg api.VarGetter) string {
		s := ""
		p := obs.Safe(func() {
			v, err := vg.Values()
			s = obs.Render(v) + fmt.Sprint(err != nil)
			v, err = vg.GetSlice(0, min(1, vg.Len()))
			s += obs.Render(v) + fmt.Sprint(err != nil, vg.Dimensions(), vg.Shape(), vg.Len(), vg.Type(), vg.GoType()) + obs.Attrs(vg.Attributes(), true)
		})
		return s + p
	}
	type kept struct {
		name string
		vg   api.VarGetter
	}
	getters := func(g api.Group) (out []kept) {
		var paths []string
		groupPaths(g, "/", 0, &paths)
		for _, p := range paths {
			sg, err := g.GetGroup(p)
			if err != nil {
				continue
			}
			for _, n := range sg.ListVariables() {
				if vg, err := sg.GetVarGetter(n); err == nil {
					out = append(out, kept{p + " " + n, vg})
				}
			}
		}
		return out
	}
	fresh := map[string]string{}
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	for _, k := range getters(g) {
		fresh[k.name] = render(k.vg)
	}
	for i, x := range calls {
		g, err := netcdf.New(family.NewMem(b))
		if err != nil {
			panic("CHECK BROKEN: " + err.Error())
		}
		vgs := getters(g)
		c.State(1)
		c.Trans(1 + len(vgs))
		if a, _ := x.run(g, noKeep); a != want[i] {
			c.Failf("%s after making getters\n    want: %s\n    got:  %s", x.name, clip(want[i]), clip(a))
			return
		}
		for _, k := range vgs {
			c.Trace(1)
			if a := render(k.vg); a != fresh[k.name] {
				c.Failf("getter of %s, made before %s\n    want: %s\n    got:  %s", k.name, x.name, clip(fresh[k.name]), clip(a))
				return
			}
		}
	}
}

// c10request is a request that can be made of a getter.
type c10request struct {
	name string
	run  func(vg api.VarGetter) (any, error)
}

// c10requests lists the requests made of a getter of some shape.
func c10requests(shape []int64, length int64) (out []c10request) {
	add := func(name string, f func(vg api.VarGetter) (any, error)) { out = append(out, c10request{name, f}) }
	add("Values", func(vg api.VarGetter) (any, error) { return vg.Values() })
	add("description", func(vg api.VarGetter) (any, error) {
		return fmt.Sprintf("%s %s %d %v %q %s", vg.Type(), vg.GoType(), vg.Len(), vg.Shape(), vg.Dimensions(), obs.Attrs(vg.Attributes(), true)), nil
	})
	slice := func(b, e int64) {
		add(fmt.Sprintf("GetSlice %d,%d", b, e), func(vg api.VarGetter) (any, error) { return vg.GetSlice(b, e) })
	}
	ends := []int64{0, 1, length / 2, length - 1, length}
	var at []int64
	for i, e := range ends {
		if e >= 0 && e <= length && (i == 0 || e > at[len(at)-1]) {
			at = append(at, e)
		}
	}
	for i, b := range at {
		for _, e := range at[i:] {
			slice(b, e)
		}
	}
	slice(0, length+1)
	slice(-1, 1)
	slice(1, 0)
	md := func(f func(n int64) (int64, int64)) {
		b, e := make([]int64, len(shape)), make([]int64, len(shape))
		for i, n := range shape {
			b[i], e[i] = f(n)
		}
		add(fmt.Sprintf("GetSliceMD %v,%v", b, e), func(vg api.VarGetter) (any, error) {
			return vg.GetSliceMD(append([]int64{}, b...), append([]int64{}, e...))
		})
	}
	if len(shape) > 0 {
		md(func(n int64) (int64, int64) { return 0, n })
		md(func(n int64) (int64, int64) { return 0, min(1, n) })
		md(func(n int64) (int64, int64) { return max(0, n-1), n })
		md(func(n int64) (int64, int64) { return n / 2, n })
		md(func(n int64) (int64, int64) { return 0, n + 1 })
	}
	return out
}

// c10sameGetter makes every sequence of requests of one getter: each must be answered as it
// is by a getter of which nothing else was asked.
func c10sameGetter(c *fw.Ctx, b []byte, depth int, scrib bool) {
	g, err := netcdf.New(family.NewMem(b))
	if err != nil {
		panic("CHECK BROKEN: " + err.Error())
	}
	defer g.Close()
	var paths []string
	groupPaths(g, "/", 0, &paths)
	for _, path := range paths {
		sg, err := g.GetGroup(path)
		if err != nil {
			continue
		}
		for _, name := range sg.ListVariables() {
			vg, err := sg.GetVarGetter(name)
			if err != nil {
				continue
			}
			reqs := c10requests(vg.Shape(), vg.Len())
			ask := func(vg api.VarGetter, r c10request) (v any, text string) {
				p := obs.Safe(func() {
					var err error
					if v, err = r.run(vg); err != nil {
						v, text = nil, "error"
					} else {
						text = renderKept(v)
					}
				})
				return v, text + p
			}
			var want []string
			for _, r := range reqs {
				vg, err := sg.GetVarGetter(name)
				if err != nil {
					c.Failf("%s %s: the getter was made once and then refused: %v", path, name, err)
					return
				}
				_, a := ask(vg, r)
				want = append(want, a)
			}
			depth := depth
			if depth > 3 && len(reqs) > 20 {
				depth = 3
			}
			seq := make([]int, depth)
			for k := 0; k >= 0; {
				vg, err := sg.GetVarGetter(name)
				if err != nil {
					c.Failf("%s %s: the getter was made once and then refused: %v", path, name, err)
					return
				}
				c.State(1)
				var vals []any
				for n, i := range seq {
					c.Trans(1)
					v, a := ask(vg, reqs[i])
					bad := ""
					if a != want[i] {
						bad = fmt.Sprintf("want: %s\n    got:  %s", clip(want[i]), clip(a))
					}
					for m, v := range vals {
						if t := renderKept(v); !scrib && want[seq[m]] != "error" && t != want[seq[m]] {
							bad = fmt.Sprintf("what %s had returned became %s", reqs[seq[m]].name, clip(t))
						}
					}
					if bad != "" {
						before := ""
						for _, k := range seq[:n] {
							before += reqs[k].name + "; "
						}
						c.Failf("%s %s: %s after %sof the same getter (overwritten: %v)\n    %s", path, name, reqs[i].name, before, scrib, bad)
						return
					}
					vals = append(vals, v)
					if scrib {
						scribble(v)
					}
				}
				c.Trace(1)
				for k = depth - 1; k >= 0; k-- {
					if seq[k]++; seq[k] < len(reqs) {
						break
					}
					seq[k] = 0
				}
			}
		}
	}
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C10", Level: "model_checking",
		Rule: "for each corpus file, every sequence of read calls up to the depth runs on a freshly opened file, on one handle and alternating between two; every answer must be the one the call gives on a file that was never read before (the stateless reference), values returned earlier must stay as they were, and when the caller overwrites the values it got, later answers must not change; getters made before a call must answer the same after it; and every sequence of requests of one getter (all values, slices at every pair of the ends, middle and neighbours, sub-boxes, invalid slices) must be answered as each is by a new getter",
		Bounds: func(t string) string {
			if t == "thorough" {
				return "the corpus of small files; all calls (every query of every group and variable, slices, failing calls); all sequences of 2, of 3 with one request of each kind per variable, and of 4 for up to 16 such requests; all sequences of 3 requests of one getter of each variable, of 4 for up to 20 different ones"
			}
			return "the corpus of small files; all calls (every query of every group and variable, slices, failing calls); all sequences of 2, and of 3 for up to 24 calls, one request of each kind per variable; all sequences of 3 requests of one getter of each variable"
		},
		Enumerate: func(tier string, y fw.Yield) {
			reference := func(b []byte, few bool) (calls []call, want []string) {
				open := func() api.Group {
					g, err := netcdf.New(family.NewMem(b))
					if err != nil {
						panic("CHECK BROKEN: " + err.Error())
					}
					return g
				}
				calls = callsOf(open(), few)
				for _, x := range calls {
					g := open()
					a, _ := x.run(g, noKeep)
					g.Close()
					want = append(want, a)
				}
				return calls, want
			}
			seqs := func(c *fw.Ctx, b []byte, calls []call, want []string, depth int, two, scrib bool) {
				seq := make([]int, depth)
				for {
					if !c10run(c, b, calls, want, seq, two, scrib) {
						return
					}
					k := depth - 1
					for ; k >= 0; k-- {
						if seq[k]++; seq[k] < len(calls) {
							break
						}
						seq[k] = 0
					}
					if k < 0 {
						return
					}
				}
			}
			for _, s := range family.Corpus() {
				for _, m := range []struct {
					what       string
					two, scrib bool
				}{{"one handle", false, false}, {"two handles", true, false}, {"overwriting", false, true}, {"overwriting, two handles", true, true}} {
					y(func() string { return s.Name + ": sequences of 2, " + m.what }, func(c *fw.Ctx) {
						b := corpusBytes(c, s)
						calls, want := reference(b, false)
						c.Note("calls", len(calls))
						c.Outcome(fmt.Sprint(want))
						seqs(c, b, calls, want, 2, m.two, m.scrib)
					})
					y(func() string { return s.Name + ": sequences of 3, " + m.what }, func(c *fw.Ctx) {
						b := corpusBytes(c, s)
						calls, want := reference(b, true)
						if tier != "thorough" && len(calls) > 24 {
							return
						}
						seqs(c, b, calls, want, 3, m.two, m.scrib)
					})
					if tier == "thorough" {
						y(func() string { return s.Name + ": sequences of 4, " + m.what }, func(c *fw.Ctx) {
							b := corpusBytes(c, s)
							if calls, want := reference(b, true); len(calls) <= 16 {
								seqs(c, b, calls, want, 4, m.two, m.scrib)
							}
						})
					}
				}
				y(func() string { return s.Name + ": getters" }, func(c *fw.Ctx) {
					b := corpusBytes(c, s)
					calls, want := reference(b, false)
					c10getters(c, b, calls, want)
				})
				for _, scrib := range []bool{false, true} {
					y(func() string { return fmt.Sprintf("%s: one getter, overwriting %v", s.Name, scrib) }, func(c *fw.Ctx) {
						depth := 3
						if tier == "thorough" {
							depth = 4
						}
						c10sameGetter(c, corpusBytes(c, s), depth, scrib)
					})
				}
			}
		},
	})
}
