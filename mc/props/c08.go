package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/netcdf/cdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// sliceVar is a variable with its known full value.
type sliceVar struct {
	name  string
	full  any
	shape []int64
	h5    bool // full is in terms of the HDF5 generator's types
}

func (v sliceVar) norm(x any) string {
	if v.h5 {
		return norm(x)
	}
	return obs.Render(x)
}

// part is the rendering of the sub-array.
func (v sliceVar) part(b, e []int64) string {
	if v.h5 {
		return norm(h5gen.Sub(v.full, make([]int, len(v.shape)), b, e))
	}
	return obs.Render(model.SubArray(v.full, b, e))
}

// edgeBounds are all bounds of a small extent, and a grid of a large one.
func edgeBounds(n int64) (bs []int64) {
	for i := int64(0); i <= n; i++ {
		if n <= 20 || i < 3 || i > n-3 || i == n/2 || i == n/3 {
			bs = append(bs, i)
		}
	}
	return bs
}

// windows calls f with every (begin,end) box of the shape, or, when there are
// more than limit, with those whose bounds are at the ends or next to them.
// Of a shape of more than six dimensions it takes those that cut at most two.
func windows(shape []int64, limit int, f func(b, e []int64) bool) {
	per := make([][][2]int64, len(shape))
	all := func(n int64, full bool) (w [][2]int64) {
		bs := []int64{0}
		if full {
			bs = edgeBounds(n)
		} else {
			for _, x := range []int64{1, n - 1, n} {
				if x > bs[len(bs)-1] {
					bs = append(bs, x)
				}
			}
		}
		for _, b := range bs {
			for _, e := range bs {
				if b <= e {
					w = append(w, [2]int64{b, e})
				}
			}
		}
		return
	}
	full := 1
	for _, n := range shape {
		k := len(edgeBounds(n))
		full *= k * (k + 1) / 2
		if full > limit {
			break
		}
	}
	for i, n := range shape {
		per[i] = all(n, full <= limit)
	}
	b, e := make([]int64, len(shape)), make([]int64, len(shape))
	cuts := 0
	var rec func(i int) bool
	rec = func(i int) bool {
		if i == len(shape) {
			return f(append([]int64{}, b...), append([]int64{}, e...))
		}
		for _, w := range per[i] {
			n := 0
			if w != [2]int64{0, shape[i]} {
				n = 1
			}
			if len(shape) > 6 && cuts+n > 2 {
				continue
			}
			cuts += n
			b[i], e[i] = w[0], w[1]
			ok := rec(i + 1)
			cuts -= n
			if !ok {
				return false
			}
		}
		return true
	}
	rec(0)
}

// checkSlices makes every slice request of one variable.
func checkSlices(c *fw.Ctx, g api.Group, v sliceVar, limit int) string {
	vg, err := g.GetVarGetter(v.name)
	if err != nil {
		return fmt.Sprintf("GetVarGetter: %v", err)
	}
	full := v.norm(v.full)
	one := func(what, want string, got any, err error) string {
		c.Trans(1)
		if err != nil {
			return fmt.Sprintf("%s %s: %v", v.name, what, err)
		}
		if r := v.norm(got); r != want {
			return fmt.Sprintf("%s %s\n    want %s\n    got  %s", v.name, what, clip(want), clip(r))
		}
		return ""
	}
	bad := ""
	if len(v.shape) == 0 {
		got, err := vg.GetSlice(0, 1)
		if s := one("GetSlice(0,1) of a scalar", full, got, err); s != "" {
			return s
		}
		got, err = vg.GetSliceMD(nil, nil)
		if s := one("GetSliceMD() of a scalar", full, got, err); s != "" {
			return s
		}
	} else {
		n := v.shape[0]
		rest := v.shape[1:]
		z := make([]int64, len(rest))
		bounds := edgeBounds(n)
		for _, b := range bounds {
			for _, e := range bounds {
				if e < b || bad != "" {
					continue
				}
				want := v.part(append([]int64{b}, z...), append([]int64{e}, rest...))
				got, err := vg.GetSlice(b, e)
				bad = one(fmt.Sprintf("GetSlice(%d,%d)", b, e), want, got, err)
			}
		}
		if bad != "" {
			return bad
		}
		windows(v.shape, limit, func(b, e []int64) bool {
			want := v.part(b, e)
			got, err := vg.GetSliceMD(b, e)
			bad = one(fmt.Sprintf("GetSliceMD(%v,%v)", b, e), want, got, err)
			return bad == ""
		})
		if bad != "" {
			return bad
		}
	}
	got, err := vg.Values()
	if s := one("Values() after slices", full, got, err); s != "" {
		return s
	}
	gv, err := g.GetVariable(v.name)
	if err != nil {
		return fmt.Sprintf("GetVariable %s after slices: %v", v.name, err)
	}
	return one("GetVariable after slices", full, gv.Values, nil)
}

// invalid bounds of an extent: out of range in every direction
func badPairs(n int64) [][2]int64 {
	return [][2]int64{{-1, 0}, {-1, n}, {-1, -1}, {0, n + 1}, {n, n + 1}, {n + 1, n + 1}, {n + 1, n + 2}, {0, math.MaxInt64}, {math.MinInt64, 0},
		{math.MinInt64, math.MinInt64}, {math.MaxInt64, math.MaxInt64}, {math.MinInt64, math.MaxInt64}, {0, n + 1<<32}, {1 << 32, 1<<32 + n}, {1, 0}, {n + 1, n}, {n, -1}, {0, -1}, {-2, -1}, {1 << 61, 1<<61 + 1}}
}

// checkRefused makes out-of-range slice requests of one variable, and after
// each a valid one.
func checkRefused(c *fw.Ctx, g api.Group, v sliceVar) string {
	vg, err := g.GetVarGetter(v.name)
	if err != nil {
		return fmt.Sprintf("GetVarGetter: %v", err)
	}
	full := v.norm(v.full)
	var lastOK [2][]int64
	rank := len(v.shape)
	if rank > 0 {
		// a small valid window
		lastOK = [2][]int64{make([]int64, rank), make([]int64, rank)}
		for i, n := range v.shape {
			if n > 0 {
				lastOK[0][i], lastOK[1][i] = n-1, n
			}
		}
	}
	want := full
	if rank > 0 {
		want = v.part(lastOK[0], lastOK[1])
	}
	refused := func(what string, f func() (any, error)) string {
		c.Trans(2)
		var got any
		var err error
		if p := obs.Safe(func() { got, err = f() }); p != "" {
			return fmt.Sprintf("%s %s: %s", v.name, what, p)
		}
		if err == nil {
			return fmt.Sprintf("%s (shape %v) %s returned %s", v.name, v.shape, what, clip(v.norm(got)))
		}
		if p := obs.Safe(func() { got, err = vg.GetSliceMD(lastOK[0], lastOK[1]) }); p != "" || err != nil {
			return fmt.Sprintf("%s valid request after %s: %v %s", v.name, what, err, p)
		}
		if r := v.norm(got); r != want {
			return fmt.Sprintf("%s valid request after %s: want %s got %s", v.name, what, clip(want), clip(r))
		}
		return ""
	}
	n := int64(1)
	if rank > 0 {
		n = v.shape[0]
	}
	try := func(b, e int64) string {
		return refused(fmt.Sprintf("GetSlice(%d,%d)", b, e), func() (any, error) { return vg.GetSlice(b, e) })
	}
	for _, p := range badPairs(n) {
		if s := try(p[0], p[1]); s != "" {
			return s
		}
	}
	lim := min(n, 6)
	for b := int64(-2); b <= lim+2; b++ {
		for e := int64(-2); e <= lim+2; e++ {
			if b >= 0 && b <= e && e <= n {
				continue
			}
			if s := try(b, e); s != "" {
				return s
			}
		}
	}
	md := func(b, e []int64) string {
		return refused(fmt.Sprintf("GetSliceMD(%v,%v)", b, e), func() (any, error) { return vg.GetSliceMD(b, e) })
	}
	// wrong numbers of bounds
	mk := func(k int, end bool) []int64 {
		o := make([]int64, k)
		if end {
			for i := range o {
				o[i] = 1
				if i < rank && v.shape[i] == 0 {
					o[i] = 0
				}
			}
		}
		return o
	}
	for nb := 0; nb <= rank+2; nb++ {
		for ne := 0; ne <= rank+2; ne++ {
			if nb == rank && ne == rank {
				continue
			}
			if s := md(mk(nb, false), mk(ne, true)); s != "" {
				return s
			}
		}
	}
	// one or all dimensions out of range, the others every kind of valid pair
	for d := range rank {
		for _, p := range badPairs(v.shape[d]) {
			for kind := range 4 {
				b, e := make([]int64, rank), make([]int64, rank)
				for i, n := range v.shape {
					switch kind {
					case 0: // everything
						e[i] = n
					case 1: // nothing
					case 2: // last element
						b[i], e[i] = max(n-1, 0), n
					case 3: // also out of range
						if i != d {
							q := badPairs(n)[0]
							b[i], e[i] = q[0], q[1]
						}
					}
				}
				b[d], e[d] = p[0], p[1]
				if s := md(b, e); s != "" {
					return s
				}
			}
		}
	}
	got, err := vg.Values()
	if err != nil || v.norm(got) != full {
		return fmt.Sprintf("%s Values() after refused requests: %v %s, want %s", v.name, err, clip(v.norm(got)), clip(full))
	}
	return ""
}

// sliceFiles enumerates files of both formats with known values.
func sliceFiles(tier string, y func(desc string, open func(c *fw.Ctx) (api.Group, []sliceVar))) {
	family.CDFFiles(tier == "thorough", func(desc string, mk func() (*cdfspec.File, cdfspec.Options)) {
		switch desc[0] {
		case 'V', 'W', 'T', 'M', 'D':
		default:
			return
		}
		y("cdf "+desc, func(c *fw.Ctx) (api.Group, []sliceVar) {
			f, o := mk()
			var g api.Group
			var err error
			if p := obs.Safe(func() { g, err = cdf.New(family.NewMem(cdfspec.Encode(f, o))) }); p != "" || err != nil {
				c.Failf("open: %v %s", err, p)
				return nil, nil
			}
			var vs []sliceVar
			for i := range f.Vars {
				v := &f.Vars[i]
				if i > 6 {
					break
				}
				shape := f.Shape(v)
				vs = append(vs, sliceVar{v.Name, cdfspec.Value(v.Type, v.Data, shape), shape, false})
			}
			return g, vs
		})
	})
	h5 := func(desc string, mk func() *h5gen.File) {
		y("hdf5 "+desc, func(c *fw.Ctx) (api.Group, []sliceVar) {
			f := mk()
			g, _ := openH5(c, f)
			if g == nil {
				return nil, nil
			}
			var vs []sliceVar
			for _, it := range f.Root.Items {
				if d, ok := it.(*h5gen.Dataset); ok {
					sh := make([]int64, len(d.FinalShape()))
					for i, n := range d.FinalShape() {
						sh[i] = int64(n)
					}
					vs = append(vs, sliceVar{d.Name, d.Want(), sh, true})
				}
			}
			return g, vs
		})
	}
	family.H5Chunks(tier == "thorough", h5)
	n := 0
	family.H5Types(tier == "thorough", func(desc string, mk func() *h5gen.File) {
		n++
		if strings.Contains(desc, "libver0") && (tier == "thorough" || n%3 == 0) {
			h5(desc, mk)
		}
	})
}

func init() {
	reg := func(id, rule, bounds string, one func(c *fw.Ctx, g api.Group, v sliceVar) string) {
		fw.Register(&fw.Prop{
			ID: id, Level: "model_checking", Rule: rule,
			Bounds:      func(tier string) string { return bounds },
			Assumptions: []string{"the generators' files hold the values they were given (CDF: cross-checked with netCDF-C in C03; HDF5: written by libhdf5)"},
			Enumerate: func(tier string, y fw.Yield) {
				sliceFiles(tier, func(desc string, open func(c *fw.Ctx) (api.Group, []sliceVar)) {
					y(func() string { return desc }, func(c *fw.Ctx) {
						g, vs := open(c)
						if g == nil {
							return
						}
						for _, v := range vs {
							bad := ""
							if p := obs.Safe(func() { bad = one(c, g, v) }); p != "" {
								bad = v.name + ": " + p
							}
							if bad != "" {
								c.Failf("%s", bad)
								break
							}
							c.Outcome(fmt.Sprint(desc, v.name))
						}
						c.Trace(1)
						g.Close()
						c.Sample(desc)
					})
				})
				if id == "C08" {
					c08large(tier, y)
				}
			},
		})
	}
	reg("C08", "for every variable of every file of the family, every window of the first dimension and every multi-dimensional window is requested from the real reader; the model is the sub-array of the known full value",
		"all windows of shapes up to rank 5 and extents <=7 (of more than 2000 windows per variable, those with bounds at or next to the ends); extents up to 4100 with bounds on a grid; variables, records and places in the file beyond 2^31, 2^32, 2^33 and 2^40 bytes (CDF: bytes made when read; HDF5: chunks far out, sparse contiguous data), small windows around every such place",
		func(c *fw.Ctx, g api.Group, v sliceVar) string {
			limit := 2000
			if c.Thorough() {
				limit = 20000
			}
			return checkSlices(c, g, v, limit)
		})
	reg("C09", "for every variable of every file of the family, every out-of-range window from a boundary alphabet (all (b,e) within -2..n+2, 32- and 64-bit extremes, every wrong number of bounds, every dimension wrong alone or together) is requested; each must be refused and a valid request must still work",
		"as C08; 20 invalid pairs per dimension x 4 kinds of the other dimensions",
		checkRefused)
}
