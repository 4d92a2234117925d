package props

import (
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"slices"

	"github.com/batchatco/go-native-netcdf/netcdf/hdf5"
	"github.com/batchatco/go-native-netcdf/verifmc/damage"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/refnc"
)

// someOrders calls f with all orders of n things, or, when there are many, with those in which one or two
// (swapped) are elsewhere.
func someOrders(n, all int, f func([]int) bool) {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	if n <= all {
		var rec func(k int) bool
		rec = func(k int) bool {
			if k == n {
				return f(p)
			}
			for i := k; i < n; i++ {
				p[k], p[i] = p[i], p[k]
				ok := rec(k + 1)
				p[k], p[i] = p[i], p[k]
				if !ok {
					return false
				}
			}
			return true
		}
		rec(0)
		return
	}
	for i := range n {
		for j := range n {
			if i == j {
				continue
			}
			q := slices.Insert(slices.Delete(slices.Clone(p), i, i+1), j, i)
			if !f(q) {
				return
			}
			q = slices.Clone(p)
			q[i], q[j] = q[j], q[i]
			if i < j && !f(q) {
				return
			}
		}
	}
	q := slices.Clone(p)
	slices.Reverse(q)
	f(q)
}

// orderCases are files in which the messages of each object header are in every order.
func orderCases(thorough bool, y fw.Yield) {
	i4 := family.HInt(4, true, false)
	types := []*h5gen.Type{i4, family.HStr(3, 0), family.HVStr(false), family.HEnum(family.HInt(1, false, false), 0, 1, 2)}
	attrs := func(n int) (as []h5gen.Attr) {
		for i := range n {
			as = append(as, h5gen.Attr{Name: metaName("a", i), T: i4, Shape: []int{i}, Salt: i})
		}
		return
	}
	for _, libver := range []int{0, 1, 2} {
		for na := range 4 {
			for ti := range types {
				for li := range 6 {
					y(func() string {
						return fmt.Sprintf("messages in every order: libver %d, %d attributes, type %d, layout %d", libver, na, ti, li)
					}, func(c *fw.Ctx) {
						d := &h5gen.Dataset{Name: "v", T: types[ti], Shape: []int{5}, Layout: 'C', All: true, Attrs: attrs(na)}
						switch li {
						case 1:
							d.Layout = 'K'
						case 2:
							d.Layout, d.Chunk = 'H', []int{2}
						case 3:
							d.Layout, d.Chunk, d.Filters = 'H', []int{2}, "d"
							if ti == 2 {
								d.Filters = ""
							}
						case 4:
							d.Shape = nil
						case 5:
							d.All = false
							if ti != 2 {
								d.Fill, d.FillV = h5gen.FillValue, family.FillOf(d.T)
							}
						}
						root := &h5gen.Group{Attrs: attrs(na), Items: []any{d, &h5gen.Group{Name: "g", Attrs: attrs(na % 2)}}}
						orderCase(c, &h5gen.File{Libver: libver, Root: root}, thorough)
					})
				}
			}
		}
	}
}

func orderCase(c *fw.Ctx, f *h5gen.File, thorough bool) {
	b, err := h5gen.Bytes(c.Dir, f)
	if err != nil {
		panic("CHECK BROKEN: " + c.Desc + ": " + err.Error())
	}
	path := filepath.Join(c.Dir, "order.h5")
	defer os.Remove(path)
	all := 5
	if thorough {
		all = 7
	}
	if _, err := hdf5.New(family.NewMem(b)); err != nil { // chunks with an index the library does not support
		c.Note("unsupported_files_refused", 1)
		return
	}
	hs := damage.Headers(b)
	if f.Libver == 0 {
		hs = damage.Headers1(b)
	}
	if len(hs) == 0 {
		panic("CHECK BROKEN: " + c.Desc + ": no object headers found")
	}
	// try reads one file; what says how it was made
	try := func(nb []byte, ref bool, what func() string) bool {
		if ref {
			if err := os.WriteFile(path, nb, 0o644); err != nil {
				panic("CHECK BROKEN: " + err.Error())
			}
			if _, err := refnc.Walk(path); err != nil {
				panic(fmt.Sprintf("CHECK BROKEN: %s: libhdf5 does not read %s: %v", c.Desc, what(), err))
			}
		}
		bad := ""
		if p := obs.Safe(func() {
			g, err := hdf5.New(family.NewMem(nb))
			if err != nil {
				bad = err.Error()
				return
			}
			bad = checkMeta(c, g, f.Root, false)
			g.Close()
		}); p != "" || bad != "" {
			c.Failf("%s: %s%s", what(), bad, p)
			return false
		}
		c.State(1)
		c.Trace(1)
		return true
	}
	for hi, h := range hs {
		ref := true // the reference library need not see all
		someOrders(len(h.Msgs), all, func(order []int) bool {
			ok := try(damage.Reorder(b, h, order), ref, func() string {
				kinds := ""
				for _, i := range order {
					kinds += fmt.Sprintf(" %#x", b[h.Msgs[i][0]])
				}
				return fmt.Sprintf("header %d with messages%s", hi, kinds)
			})
			ref = thorough
			return ok
		})
		if c.Failed() {
			return
		}
		if f.Libver == 0 {
			continue
		}
		for moved := uint(1); moved < 1<<min(len(h.Msgs), 10); moved++ {
			for at := 0; at <= len(h.Msgs); at++ {
				for _, deep := range []bool{false, true} {
					nb := damage.Split(b, h, moved, at, deep)
					if nb == nil || deep && bits.OnesCount(moved) < 2 {
						continue
					}
					if !try(nb, thorough || at == 0 && !deep, func() string {
						return fmt.Sprintf("header %d with messages %#b of %d in a continuation (another in it: %v), which is told of at %d", hi, moved, len(h.Msgs), deep, at)
					}) {
						return
					}
				}
			}
		}
	}
}
