package props

import (
	"bytes"
	"fmt"
	"os"
	"syscall"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/refnc"
)

// largeContent is a content with a dimension or a variable near the limits of the classic
// formats. The values take little memory: they are pages of zeros with a few marks, or
// the same row many times.
type largeContent struct {
	what  string
	shape []int64
	make  func() (values any, dims []string)
	at    func(i int64) byte // the i-th byte
}

func largeContents() (out []largeContent) {
	line := func(n int64) largeContent {
		marks := map[int64]byte{0: 7, 1: 3, n / 2: 5, n/2 + 1: 4, n - 2: 8, n - 1: 9}
		return largeContent{fmt.Sprintf("a dimension of %d", n), []int64{n}, func() (any, []string) {
			v := make([]int8, n)
			for i, m := range marks {
				v[i] = int8(m)
			}
			return v, []string{"x"}
		}, func(i int64) byte { return marks[i] }}
	}
	rows := func(n, m int64) largeContent {
		row := func(i int64) byte { return byte(i*7 + i>>8) }
		return largeContent{fmt.Sprintf("%d rows of %d", n, m), []int64{n, m}, func() (any, []string) {
			r := make([]int8, m)
			for i := range r {
				r[i] = int8(row(int64(i)))
			}
			v := make([][]int8, n)
			for i := range v {
				v[i] = r
			}
			return v, []string{"r", "x"}
		}, func(i int64) byte { return row(i % m) }}
	}
	return append(out, line(1<<31-1), line(1<<31), rows(1<<20-1, 4096), rows(1<<20, 4096))
}

// checkLarge writes one of them, between two small variables, and looks at the file with
// the reader (C01), or with the decoder of the format and netCDF-C (C02).
func checkLarge(c *fw.Ctx, l largeContent, format bool) {
	path := freshName(c)
	defer os.Remove(path)
	small := map[string][]int16{"a": {1, 2, 3}, "z": {-4, 5, -6}}
	var bad string
	p := obs.Safe(func() {
		w, err := netcdf.OpenWriter(path, netcdf.KindCDF)
		if err != nil {
			bad = fmt.Sprint("OpenWriter: ", err)
			return
		}
		values, dims := l.make()
		for _, v := range []struct {
			name string
			vr   api.Variable
		}{{"a", api.Variable{Values: small["a"], Dimensions: []string{"y"}}}, {"large", api.Variable{Values: values, Dimensions: dims}}, {"z", api.Variable{Values: small["z"], Dimensions: []string{"y"}}}} {
			if err := w.AddVar(v.name, v.vr); err != nil {
				bad = fmt.Sprintf("AddVar(%s): %v", v.name, err)
				return
			}
		}
		if err := w.Close(); err != nil {
			bad = fmt.Sprint("Close: ", err)
		}
	})
	if bad != "" || p != "" {
		c.Failf("%s%s", bad, p)
		return
	}
	total := int64(1)
	for _, n := range l.shape {
		total *= n
	}
	inner := total / l.shape[0]
	rows := []int64{0, 1, l.shape[0] / 2, l.shape[0] - 2} // two from each
	want := func(b, n int64) (w []byte) {
		for i := range n {
			w = append(w, l.at(b*inner+i))
		}
		return
	}
	if !format {
		p := obs.Safe(func() {
			g, err := netcdf.Open(path)
			if err != nil {
				bad = fmt.Sprint("Open: ", err)
				return
			}
			defer g.Close()
			for name, w := range small {
				v, err := g.GetVariable(name)
				if c.Trans(1); err != nil || obs.Render(v.Values) != obs.Render(w) {
					bad = fmt.Sprintf("%s: %v %v, must be %v", name, v, err, w)
					return
				}
			}
			vg, err := g.GetVarGetter("large")
			if err != nil || fmt.Sprint(vg.Shape()) != fmt.Sprint(l.shape) {
				bad = fmt.Sprintf("large: shape %v %v, must be %v", vg, err, l.shape)
				return
			}
			for _, r := range rows {
				x, err := vg.GetSlice(r, r+2)
				w := cdfspec.Value(cdfspec.Byte, want(r, 2*inner), append([]int64{2}, l.shape[1:]...))
				if c.Trans(1); err != nil || obs.Render(x) != obs.Render(w) {
					bad = fmt.Sprintf("large from %d: %s %v, must be %s", r, clip(obs.Render(x)), err, clip(obs.Render(w)))
					return
				}
			}
		})
		if bad != "" || p != "" {
			c.Failf("%s%s", bad, p)
			return
		}
	} else {
		file, err := os.Open(path)
		if err != nil {
			panic(err)
		}
		defer file.Close()
		fi, _ := file.Stat()
		b, err := syscall.Mmap(int(file.Fd()), 0, int(fi.Size()), syscall.PROT_READ, syscall.MAP_SHARED)
		if err != nil {
			panic(err)
		}
		defer syscall.Munmap(b)
		f, err := cdfspec.Decode(b)
		if err != nil {
			c.Failf("not a well-formed classic-family file: %v", err)
			return
		}
		if len(f.Vars) != 3 || fmt.Sprint(f.Shape(&f.Vars[1])) != fmt.Sprint(l.shape) || f.Vars[1].Type != cdfspec.Byte {
			c.Failf("decoded variables: %d, or of another shape than %v", len(f.Vars), l.shape)
			return
		}
		for i, w := range map[int][]int16{0: small["a"], 2: small["z"]} {
			if x := cdfspec.Raw(w); !bytes.Equal(x, f.Vars[i].Data) {
				c.Failf("data of %s is %x, must be %x", f.Vars[i].Name, f.Vars[i].Data, x)
				return
			}
		}
		// all bytes of the large one
		const step = 1 << 20
		chunk := make([]byte, step)
		data := f.Vars[1].Data
		for o := int64(0); o < total; o += step {
			n := min(step, total-o)
			if len(l.shape) == 2 && o > 0 { // as all the others
				n = min(n, total-o)
			} else if len(l.shape) == 1 && o > 0 && o+step < total/2 || o > total/2+step && o+step < total-step {
				clear(chunk)
			} else {
				for i := range n {
					chunk[i] = l.at(o + i)
				}
			}
			if !bytes.Equal(chunk[:n], data[o:o+n]) {
				c.Failf("data of the large variable is wrong between %d and %d", o, o+n)
				return
			}
		}
		c.Trans(int(total / step))
		for _, r := range rows {
			bb, ee := make([]int64, len(l.shape)), append([]int64{}, l.shape...)
			bb[0], ee[0] = r, r+2
			x, err := refnc.Part(path, "large", bb, ee)
			if c.Trans(1); err != nil || !bytes.Equal(x, want(r, 2*inner)) {
				c.Failf("netCDF-C reads large from %d as %x %v, must be %x", r, x[:min(len(x), 8)], err, want(r, 2*inner)[:8])
				return
			}
		}
		for name, w := range small {
			x, err := refnc.Part(path, name, []int64{0}, []int64{3})
			if err != nil || !bytes.Equal(x, cdfspec.Raw(w)) {
				c.Failf("netCDF-C reads %s as %x %v, must be %x", name, x, err, cdfspec.Raw(w))
				return
			}
		}
	}
	c.Trace(1)
	c.State(1)
	c.Outcome(l.what)
	c.Sample(c.Desc)
}

// largeCases is one case, because each of these files takes 2 or 4 GiB of the scratch
// directory for a moment.
func largeCases(y fw.Yield, tier string, format bool) {
	y(func() string { return "contents near the limits of the classic formats" }, func(c *fw.Ctx) {
		for i, l := range largeContents() {
			if tier != "thorough" && (i == 0 || i == 2 || i == 3 && !format) {
				continue
			}
			checkLarge(c, l, format)
			if c.Failed() {
				c.Failf("(%s)", l.what)
				return
			}
		}
	})
}
