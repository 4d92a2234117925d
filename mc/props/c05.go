package props

import (
	"fmt"
	"os"
	"sort"
	"strings"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/h5gen"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/refnc"
)

var h5Internal = map[string]bool{"CLASS": true, "NAME": true, "DIMENSION_LIST": true, "REFERENCE_LIST": true,
	"_Netcdf4Dimid": true, "_Netcdf4Coordinates": true, "_NCProperties": true, "_nc3_strict": true}

const nonCoord = "_nc4_non_coord_"

// refH5Attrs compares attributes read by libhdf5.
func refH5Attrs(as []h5gen.RAttr, want []model.Attr) string {
	var got []string
	for _, a := range as {
		if !h5Internal[a.Name] {
			got = append(got, fmt.Sprintf("%q:%v:%s", a.Name, true, norm(h5gen.UndoScalar(a.Value))))
		}
	}
	var w []string
	for _, a := range want {
		w = append(w, fmt.Sprintf("%q:%v:%s", a.Name, true, norm(model.AttrRead(a.Val))))
	}
	sort.Strings(got)
	sort.Strings(w)
	if a, b := strings.Join(w, "; "), strings.Join(got, "; "); a != b {
		return fmt.Sprintf("libhdf5: attributes\n    want %s\n    got  %s", clip(a), clip(b))
	}
	return ""
}

// isDim tells whether a dataset only stands for a dimension.
func isDim(d *h5gen.RDataset) bool {
	a := d.Attr("NAME")
	if a == nil || d.Attr("CLASS") == nil {
		return false
	}
	s, _ := a.Value.(string)
	return strings.HasPrefix(s, "This is a netCDF dimension but not a netCDF variable")
}

// refH5Matches compares a written content with what libhdf5 reads. hidden gets
// the variables and attributes whose types netCDF-C does not show.
func refH5Matches(g *h5gen.RGroup, m *model.Group, path string, hidden map[string]bool) string {
	if bad := refH5Attrs(g.Attrs, m.Attrs); bad != "" {
		return bad
	}
	user := func(t *h5gen.Type) bool {
		return t.Class == h5gen.Vlen || t.Class == h5gen.Compound || t.Class == h5gen.Opaque || t.Class == h5gen.Enum || t.Class == h5gen.Array
	}
	for _, a := range g.Attrs {
		if user(a.T) {
			hidden[path+"@"+a.Name] = true
		}
	}
	ds := map[string]*h5gen.RDataset{}
	for _, d := range g.Datasets {
		if isDim(d) {
			if path != "/" {
				return "libhdf5: dimension in group " + path
			}
			continue
		}
		ds[strings.TrimPrefix(d.Name, nonCoord)] = d
	}
	if len(ds) != len(m.Vars) || len(g.Groups) != len(m.Groups) || len(g.Types) > 0 {
		return fmt.Sprintf("libhdf5: %d variables and %d groups in %s, want %d and %d", len(ds), len(g.Groups), path, len(m.Vars), len(m.Groups))
	}
	for _, v := range m.Vars {
		d := ds[v.Name]
		if d == nil {
			return fmt.Sprintf("libhdf5: variable %q missing", v.Name)
		}
		if a, b := norm(v.Vals), norm(d.Value); a != b {
			return fmt.Sprintf("libhdf5: variable %q\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
		}
		if bad := refH5Attrs(d.Attrs, v.Attrs); bad != "" {
			return fmt.Sprintf("variable %q: %s", v.Name, bad)
		}
		if user(d.T) {
			hidden[path+v.Name] = true
		}
		for _, a := range d.Attrs {
			if user(a.T) {
				hidden[path+v.Name+"@"+a.Name] = true
			}
		}
		if dl := d.Attr("DIMENSION_LIST"); dl != nil {
			if len(dl.Vals) != len(d.Shape) || len(d.Shape) != len(v.Dims) {
				return fmt.Sprintf("libhdf5: variable %q: DIMENSION_LIST of %d, shape %v", v.Name, len(dl.Vals), d.Shape)
			}
			for i, x := range dl.Vals {
				want := fmt.Sprint([]h5gen.Val{"/" + v.Dims[i]})
				if v.Dims[i] == "" {
					want = "[]"
				}
				if fmt.Sprint(x) != want {
					return fmt.Sprintf("libhdf5: variable %q: dimension %d is %v", v.Name, i, x)
				}
			}
		}
	}
	for i, s := range sortedGroups(m) {
		if g.Groups[i].Name != s.Name {
			return fmt.Sprintf("libhdf5: group %q, want %q", g.Groups[i].Name, s.Name)
		}
		if bad := refH5Matches(g.Groups[i], s, path+s.Name+"/", hidden); bad != "" {
			return "group " + s.Name + ": " + bad
		}
	}
	return ""
}

func sortedGroups(m *model.Group) []*model.Group {
	gs := append([]*model.Group{}, m.Groups...)
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name < gs[j].Name })
	return gs
}

// refNCMatches compares a written content with what netCDF-C reads.
func refNCMatches(g *refnc.Group, m *model.Group, path string, hidden map[string]bool) string {
	attrs := func(as []refnc.Attr, want []model.Attr, prefix string) string {
		var got, w []string
		for _, a := range as {
			if a.Name == "_NCProperties" {
				continue
			}
			sh := []int64{a.N}
			got = append(got, fmt.Sprintf("%q:%s", a.Name, obs.Render(model.AttrRead(a.Value(sh)))))
		}
		for _, a := range want {
			if !hidden[prefix+"@"+a.Name] {
				w = append(w, fmt.Sprintf("%q:%s", a.Name, obs.Render(model.AttrRead(a.Val))))
			}
		}
		sort.Strings(got)
		sort.Strings(w)
		if a, b := strings.Join(w, "; "), strings.Join(got, "; "); a != b {
			return fmt.Sprintf("netCDF-C: attributes of %s\n    want %s\n    got  %s", prefix, clip(a), clip(b))
		}
		return ""
	}
	if bad := attrs(g.Attrs, m.Attrs, path); bad != "" {
		return bad
	}
	vars := map[string]*refnc.Var{}
	for i := range g.Vars {
		vars[g.Vars[i].Name] = &g.Vars[i]
	}
	n := 0
	for _, v := range m.Vars {
		if hidden[path+v.Name] {
			continue
		}
		n++
		r := vars[v.Name]
		if r == nil {
			return fmt.Sprintf("netCDF-C: variable %q missing", v.Name)
		}
		val := r.Value(r.Shape)
		if r.Type == cdfspec.Char {
			val = trimStrings(val)
		}
		if a, b := obs.Render(v.Vals), obs.Render(val); a != b {
			return fmt.Sprintf("netCDF-C: variable %q\n    want %s\n    got  %s", v.Name, clip(a), clip(b))
		}
		if named(v) {
			for i, d := range v.Dims {
				if i >= len(r.Dims) || r.Dims[i] != d {
					return fmt.Sprintf("netCDF-C: variable %q: dimensions %q, want %q", v.Name, r.Dims, v.Dims)
				}
			}
			if len(r.Dims) != len(v.Dims) {
				return fmt.Sprintf("netCDF-C: variable %q: dimensions %q, want %q", v.Name, r.Dims, v.Dims)
			}
		}
		if bad := attrs(r.Attrs, v.Attrs, path+v.Name); bad != "" {
			return bad
		}
	}
	if n != len(vars) || len(m.Groups) != len(g.Groups) {
		return fmt.Sprintf("netCDF-C: %d variables and %d groups in %s, want %d and %d", len(vars), len(g.Groups), path, n, len(m.Groups))
	}
	subs := map[string]*refnc.Group{}
	for _, s := range g.Groups {
		subs[s.Name] = s
	}
	for _, s := range m.Groups {
		if subs[s.Name] == nil {
			return fmt.Sprintf("netCDF-C: group %q missing", s.Name)
		}
		if bad := refNCMatches(subs[s.Name], s, path+s.Name+"/", hidden); bad != "" {
			return "group " + s.Name + ": " + bad
		}
	}
	return ""
}

// named tells whether a variable has dimensions and names for all of them:
// netCDF does not know the others.
func named(v model.Var) bool {
	for _, d := range v.Dims {
		if d == "" {
			return false
		}
	}
	return len(v.Dims) > 0
}

// refNCDims compares the dimensions.
func refNCDims(g *refnc.Group, m *model.Group) string {
	want := h5Dims(m)
	n := 0
	for _, d := range g.Dims {
		if strings.HasPrefix(d.Name, "phony_dim_") {
			continue
		}
		n++
		if l, has := want[d.Name]; !has || l != d.Len || d.Unlim != (l == 0) { // netCDF has no fixed dimensions of length 0
			return fmt.Sprintf("netCDF-C: dimension %s = %d unlimited %v, want %v", d.Name, d.Len, d.Unlim, want)
		}
	}
	if n != len(want) {
		return fmt.Sprintf("netCDF-C: %d dimensions, want %v", n, want)
	}
	return ""
}

func trimStrings(v any) any {
	switch x := v.(type) {
	case string:
		return strings.TrimRight(x, "\x00")
	case []string:
		out := make([]string, len(x))
		for i := range x {
			out[i] = strings.TrimRight(x[i], "\x00")
		}
		return out
	case [][]string:
		out := make([][]string, len(x))
		for i := range x {
			out[i] = trimStrings(x[i]).([]string)
		}
		return out
	case [][][]string:
		out := make([][][]string, len(x))
		for i := range x {
			out[i] = trimStrings(x[i]).([][]string)
		}
		return out
	}
	return v
}

// longNames tells whether a content has names that netCDF-C does not allow.
func longNames(m *model.Group) bool {
	long := func(s string) bool { return len(s) > 255 }
	at := func(as []model.Attr) bool {
		for _, a := range as {
			if long(a.Name) {
				return true
			}
		}
		return false
	}
	if at(m.Attrs) {
		return true
	}
	for _, v := range m.Vars {
		if long(v.Name) || at(v.Attrs) {
			return true
		}
		for _, d := range v.Dims {
			if long(d) {
				return true
			}
		}
	}
	for _, s := range m.Groups {
		if long(s.Name) || longNames(s) {
			return true
		}
	}
	return false
}

// strictHeaps checks what libhdf5 takes on trust: that the file is as long as its superblock says, and that the
// global heap collections have at least the minimum size and consist of objects up to their end.
func strictHeaps(b []byte) string {
	le := func(at, n int) (v uint64) {
		for i := n - 1; i >= 0; i-- {
			v = v<<8 | uint64(b[at+i])
		}
		return
	}
	if len(b) < 96 {
		return "file of less than 96 bytes"
	}
	at := 0
	switch b[8] {
	case 0:
		at = 24 + 2*8
	case 1:
		at = 28 + 2*8
	default:
		at = 12 + 2*8
	}
	if eof := le(at, 8); eof != uint64(len(b)) {
		return fmt.Sprintf("the superblock says that the file ends at %d, but it has %d bytes", eof, len(b))
	}
	for a := 0; a+16 <= len(b); a += 8 {
		if string(b[a:a+8]) != "GCOL\x01\x00\x00\x00" {
			continue
		}
		size := le(a+8, 8)
		if size < 4096 || size > uint64(len(b)-a) {
			return fmt.Sprintf("global heap collection at %d of %d bytes, the file has %d", a, size, len(b))
		}
		end := a + int(size)
		seen := map[uint64]bool{}
		for p := a + 16; p < end; {
			if end-p < 16 { // too little for another header
				break
			}
			idx, n := le(p, 2), le(p+8, 8)
			room := uint64(end - p)
			if idx == 0 {
				if n != room {
					return fmt.Sprintf("global heap collection at %d: free space of %d bytes, %d are left", a, n, room)
				}
				break
			}
			if n > room-16 || seen[idx] {
				return fmt.Sprintf("global heap collection at %d: object %d at %d of %d bytes (seen: %v)", a, idx, p, n, seen[idx])
			}
			seen[idx] = true
			p += 16 + int((n+7)&^7)
		}
	}
	return ""
}

// checkH5Refs checks a written file with the reference libraries.
func checkH5Refs(c *fw.Ctx, path string, m *model.Group, dims bool) string {
	n, err := refnc.Walk(path)
	c.Trans(n)
	if err != nil {
		return fmt.Sprintf("libhdf5 does not read it: %v", err)
	}
	r, err := h5gen.Read(path)
	if err != nil {
		return err.Error()
	}
	if b, err := os.ReadFile(path); err != nil {
		panic("CHECK BROKEN: " + err.Error())
	} else if bad := strictHeaps(b); bad != "" {
		return bad
	}
	hidden := map[string]bool{}
	if bad := refH5Matches(r, m, "/", hidden); bad != "" {
		return bad
	}
	c.Trace(1)
	if longNames(m) {
		return ""
	}
	nc, err := refnc.Read(path)
	if err != nil {
		return fmt.Sprintf("netCDF-C does not read it: %v", err)
	}
	if bad := refNCMatches(nc, m, "/", hidden); bad != "" {
		return bad
	}
	if bad := refNCDims(nc, m); dims && bad != "" {
		return bad
	}
	c.Trace(1)
	return ""
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C05", Level: "model_checking",
		Rule: "every writer program of the bounded HDF5 family (package family, H5Programs, and values of user-defined types) is executed on the real writer; the file is read by libhdf5 and by netCDF-C, and what they show is compared with the program's content",
		Bounds: func(t string) string {
			return "the programs of C04"
		},
		Assumptions: []string{"libhdf5 1.10 and netCDF-C define what a valid file is and how it reads", "netCDF-C does not show anonymous user-defined types and names over 256 bytes: libhdf5 alone judges those"},
		Enumerate: func(tier string, y fw.Yield) {
			family.H5Programs(tier == "thorough", func(must bool, desc func() string, mk func() *model.Group) {
				y(desc, func(c *fw.Ctx) {
					m := mk()
					path, ok := c05write(c, m)
					if !ok {
						return
					}
					defer os.Remove(path)
					if bad := checkH5Refs(c, path, m, true); bad != "" {
						c.Failf("%s", bad)
						return
					}
					c.Sample(clip(desc()))
					c.Outcome(obs.FileHash(path))
				})
			})
			userTypes(tier == "thorough", y, func(c *fw.Ctx, path string, m *model.Group) string {
				defer os.Remove(path)
				return checkH5Refs(c, path, m, false)
			})
		},
	})
}

var fileNumber int

// freshName gives a new file name each time: the reference libraries recognise
// files that they still have open.
func freshName(c *fw.Ctx) string {
	fileNumber++
	return fmt.Sprintf("%s/f%d.nc", c.Dir, fileNumber)
}

// c05write writes a content; refusing is judged by C04.
func c05write(c *fw.Ctx, m *model.Group) (string, bool) {
	path := freshName(c)
	n, problem := family.Write(path, netcdf.KindHDF5, m)
	c.Trans(n)
	if problem != "" {
		c.Note("contents_refused", 1)
		c.Outcome("refused " + problem)
		return path, false
	}
	return path, true
}
