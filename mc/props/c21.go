package props

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"
	"unicode/utf8"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
)

// nameVerdict is the specification of names. Names that are not UTF-8, and
// characters that are neither control characters in the narrow sense nor
// assigned printable ones, may be treated either way, but by both writers alike.
func nameVerdict(n string) verdict {
	if n == "" {
		return refuse
	}
	odd := !utf8.ValidString(n)
	var first, last rune
	for i, r := range n {
		if i == 0 {
			first = r
		}
		last = r
		if r == '/' || unicode.Is(unicode.Cc, r) {
			return refuse
		}
		if unicode.In(r, unicode.Cf, unicode.Co, unicode.Cs) || !unicode.IsGraphic(r) && !unicode.In(r, unicode.Z) {
			odd = true
		}
	}
	if odd {
		return either
	}
	if !unicode.IsLetter(first) && !unicode.IsNumber(first) {
		return refuse
	}
	if unicode.In(last, unicode.Z) {
		return refuse
	}
	return accept
}

// attrReserved are attribute names that HDF5 files use themselves.
var attrReserved = map[string]bool{"CLASS": true, "NAME": true, "DIMENSION_LIST": true, "REFERENCE_LIST": true}

// nameReps are characters of every kind that matters.
var nameReps = []string{"a", "Z", "0", "_", " ", "/", "\x00", "\t", "\n", "\x1f", "\x7f", "-", ".", "+", "@", "°", "é", "中", "²", "Ⅷ", "١", "\u0301", "\u00a0", "\u2028", "\u3000", "\u0085", "\u200b", "\u00ad", "\ue000", "\uffff", "😀", "𝔸", "\xff", "\xc3", "\"", "\\"}

// c21Names calls f with batches of names.
func c21Names(thorough bool, f func(desc string, names func() []string)) {
	const batch = 1024
	// every code point in the first, middle and last place
	var los []int
	for lo := 0; lo < 0x110000; lo += batch {
		switch {
		case lo >= 0xd800 && lo < 0xe000:
			continue // surrogates are not characters
		case lo >= 0x20000 && !thorough && lo != 0x20000 && lo != 0x2a400 && lo != 0x2f800 && lo != 0x30000 && lo != 0xe0000 && lo != 0xf0000 && lo != 0x10fc00:
			continue // ideographs, unassigned and private characters
		}
		los = append(los, lo)
	}
	for _, lo := range los {
		for form := range 3 {
			f(fmt.Sprintf("code points %x.. as %s", lo, []string{"first", "middle", "last"}[form]), func() (r []string) {
				for c := lo; c < lo+batch; c++ {
					s := string(rune(c))
					r = append(r, []string{s + "x", "x" + s + "x", "x" + s}[form])
				}
				return
			})
		}
	}
	// all strings of representatives and all short ASCII strings
	seqs := func(desc string, alphabet []string, n int) {
		for _, a := range alphabet {
			f(fmt.Sprintf("%s strings of %d starting with %q", desc, n, a), func() (r []string) {
				var rec func(s string, k int)
				rec = func(s string, k int) {
					if k == n {
						r = append(r, s)
						return
					}
					for _, x := range alphabet {
						rec(s+x, k+1)
					}
				}
				rec(a, 1)
				return
			})
		}
	}
	var ascii []string
	for c := range 128 {
		ascii = append(ascii, string(rune(c)))
	}
	seqs("ASCII", ascii, 2)
	seqs("representative", nameReps, 1)
	seqs("representative", nameReps, 3)
	if thorough {
		seqs("representative", nameReps, 4)
	}
	f("words", func() []string {
		r := []string{""}
		for _, w := range []string{"byte", "char", "int", "double", "string", "CLASS", "NAME", "DIMENSION_LIST", "REFERENCE_LIST", "_FillValue", "_NCProperties", "_Netcdf4Dimid", "_nc4_non_coord_x", "FillValue", "dim", "variables", "NaN", "a b", "a  b", " a", "a ", "..", ".", "a/b", "/a", "a/", "//"} {
			for _, suf := range []string{"", "x", "_", " ", ".", "/", "\n"} {
				r = append(r, w+suf)
			}
		}
		for _, n := range []int{1, 255, 256, 257, 4096} {
			r = append(r, strings.Repeat("n", n), strings.Repeat("n", n)+" ", strings.Repeat("é", n))
		}
		return r
	})
}

func c21Check(c *fw.Ctx, names []string) string {
	verd := map[string]verdict{}
	var uniq []string
	for _, n := range names {
		if _, has := verd[n]; !has {
			verd[n] = nameVerdict(n)
			uniq = append(uniq, n)
		}
	}
	type answer struct{ v, a, va, g bool }
	answers := map[string]answer{}
	for _, kind := range []netcdf.FileKind{netcdf.KindCDF, netcdf.KindHDF5} {
		kn := map[netcdf.FileKind]string{netcdf.KindCDF: "CDF", netcdf.KindHDF5: "HDF5"}[kind]
		for lo := 0; lo < len(uniq); lo += 256 {
			part := uniq[lo:min(lo+256, len(uniq))]
			path := filepath.Join(c.Dir, "w21.nc")
			w, err := netcdf.OpenWriter(path, kind)
			if err != nil {
				return err.Error()
			}
			m := &model.Group{}
			var gm *model.Group
			var grp api.Writer = w
			if kind == netcdf.KindHDF5 {
				// groups and variables share a name space, so one level deeper
				gm = &model.Group{Name: "groups"}
				if grp, err = w.CreateGroup("groups"); err != nil {
					return err.Error()
				}
			}
			var vattrs []model.Attr
			for i, n := range part {
				what := ""
				judge := func(k string, err error) bool {
					c.Trans(1)
					ok := err == nil
					if verd[n] == accept && !ok {
						what = fmt.Sprintf("%s %s %q: %v", kn, k, n, err)
					}
					if verd[n] == refuse && ok {
						what = fmt.Sprintf("%s %s %q accepted", kn, k, n)
					}
					return ok
				}
				var an answer
				v := model.Var{Name: n, Vals: int32(i)}
				if p := obs.Safe(func() {
					an.v = judge("variable", w.AddVar(n, v.APIVar()))
					if an.v {
						m.Vars = append(m.Vars, v)
					}
					if kind == netcdf.KindHDF5 && attrReserved[n] {
						if w.AddAttributes(model.AttrMap([]model.Attr{{Name: n, Val: int32(i)}})) == nil {
							what = "reserved attribute name accepted: " + n
						}
						an.a, an.va = true, true
						return
					}
					a := model.Attr{Name: n, Val: int32(i)}
					an.a = judge("attribute", w.AddAttributes(model.AttrMap([]model.Attr{a})))
					if an.a {
						m.Attrs = append(m.Attrs, a)
					}
					tmp := model.Var{Name: fmt.Sprintf("tmp%d", i), Vals: int8(1), Attrs: []model.Attr{a}}
					if i < 64 || verd[n] == refuse {
						an.va = judge("variable attribute", w.AddVar(tmp.Name, tmp.APIVar()))
						if an.va {
							m.Vars = append(m.Vars, tmp)
						}
					}
					if an.a {
						vattrs = append(vattrs, a)
					}
					if kind == netcdf.KindHDF5 {
						_, err := grp.CreateGroup(n)
						an.g = judge("group", err)
						if an.g {
							gm.Groups = append(gm.Groups, &model.Group{Name: n})
						}
						if an.g != an.v {
							what = fmt.Sprintf("%q as group %v, as variable %v", n, an.g, an.v)
						}
					}
				}); p != "" {
					return fmt.Sprintf("%s %q: panic: %s", kn, n, p)
				}
				if what != "" {
					w.Close()
					return what
				}
				if o, has := answers[n]; has && (o.v != an.v || o.a != an.a) {
					return fmt.Sprintf("%q: CDF says %v, %v, HDF5 says %v, %v", n, o.v, o.a, an.v, an.a)
				}
				answers[n] = an
			}
			if len(vattrs) > 0 {
				v := model.Var{Name: "with attributes", Vals: int8(1), Attrs: vattrs}
				c.Trans(1)
				if err := w.AddVar(v.Name, v.APIVar()); err != nil {
					return fmt.Sprintf("%s variable with %d accepted names as attributes: %v", kn, len(vattrs), err)
				}
				m.Vars = append(m.Vars, v)
			}
			if gm != nil {
				m.Groups = append(m.Groups, gm)
			}
			if p := obs.Safe(func() { err = w.Close() }); p != "" || err != nil {
				return fmt.Sprintf("%s Close: %v %s", kn, err, p)
			}
			bad := c14Content(c, path, kind, m)
			os.Remove(path)
			if bad != "" {
				return kn + " " + bad
			}
		}
	}
	c.State(len(uniq))
	for _, n := range uniq {
		c.Note([]string{"names_valid", "names_invalid", "names_unspecified"}[verd[n]], 1)
	}
	return ""
}

func init() {
	fw.Register(&fw.Prop{
		ID:    "C21",
		Level: "model_checking",
		Rule: "one case per batch of names; every name is offered to both real writers as a variable, global attribute, variable attribute and group name; the answer is compared with the specification of names and between the writers, and the file, " +
			"which has everything that was accepted, is read back and compared with the accepted calls.",
		Bounds: func(tier string) string {
			if tier == "thorough" {
				return "every Unicode code point as first, middle and last character; all ASCII strings of length 2; all strings of up to 4 of 36 representative characters and bytes; words and long names"
			}
			return "every code point below 0x20000 and selected ones above as first, middle and last character; all ASCII strings of length 2; all strings of 1 and 3 of 36 representative characters and bytes; words and long names"
		},
		Assumptions: []string{"names that are not UTF-8 and those with format, private-use or unassigned characters may be accepted or refused, but by both writers alike, and are returned unchanged if accepted",
			"the four attribute names that HDF5 files use themselves (CLASS, NAME, DIMENSION_LIST, REFERENCE_LIST) are refused by the HDF5 writer"},
		Enumerate: func(tier string, y fw.Yield) {
			c21Names(tier == "thorough", func(desc string, names func() []string) {
				y(func() string { return desc }, func(c *fw.Ctx) {
					if bad := c21Check(c, names()); bad != "" {
						c.Failf("%s", bad)
					}
				})
			})
		},
	})
}
