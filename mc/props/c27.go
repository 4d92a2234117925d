package props

import (
	"fmt"
	"os"
	"reflect"
	"slices"

	"github.com/batchatco/go-native-netcdf/netcdf"
	"github.com/batchatco/go-native-netcdf/netcdf/api"
	"github.com/batchatco/go-native-netcdf/verifmc/family"
	"github.com/batchatco/go-native-netcdf/verifmc/fw"
	"github.com/batchatco/go-native-netcdf/verifmc/model"
	"github.com/batchatco/go-native-netcdf/verifmc/obs"
	"github.com/batchatco/go-native-netcdf/verifmc/vsched"
)

// given renders the arguments of a writer call.
func given(v api.Variable) string {
	return fmt.Sprintf("%s %s %q %s", obs.Render(v.Values), capOf(v.Values), v.Dimensions[:cap(v.Dimensions)], obs.Attrs(v.Attributes, true))
}

// capOf also shows what lies behind the end of a slice.
func capOf(v any) string {
	rv := reflect.ValueOf(v)
	if rv.Kind() != reflect.Slice {
		return ""
	}
	return obs.Render(rv.Slice(0, rv.Cap()).Interface())
}

// copyGroup copies through the API.
func copyGroup(from api.Group, to api.Writer, calls *int) error {
	type arg struct {
		what   string
		v      api.Variable
		before string
	}
	var args []arg
	*calls += 3
	a := from.Attributes()
	if len(a.Keys()) > 0 {
		args = append(args, arg{"attributes", api.Variable{Attributes: a}, ""})
		x := &args[len(args)-1]
		x.before = given(x.v)
		if err := to.AddAttributes(a); err != nil {
			return fmt.Errorf("AddAttributes: %w", err)
		}
	}
	for _, n := range from.ListVariables() {
		*calls += 2
		v, err := from.GetVariable(n)
		if err != nil {
			return fmt.Errorf("GetVariable %q: %w", n, err)
		}
		args = append(args, arg{"variable " + n, *v, given(*v)})
		if err := to.AddVar(n, *v); err != nil {
			return fmt.Errorf("AddVar %q: %w", n, err)
		}
	}
	for _, n := range from.ListSubgroups() {
		*calls += 2
		fg, err := from.GetGroup(n)
		if err != nil {
			return fmt.Errorf("GetGroup %q: %w", n, err)
		}
		tg, err := to.CreateGroup(n)
		if err == nil {
			err = copyGroup(fg, tg, calls)
			tg.Close()
		} else {
			err = fmt.Errorf("CreateGroup %q: %w", n, err)
		}
		fg.Close()
		if err != nil {
			return err
		}
	}
	// the arguments are as they were
	for _, x := range args {
		if got := given(x.v); got != x.before {
			return fmt.Errorf("the writer changed its argument %s\n    was %s\n    is  %s", x.what, clip(x.before), clip(got))
		}
	}
	return nil
}

var copyOpt = obs.Opt{Types: true, AttrTypes: true, Getter: true, UserTypes: true}

// dumpOf also gives what the writer's copy of a file must show.
func copyFile(src, dst string, kind netcdf.FileKind, calls *int) (dump []string, problem string) {
	if p := obs.Safe(func() {
		g, err := netcdf.Open(src)
		if err != nil {
			problem = "open: " + err.Error()
			return
		}
		defer g.Close()
		dump = obs.Dump(g, copyOpt)
		*calls += len(dump)
		if dst == "" {
			return
		}
		w, err := netcdf.OpenWriter(dst, kind)
		if err != nil {
			problem = "OpenWriter: " + err.Error()
			return
		}
		err = copyGroup(g, w, calls)
		if err2 := w.Close(); err == nil && err2 != nil {
			err = fmt.Errorf("Close: %w", err2)
		}
		if err != nil {
			problem = err.Error()
		}
	}); p != "" {
		problem = p
	}
	return
}

// unnamed says whether a content has a dimension without a name.
func unnamed(m *model.Group) bool {
	for _, v := range m.Vars {
		if slices.Contains(v.Dims, "") {
			return true
		}
	}
	return slices.ContainsFunc(m.Groups, unnamed)
}

func c27Check(c *fw.Ctx, kind netcdf.FileKind, must bool, m *model.Group) {
	var paths [4]string
	for i := range paths {
		paths[i] = freshName(c)
		defer os.Remove(paths[i])
	}
	// the caller's own arguments are as they were
	before := m.String()
	defer func() { vsched.Order = nil }()
	n, problem := family.Write(paths[0], kind, m)
	c.Trans(n)
	if m.String() != before {
		c.Failf("the writer changed the values it was given\n    was %s\n    is  %s", before, m)
		return
	}
	if problem != "" {
		if must {
			c.Failf("not written: %s", problem)
		}
		c.Note("contents_refused", 1)
		return
	}
	var dumps [4][]string
	var bytes [4][]byte
	for i := range paths {
		dst := ""
		if i < 3 {
			dst = paths[i+1]
		}
		if i > 0 { // another order of all maps for each copy
			vsched.Order = func(n int) []int { return orders(n, 0)[i-1] }
		}
		dumps[i], problem = copyFile(paths[i], dst, kind, &n)
		vsched.Order = nil
		c.Trans(n)
		n = 0
		if problem != "" {
			c.Failf("copy %d: %s", i+1, problem)
			return
		}
		c.Trace(1)
		bytes[i], _ = os.ReadFile(paths[i])
		if i > 0 {
			if d := obs.Diff(dumps[0], dumps[i]); d != "" {
				c.Failf("copy %d reads differently: %s", i, d)
				return
			}
		}
		if i > 1 && !slices.Equal(bytes[i], bytes[i-1]) {
			c.Failf("copy %d has other bytes than copy %d: %d and %d bytes", i, i-1, len(bytes[i]), len(bytes[i-1]))
			return
		}
	}
	if !vsched.Instrumented() {
		panic("CHECK BROKEN: the code isn't instrumented")
	}
	c.Outcome(string(bytes[1]))
}

func init() {
	fw.Register(&fw.Prop{
		ID: "C27", Level: "model_checking",
		Rule:        "every program of both writers' families is executed, the file read completely through the API and written again with the same writer, three times over; all four files must read the same through every call, and the second and third copy must have the same bytes as the one before, though every copy is made with another order of iteration of all maps (the code is built with them under control); every argument of every writer call is compared with its state before (including what lies between length and capacity)",
		Bounds:      func(t string) string { return "the programs of the C01 and C04 families; 3 successive copies" },
		Assumptions: []string{"HDF5 dimensions are named: a variable without dimension names is read without a dimension list, which to AddVar means a single variable-length value"},
		Enumerate: func(tier string, y fw.Yield) {
			family.CDFPrograms(tier == "thorough", func(desc func() string, mk func() *model.Group) {
				y(func() string { return "CDF " + desc() }, func(c *fw.Ctx) { c27Check(c, netcdf.KindCDF, true, mk()) })
			})
			family.H5Programs(tier == "thorough", func(must bool, desc func() string, mk func() *model.Group) {
				if unnamed(mk()) {
					return
				}
				y(func() string { return "HDF5 " + desc() }, func(c *fw.Ctx) { c27Check(c, netcdf.KindHDF5, must, mk()) })
			})
		},
	})
}
