package h5gen

/*
#cgo CFLAGS: -I/usr/include/hdf5/serial
#cgo LDFLAGS: -L/usr/lib/x86_64-linux-gnu -l:libnetcdf.so.19 -l:libhdf5_serial.so
#include <stdlib.h>
#include <string.h>

extern int nc_create(const char*, int, int*);
extern int nc_close(int);
extern int nc_enddef(int);
extern const char *nc_strerror(int);
extern int nc_def_grp(int, const char*, int*);
extern int nc_def_dim(int, const char*, size_t, int*);
extern int nc_def_var(int, const char*, int, int, const int*, int*);
extern int nc_def_var_chunking(int, int, int, const size_t*);
extern int nc_def_var_deflate(int, int, int, int, int);
extern int nc_def_var_fletcher32(int, int, int);
extern int nc_def_var_fill(int, int, int, const void*);
extern int nc_put_att(int, int, const char*, int, size_t, const void*);
extern int nc_put_vara(int, int, const size_t*, const size_t*, const void*);
extern int nc_put_var(int, int, const void*);
extern int nc_def_compound(int, size_t, const char*, int*);
extern int nc_insert_compound(int, int, const char*, size_t, int);
extern int nc_insert_array_compound(int, int, const char*, size_t, int, int, const int*);
extern int nc_def_vlen(int, const char*, int, int*);
extern int nc_def_opaque(int, size_t, const char*, int*);
extern int nc_def_enum(int, int, const char*, int*);
extern int nc_insert_enum(int, int, const char*, const void*);
*/
import "C"

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unsafe"
)

// NC describes a netCDF-4 file that the reference netCDF library writes.
type NC struct {
	Classic bool // the classic model
	Root    *NCGroup
}

// NCGroup is a group.
type NCGroup struct {
	Name   string
	Types  []*Type // with their names in Named
	Dims   []NCDim
	Attrs  []Attr // text: T is Str and the shape is nil
	Vars   []*NCVar
	Groups []*NCGroup
}

// NCDim is a dimension.
type NCDim struct {
	Name  string
	Len   int
	Unlim bool // Len is then what the data gives
}

// NCVar is a variable.
type NCVar struct {
	Name    string
	T       *Type // Str of size 1 is NC_CHAR, VStr is NC_STRING
	Dims    []string
	Shape   []int // of the dimensions
	Attrs   []Attr
	Layout  byte // 0 default, 'C' contiguous, 'H' chunked, 'K' compact
	Chunk   []int
	Filters string
	NoFill  bool
	FillV   Val // written as _FillValue (before the attributes)
	All     bool
	Windows []Window
	Salt    int
}

func (g *NCGroup) String() string {
	var s []string
	for _, t := range g.Types {
		s = append(s, "type "+t.Named+"="+t.String())
	}
	for _, d := range g.Dims {
		u := ""
		if d.Unlim {
			u = "*"
		}
		s = append(s, fmt.Sprintf("dim %s=%d%s", d.Name, d.Len, u))
	}
	for _, a := range g.Attrs {
		s = append(s, a.String())
	}
	for _, v := range g.Vars {
		s = append(s, v.String())
	}
	for _, x := range g.Groups {
		s = append(s, x.Name+"{"+x.String()+"}")
	}
	return strings.Join(s, " ")
}

func (f *NC) String() string {
	if f.Classic {
		return "nc4classic{" + f.Root.String() + "}"
	}
	return "nc4{" + f.Root.String() + "}"
}

func (v *NCVar) String() string {
	s := fmt.Sprintf("%s:%s(%s)", v.Name, v.T, strings.Join(v.Dims, ","))
	if v.Layout != 0 {
		s += " " + string(v.Layout)
	}
	if v.Chunk != nil {
		s += fmt.Sprint(v.Chunk)
	}
	if v.Filters != "" {
		s += " filters=" + v.Filters
	}
	if v.NoFill {
		s += " nofill"
	}
	if v.FillV != nil {
		s += " fillv"
	}
	if !v.All {
		s += fmt.Sprint(" wrote", v.Windows)
	}
	for _, a := range v.Attrs {
		s += " " + a.String()
	}
	return s
}

// DefaultFill is the fill value netCDF gives to a type, nil if it gives none.
func DefaultFill(t *Type) Val {
	switch t.Class {
	case Str:
		return "\x00"
	case VStr:
		return ""
	case Float:
		if t.Size == 4 {
			return uint64(math.Float32bits(9.9692099683868690e+36))
		}
		return math.Float64bits(9.9692099683868690e+36)
	case Int:
		k := map[string]int64{"i1": -127, "u1": 255, "i2": -32767, "u2": 65535, "i4": -2147483647, "u4": 4294967295, "i8": -9223372036854775806}
		n := fmt.Sprint("i", t.Size)
		if t.Unsigned {
			n = fmt.Sprint("u", t.Size)
		}
		if n == "u8" {
			return uint64(18446744073709551614)
		}
		return uint64(k[n]) & (^uint64(0) >> (64 - 8*uint(t.Size)))
	}
	return nil
}

func (v *NCVar) dataset() *Dataset {
	d := &Dataset{Name: v.Name, T: v.T, Shape: v.Shape, Windows: v.Windows, All: v.All, Salt: v.Salt, Attrs: v.Attrs}
	switch {
	case v.FillV != nil:
		d.Fill, d.FillV = FillValue, v.FillV
	case v.NoFill:
		d.Fill = FillUndef
	default:
		if f := DefaultFill(v.T); f != nil {
			d.Fill, d.FillV = FillValue, f
		}
	}
	return d
}

// Want is the value a reader returns for the variable.
func (v *NCVar) Want() any { return v.dataset().Want() }

// FillAttr is the _FillValue attribute that the fill value makes.
func (v *NCVar) FillAttr() any { return undoScalar(v.T.Go([]int{1}, []Val{v.FillV})) }

type ncerr string

type ncw struct {
	types map[string]C.int
}

func nck(what string, rc C.int) {
	if rc != 0 {
		panic(ncerr(fmt.Sprintf("netCDF-C: %s: %s", what, C.GoString(C.nc_strerror(rc)))))
	}
}

func withC(s string, f func(c *C.char) C.int) C.int {
	c := C.CString(s)
	defer C.free(unsafe.Pointer(c))
	return f(c)
}

func (w *ncw) typ(t *Type) C.int {
	if t.Named != "" {
		id, ok := w.types[t.Named]
		if !ok {
			panic(ncerr("type " + t.Named + " is not defined"))
		}
		return id
	}
	switch t.Class {
	case Int:
		id := map[int]C.int{1: 1, 2: 3, 4: 4, 8: 10}[t.Size]
		if t.Unsigned {
			id = map[int]C.int{1: 7, 2: 8, 4: 9, 8: 11}[t.Size]
		}
		return id
	case Float:
		return map[int]C.int{4: 5, 8: 6}[t.Size]
	case Str:
		return 2
	case VStr:
		return 12
	}
	panic(ncerr("type " + t.String() + " has no name"))
}

func (w *ncw) defType(id C.int, t *Type) {
	var x C.int
	name := t.Named
	switch t.Class {
	case Compound:
		o, n := t.offs()
		nck("def_compound", withC(name, func(c *C.char) C.int { return C.nc_def_compound(id, C.size_t(n), c, &x) }))
		for i, m := range t.Members {
			nck("insert_compound", withC(m.Name, func(c *C.char) C.int {
				if m.T.Class == Array && m.T.Named == "" {
					ds := make([]C.int, len(m.T.Dims))
					for k, d := range m.T.Dims {
						ds[k] = C.int(d)
					}
					return C.nc_insert_array_compound(id, x, c, C.size_t(o[i]), w.typ(m.T.Base), C.int(len(ds)), &ds[0])
				}
				return C.nc_insert_compound(id, x, c, C.size_t(o[i]), w.typ(m.T))
			}))
		}
	case Vlen:
		nck("def_vlen", withC(name, func(c *C.char) C.int { return C.nc_def_vlen(id, c, w.typ(t.Base), &x) }))
	case Opaque:
		nck("def_opaque", withC(name, func(c *C.char) C.int { return C.nc_def_opaque(id, C.size_t(t.Size), c, &x) }))
	case Enum:
		nck("def_enum", withC(name, func(c *C.char) C.int { return C.nc_def_enum(id, w.typ(t.Base), c, &x) }))
		for i, n := range t.Names {
			b := make([]byte, 8)
			putInt(b, uint64(t.Vals[i]), t.Base.Size, false)
			nck("insert_enum", withC(n, func(c *C.char) C.int { return C.nc_insert_enum(id, x, c, unsafe.Pointer(&b[0])) }))
		}
	default:
		panic(ncerr("no user-defined type " + t.String()))
	}
	w.types[name] = x
}

func (w *ncw) attr(id, v C.int, a Attr) {
	var p unsafe.Pointer
	var m *mem
	n := prod(a.Shape)
	ty := w.typ(a.T)
	g := &gen{}
	if a.T.Class == Str && a.Shape == nil {
		m = &mem{}
		s := a.T.Gen(a.Salt).(string)
		p = m.alloc(len(s) + 1)
		copy(unsafe.Slice((*byte)(p), len(s)+1), s)
		n = len(s)
		if a.Null {
			n = 0
		}
	} else {
		if a.Null {
			n = 0
		}
		vs := make([]Val, n)
		for i := range vs {
			vs[i] = a.T.Gen(i + a.Salt)
		}
		p, m = g.buf(a.T, vs)
	}
	defer m.free()
	nck("put_att "+a.Name, withC(a.Name, func(c *C.char) C.int { return C.nc_put_att(id, v, c, ty, C.size_t(n), p) }))
}

func (w *ncw) group(id C.int, x *NCGroup, dims map[string]C.int, late *[]func()) {
	dims = func() map[string]C.int {
		m := map[string]C.int{}
		for k, v := range dims {
			m[k] = v
		}
		return m
	}()
	for _, t := range x.Types {
		w.defType(id, t)
	}
	for _, d := range x.Dims {
		n := C.size_t(d.Len)
		if d.Unlim {
			n = 0
		}
		var di C.int
		nck("def_dim "+d.Name, withC(d.Name, func(c *C.char) C.int { return C.nc_def_dim(id, c, n, &di) }))
		dims[d.Name] = di
	}
	for _, a := range x.Attrs {
		w.attr(id, -1, a)
	}
	for _, v := range x.Vars {
		ds := make([]C.int, len(v.Dims)+1)
		for i, d := range v.Dims {
			y, ok := dims[d]
			if !ok {
				panic(ncerr("no dimension " + d))
			}
			ds[i] = y
		}
		var vi C.int
		nck("def_var "+v.Name, withC(v.Name, func(c *C.char) C.int {
			return C.nc_def_var(id, c, w.typ(v.T), C.int(len(v.Dims)), &ds[0], &vi)
		}))
		switch v.Layout {
		case 'C':
			nck("chunking", C.nc_def_var_chunking(id, vi, 1, nil))
		case 'K':
			nck("chunking", C.nc_def_var_chunking(id, vi, 2, nil))
		case 'H':
			cs := make([]C.size_t, len(v.Chunk))
			for i, n := range v.Chunk {
				cs[i] = C.size_t(n)
			}
			nck("chunking", C.nc_def_var_chunking(id, vi, 0, &cs[0]))
		}
		sh, df := C.int(0), C.int(0)
		if strings.Contains(v.Filters, "s") {
			sh = 1
		}
		if strings.Contains(v.Filters, "d") {
			df = 1
		}
		if sh+df > 0 {
			nck("deflate", C.nc_def_var_deflate(id, vi, sh, df, 5))
		}
		if strings.Contains(v.Filters, "f") {
			nck("fletcher32", C.nc_def_var_fletcher32(id, vi, 1))
		}
		if v.FillV != nil {
			p, m := (&gen{}).buf(v.T, []Val{v.FillV})
			nck("_FillValue", withC("_FillValue", func(c *C.char) C.int { return C.nc_put_att(id, vi, c, w.typ(v.T), 1, p) }))
			m.free()
		} else if v.NoFill {
			nck("nofill", C.nc_def_var_fill(id, vi, 1, nil))
		}
		for _, a := range v.Attrs {
			w.attr(id, vi, a)
		}
		*late = append(*late, func() { w.data(id, vi, v) })
	}
	for _, s := range x.Groups {
		var gi C.int
		nck("def_grp", withC(s.Name, func(c *C.char) C.int { return C.nc_def_grp(id, c, &gi) }))
		w.group(gi, s, dims, late)
	}
}

func (w *ncw) data(id, vi C.int, v *NCVar) {
	d := v.dataset()
	elem := func(idx []int) Val { return v.T.Gen(d.linear(idx) + v.Salt) }
	ws := v.Windows
	if v.All {
		ws = []Window{{make([]int, len(v.Shape)), v.Shape}}
	}
	for _, win := range ws {
		n := prod(win.Count)
		vs := make([]Val, n)
		st, ct := make([]C.size_t, len(v.Shape)+1), make([]C.size_t, len(v.Shape)+1)
		for i := range v.Shape {
			st[i], ct[i] = C.size_t(win.Start[i]), C.size_t(win.Count[i])
		}
		for k := range n {
			idx := make([]int, len(v.Shape))
			r := k
			for i := len(idx) - 1; i >= 0; i-- {
				idx[i] = win.Start[i] + r%win.Count[i]
				r /= win.Count[i]
			}
			vs[k] = elem(idx)
		}
		if n == 0 {
			continue
		}
		p, m := (&gen{}).buf(v.T, vs)
		nck("put "+v.Name, C.nc_put_vara(id, vi, &st[0], &ct[0], p))
		m.free()
	}
}

// NCBytes has netCDF-C write the file.
func NCBytes(dir string, f *NC) (b []byte, err error) {
	mu.Lock()
	defer mu.Unlock()
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(ncerr)
			if !ok {
				panic(r)
			}
			b, err = nil, fmt.Errorf("%s", string(e))
		}
	}()
	ncSeq++
	path := filepath.Join(dir, fmt.Sprintf("gen%d.nc4", ncSeq))
	defer os.Remove(path)
	mode := C.int(0x1000)
	if f.Classic {
		mode |= 0x0100
	}
	var id C.int

	nck("create", withC(path, func(c *C.char) C.int { return C.nc_create(c, mode, &id) }))
	closed := false
	defer func() {
		if !closed {
			C.nc_close(id)
		}
	}()
	var late []func()
	(&ncw{map[string]C.int{}}).group(id, f.Root, map[string]C.int{}, &late)
	nck("enddef", C.nc_enddef(id))
	for _, l := range late {
		l()
	}
	closed = true
	nck("close", C.nc_close(id))
	return os.ReadFile(path)
}

var ncSeq int
