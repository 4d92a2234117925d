// Package refnc reads files with the reference netCDF-C library and checks
// them with the reference HDF5 library. It is the external oracle of the
// format properties.
package refnc

/*
#cgo CFLAGS: -I/usr/include/hdf5/serial
#cgo LDFLAGS: -L/usr/lib/x86_64-linux-gnu -l:libnetcdf.so.19 -l:libhdf5_serial.so
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include "hdf5.h"

typedef int nc_type;
typedef struct { size_t len; void *p; } vlen_t;
extern int nc_open(const char*, int, int*);
extern int nc_close(int);
extern const char *nc_strerror(int);
extern int nc_inq_format(int, int*);
extern int nc_inq_dimids(int, int*, int*, int);
extern int nc_inq_unlimdims(int, int*, int*);
extern int nc_inq_dim(int, int, char*, size_t*);
extern int nc_inq_varids(int, int*, int*);
extern int nc_inq_var(int, int, char*, nc_type*, int*, int*, int*);
extern int nc_inq_varnatts(int, int, int*);
extern int nc_inq_natts(int, int*);
extern int nc_inq_attname(int, int, int, char*);
extern int nc_inq_att(int, int, const char*, nc_type*, size_t*);
extern int nc_inq_varid(int, const char*, int*);
extern int nc_get_vara(int, int, const size_t*, const size_t*, void*);
extern int nc_get_att(int, int, const char*, void*);
extern int nc_get_var(int, int, void*);
extern int nc_inq_grps(int, int*, int*);
extern int nc_inq_grpname(int, char*);
extern int nc_inq_user_type(int, nc_type, char*, size_t*, nc_type*, size_t*, int*);
extern int nc_inq_type(int, nc_type, char*, size_t*);
extern int nc_inq_var_fill(int, int, int*, void*);

// h5walk opens every object and attribute and reads all data.
static char h5msg[4096];
static int h5n;
static int attcount(hid_t loc) {
	H5O_info_t oi;
	if (H5Oget_info2(loc, &oi, H5O_INFO_ALL) < 0) return -1;
	for (hsize_t i = 0; i < oi.num_attrs; i++) {
		hid_t a = H5Aopen_by_idx(loc, ".", H5_INDEX_NAME, H5_ITER_INC, i, H5P_DEFAULT, H5P_DEFAULT);
		if (a < 0) { snprintf(h5msg, sizeof h5msg, "attribute %d does not open", (int)i); return -1; }
		char nm[2048]; nm[0] = 0; H5Aget_name(a, sizeof nm, nm);
		hid_t t = H5Aget_type(a), s = H5Aget_space(a);
		if (t < 0 || s < 0) { snprintf(h5msg, sizeof h5msg, "attribute %s: type or space", nm); return -1; }
		hssize_t np = H5Sget_simple_extent_npoints(s);
		size_t sz = H5Tget_size(t);
		void *b = calloc(np > 0 ? np : 1, sz);
		if (np > 0) {
			if (H5Aread(a, t, b) < 0) { snprintf(h5msg, sizeof h5msg, "attribute %s does not read", nm); return -1; }
			if (H5Tdetect_class(t, H5T_VLEN) || (H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t)))
				H5Dvlen_reclaim(t, s, H5P_DEFAULT, b);
		}
		free(b); H5Tclose(t); H5Sclose(s); H5Aclose(a);
		h5n++;
	}
	return 0;
}
static herr_t visit(hid_t root, const char *name, const H5O_info_t *info, void *op) {
	hid_t o = H5Oopen(root, name, H5P_DEFAULT);
	if (o < 0) { snprintf(h5msg, sizeof h5msg, "object %s does not open", name); return -1; }
	h5n++;
	if (attcount(o) < 0) { H5Oclose(o); return -1; }
	if (info->type == H5O_TYPE_DATASET) {
		hid_t t = H5Dget_type(o), s = H5Dget_space(o);
		hssize_t np = H5Sget_simple_extent_npoints(s);
		size_t sz = H5Tget_size(t);
		if (np > 0 && np * sz < (1u << 28)) {
			void *b = calloc(np, sz);
			if (H5Dread(o, t, H5S_ALL, H5S_ALL, H5P_DEFAULT, b) < 0) {
				snprintf(h5msg, sizeof h5msg, "dataset %s does not read", name); free(b); H5Oclose(o); return -1; }
			if (H5Tdetect_class(t, H5T_VLEN) || (H5Tget_class(t) == H5T_STRING && H5Tis_variable_str(t)))
				H5Dvlen_reclaim(t, s, H5P_DEFAULT, b);
			free(b);
		}
		H5Tclose(t); H5Sclose(s);
	}
	H5Oclose(o);
	return 0;
}
static herr_t errwalk(unsigned n, const H5E_error2_t *e, void *p) {
	size_t l = strlen(h5msg);
	if (l < 1500) snprintf(h5msg + l, sizeof h5msg - l, "; %s: %s", e->func_name, e->desc);
	return 0;
}
static int h5walk(const char *path) {
	H5Eset_auto2(H5E_DEFAULT, NULL, NULL);
	h5msg[0] = 0; h5n = 0;
	hid_t fa = H5Pcreate(H5P_FILE_ACCESS);
	H5Pset_fclose_degree(fa, H5F_CLOSE_STRONG);
	hid_t f = H5Fopen(path, H5F_ACC_RDONLY, fa);
	H5Pclose(fa);
	if (f < 0) { snprintf(h5msg, sizeof h5msg, "H5Fopen"); H5Ewalk2(H5E_DEFAULT, H5E_WALK_UPWARD, errwalk, NULL); return -1; }
	herr_t r = H5Ovisit2(f, H5_INDEX_NAME, H5_ITER_INC, visit, NULL, H5O_INFO_ALL);
	if (r < 0) { if (!h5msg[0]) snprintf(h5msg, sizeof h5msg, "H5Ovisit"); H5Ewalk2(H5E_DEFAULT, H5E_WALK_UPWARD, errwalk, NULL); H5Fclose(f); return -1; }
	H5Fclose(f);
	return h5n;
}
static const char *h5message(void) { return h5msg; }
static char *strat(char **p, size_t i) { return p[i]; }
static size_t vlenlen(vlen_t *p, size_t i) { return p[i].len; }
static void *vlenptr(vlen_t *p, size_t i) { return p[i].p; }
static void noerr(void) { H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
*/
import "C"

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"unsafe"

	"github.com/batchatco/go-native-netcdf/verifmc/cdfspec"
)

// NC_STRING and user type classes.
const (
	String = 12
	Vlen   = 13
)

// Dim of a group.
type Dim struct {
	Name  string
	Len   int64
	Unlim bool
}

// Data is typed data: one of the fields is set.
type Data struct {
	Type int    // 1..12, or Vlen
	Base int    // of a Vlen
	Raw  []byte // big-endian elements
	Strs []string
	Seqs [][]byte // big-endian
}

// Attr of a group or variable.
type Attr struct {
	Name string
	N    int64
	Data
}

// Var of a group.
type Var struct {
	Name  string
	Dims  []string
	Shape []int64
	Attrs []Attr
	Data
}

// Group is what the reference library shows.
type Group struct {
	Name   string
	Format int
	Dims   []Dim
	Attrs  []Attr
	Vars   []Var
	Groups []*Group
}

type ncErr string

func chk(what string, rc C.int) {
	if rc != 0 {
		panic(ncErr(fmt.Sprintf("%s: %s (%d)", what, C.GoString(C.nc_strerror(rc)), int(rc))))
	}
}

// Walk opens everything in a file with libhdf5; it returns the number of
// objects and attributes read.
func Walk(path string) (int, error) {
	p := C.CString(path)
	defer C.free(unsafe.Pointer(p))
	n := C.h5walk(p)
	if n < 0 {
		return 0, fmt.Errorf("%s", C.GoString(C.h5message()))
	}
	return int(n), nil
}

// Read opens a file with libnetcdf and reads everything.
func Read(path string) (g *Group, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ncErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	C.noerr()
	p := C.CString(path)
	defer C.free(unsafe.Pointer(p))
	var id C.int
	chk("nc_open", C.nc_open(p, 0, &id))
	defer C.nc_close(id)
	g = readGroup(id)
	var f C.int
	chk("nc_inq_format", C.nc_inq_format(id, &f))
	g.Format = int(f)
	return g, nil
}

// Part reads one part of a variable, as Var.Data has it.
func Part(path, name string, begin, end []int64) (b []byte, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(ncErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			panic(r)
		}
	}()
	C.noerr()
	p, n := C.CString(path), C.CString(name)
	defer C.free(unsafe.Pointer(p))
	defer C.free(unsafe.Pointer(n))
	var id, v, t C.int
	chk("nc_open", C.nc_open(p, 0, &id))
	defer C.nc_close(id)
	chk("nc_inq_varid", C.nc_inq_varid(id, n, &v))
	chk("nc_inq_var", C.nc_inq_var(id, v, nil, &t, nil, nil, nil))
	var st, ct []C.size_t
	total := int64(1)
	for k := range begin {
		st = append(st, C.size_t(begin[k]))
		ct = append(ct, C.size_t(end[k]-begin[k]))
		total *= end[k] - begin[k]
	}
	return readData(id, t, total, func(p unsafe.Pointer) { chk("nc_get_vara", C.nc_get_vara(id, v, &st[0], &ct[0], p)) }).Raw, nil
}

func readGroup(id C.int) *Group {
	g := &Group{}
	name := (*C.char)(C.calloc(1, 4096))
	defer C.free(unsafe.Pointer(name))
	ints := func(f func(*C.int, *C.int) C.int, what string) []C.int {
		var n C.int
		chk(what, f(&n, nil))
		if n == 0 {
			return nil
		}
		ids := make([]C.int, n)
		chk(what, f(&n, &ids[0]))
		return ids
	}
	unlim := map[C.int]bool{}
	for _, u := range ints(func(n, p *C.int) C.int { return C.nc_inq_unlimdims(id, n, p) }, "nc_inq_unlimdims") {
		unlim[u] = true
	}
	for _, d := range ints(func(n, p *C.int) C.int { return C.nc_inq_dimids(id, n, p, 0) }, "nc_inq_dimids") {
		var l C.size_t
		chk("nc_inq_dim", C.nc_inq_dim(id, d, name, &l))
		g.Dims = append(g.Dims, Dim{C.GoString(name), int64(l), unlim[d]})
	}
	var na C.int
	chk("nc_inq_natts", C.nc_inq_natts(id, &na))
	g.Attrs = readAttrs(id, -1, na)
	for _, v := range ints(func(n, p *C.int) C.int { return C.nc_inq_varids(id, n, p) }, "nc_inq_varids") {
		var t, nd, natts C.int
		dimids := make([]C.int, 1100)
		chk("nc_inq_var", C.nc_inq_var(id, v, name, &t, &nd, &dimids[0], &natts))
		nv := Var{Name: C.GoString(name)}
		total := int64(1)
		for _, d := range dimids[:nd] {
			var l C.size_t
			chk("nc_inq_dim", C.nc_inq_dim(id, d, name, &l))
			nv.Dims = append(nv.Dims, C.GoString(name))
			nv.Shape = append(nv.Shape, int64(l))
			total *= int64(l)
		}
		nv.Attrs = readAttrs(id, v, natts)
		nv.Data = readData(id, t, total, func(p unsafe.Pointer) { chk("nc_get_var "+nv.Name, C.nc_get_var(id, v, p)) })
		g.Vars = append(g.Vars, nv)
	}
	for _, s := range ints(func(n, p *C.int) C.int { return C.nc_inq_grps(id, n, p) }, "nc_inq_grps") {
		chk("nc_inq_grpname", C.nc_inq_grpname(s, name))
		n := C.GoString(name)
		sg := readGroup(s)
		sg.Name = n
		g.Groups = append(g.Groups, sg)
	}
	return g
}

func readAttrs(id, v, n C.int) []Attr {
	var as []Attr
	name := (*C.char)(C.calloc(1, 4096))
	defer C.free(unsafe.Pointer(name))
	for i := range n {
		chk("nc_inq_attname", C.nc_inq_attname(id, v, i, name))
		var t C.int
		var l C.size_t
		chk("nc_inq_att", C.nc_inq_att(id, v, name, &t, &l))
		a := Attr{Name: C.GoString(name), N: int64(l)}
		a.Data = readData(id, t, int64(l), func(p unsafe.Pointer) { chk("nc_get_att "+a.Name, C.nc_get_att(id, v, name, p)) })
		as = append(as, a)
	}
	return as
}

func swap(b []byte, sz int) []byte {
	out := make([]byte, len(b))
	for i := 0; i+sz <= len(b); i += sz {
		for k := range sz {
			out[i+k] = b[i+sz-1-k]
		}
	}
	return out
}

func readData(id, t C.int, n int64, get func(unsafe.Pointer)) Data {
	d := Data{Type: int(t)}
	sz := int64(cdfspec.Size(int(t)))
	switch {
	case t == String:
		sz = 8
	case t > String:
		var size C.size_t
		var base, class C.int
		var nf C.size_t
		name := (*C.char)(C.calloc(1, 4096))
		chk("nc_inq_user_type", C.nc_inq_user_type(id, t, name, &size, &base, &nf, &class))
		C.free(unsafe.Pointer(name))
		if class != 13 {
			panic(ncErr(fmt.Sprint("user type class ", int(class))))
		}
		d.Type, d.Base = Vlen, int(base)
		sz = 16
	}
	buf := C.calloc(C.size_t(n*sz+16), 1)
	defer C.free(buf)
	if n > 0 {
		get(buf)
	}
	switch {
	case t == String:
		for i := range n {
			p := C.strat((**C.char)(buf), C.size_t(i))
			if p == nil {
				d.Strs = append(d.Strs, "")
				continue
			}
			d.Strs = append(d.Strs, C.GoString(p))
			C.free(unsafe.Pointer(p))
		}
	case d.Type == Vlen:
		bs := cdfspec.Size(d.Base)
		for i := range n {
			l := C.vlenlen((*C.vlen_t)(buf), C.size_t(i))
			p := C.vlenptr((*C.vlen_t)(buf), C.size_t(i))
			var b []byte
			if l > 0 {
				b = C.GoBytes(p, C.int(int(l)*bs))
				C.free(p)
			}
			d.Seqs = append(d.Seqs, swap(b, bs))
		}
	default:
		d.Raw = swap(C.GoBytes(buf, C.int(n*sz)), int(sz))
	}
	return d
}

// Value gives nested Go values of the shape (characters: the last dimension is a string).
func (d Data) Value(shape []int64) any {
	switch d.Type {
	case String:
		pos := 0
		var build func(shape []int64) reflect.Value
		build = func(shape []int64) reflect.Value {
			if len(shape) == 0 {
				pos++
				return reflect.ValueOf(d.Strs[pos-1])
			}
			t := reflect.TypeOf("")
			for range shape {
				t = reflect.SliceOf(t)
			}
			s := reflect.MakeSlice(t, int(shape[0]), int(shape[0]))
			for i := range int(shape[0]) {
				s.Index(i).Set(build(shape[1:]))
			}
			return s
		}
		return build(shape).Interface()
	case Vlen:
		if len(shape) == 0 {
			return cdfspec.Value(d.Base, d.Seqs[0], []int64{int64(len(d.Seqs[0]) / cdfspec.Size(d.Base))})
		}
		if len(shape) != 1 {
			return fmt.Sprint("vlen of rank ", len(shape))
		}
		t := reflect.SliceOf(cdfspec.GoType(d.Base))
		s := reflect.MakeSlice(reflect.SliceOf(t), len(d.Seqs), len(d.Seqs))
		for i := range d.Seqs {
			s.Index(i).Set(reflect.ValueOf(cdfspec.Value(d.Base, d.Seqs[i], []int64{int64(len(d.Seqs[i]) / cdfspec.Size(d.Base))})))
		}
		return s.Interface()
	}
	return cdfspec.Value(d.Type, d.Raw, shape)
}

var _ = binary.BigEndian
