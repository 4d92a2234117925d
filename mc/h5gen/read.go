package h5gen

/*
#include <stdlib.h>
#include <string.h>
#include "hdf5.h"

static size_t vl_len(char *p){ hvl_t v; memcpy(&v,p,sizeof v); return v.len; }
static void *vl_ptr(char *p){ hvl_t v; memcpy(&v,p,sizeof v); return v.p; }
static char *s_ptr(char *p){ char *q; memcpy(&q,p,sizeof q); return q; }
static char msg[2048];
static herr_t errw(unsigned n, const H5E_error2_t *e, void *p) {
	size_t l = strlen(msg);
	if (l < 1000) { strncat(msg, "; ", 3); strncat(msg, e->desc, 200); }
	return 0;
}
static char *errs(void){ msg[0]=0; H5Ewalk2(H5E_DEFAULT, H5E_WALK_UPWARD, errw, NULL); return msg; }
static hid_t openstrong(char *p){
	hid_t fa = H5Pcreate(H5P_FILE_ACCESS);
	H5Pset_fclose_degree(fa, H5F_CLOSE_STRONG);
	hid_t f = H5Fopen(p, H5F_ACC_RDONLY, fa);
	H5Pclose(fa); return f; }
static void hush(void){ H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
static herr_t ltype(hid_t g, const char *n, int *t){
	H5O_info_t oi; herr_t r = H5Oget_info_by_name2(g, n, &oi, H5O_INFO_BASIC, H5P_DEFAULT);
	*t = (int)oi.type; return r; }
static int nattrs(hid_t o){ H5O_info_t oi; if (H5Oget_info2(o, &oi, H5O_INFO_ALL) < 0) return -1; return (int)oi.num_attrs; }
static hssize_t refname(hid_t o, char *p, char *out, size_t n){
	hid_t d = H5Rdereference2(o, H5P_DEFAULT, H5R_OBJECT, p);
	if (d < 0) return -1;
	hssize_t r = H5Iget_name(d, out, n); H5Oclose(d); return r; }
static int ispointer(hid_t t){ return H5Tdetect_class(t, H5T_VLEN) > 0 || H5Tdetect_class(t, H5T_STRING) > 0; }
*/
import "C"

import (
	"fmt"
	"unsafe"
)

// Ref is an object reference; its values are the names of the objects.
const Ref Class = 100

// RAttr is an attribute as libhdf5 reads it.
type RAttr struct {
	Name  string
	T     *Type
	Shape []int // nil: scalar
	Null  bool
	Value any
	Vals  []Val
}

// RDataset is a dataset as libhdf5 reads it.
type RDataset struct {
	RAttr
	Attrs []RAttr
}

// Attr finds an attribute.
func (d *RDataset) Attr(name string) *RAttr {
	for i := range d.Attrs {
		if d.Attrs[i].Name == name {
			return &d.Attrs[i]
		}
	}
	return nil
}

// RGroup is a group as libhdf5 reads it.
type RGroup struct {
	Name     string
	Attrs    []RAttr
	Datasets []*RDataset
	Groups   []*RGroup
	Types    []string
}

type readErr string

// Read has the reference library read a whole file.
func Read(path string) (g *RGroup, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(readErr); ok {
				err = fmt.Errorf("libhdf5: %s", string(e))
				return
			}
			panic(r)
		}
	}()
	mu.Lock()
	defer mu.Unlock()
	C.hush()
	n := C.CString(path)
	defer C.free(unsafe.Pointer(n))
	f := ok(C.openstrong(n), "file")
	defer C.H5Fclose(f)
	r := C.CString("/")
	defer C.free(unsafe.Pointer(r))
	id := ok(C.H5Gopen2(f, r, 0), "root")
	defer C.H5Gclose(id)
	return rgroup(id, ""), nil
}

func ok(id C.hid_t, what string) C.hid_t {
	if id < 0 {
		panic(readErr(what + C.GoString(C.errs())))
	}
	return id
}

func rgroup(id C.hid_t, name string) *RGroup {
	g := &RGroup{Name: name, Attrs: rattrs(id)}
	var info C.H5G_info_t
	ok(C.hid_t(C.H5Gget_info(id, &info)), "group info of "+name)
	dot := C.CString(".")
	defer C.free(unsafe.Pointer(dot))
	buf := (*C.char)(C.calloc(1, 70000))
	defer C.free(unsafe.Pointer(buf))
	for i := range int(info.nlinks) {
		if C.H5Lget_name_by_idx(id, dot, C.H5_INDEX_NAME, C.H5_ITER_INC, C.hsize_t(i), buf, 70000, 0) < 0 {
			panic(readErr("link name"))
		}
		ln := C.GoString(buf)
		var t C.int
		ok(C.hid_t(C.ltype(id, buf, &t)), "link "+ln)
		o := ok(C.H5Oopen(id, buf, 0), "object "+ln)
		switch t {
		case C.H5O_TYPE_GROUP:
			g.Groups = append(g.Groups, rgroup(o, ln))
		case C.H5O_TYPE_DATASET:
			d := &RDataset{RAttr: RAttr{Name: ln}}
			ty := ok(C.H5Dget_type(o), "type of "+ln)
			sp := ok(C.H5Dget_space(o), "space of "+ln)
			rvalue(&d.RAttr, o, ty, sp, func(p unsafe.Pointer) C.herr_t { return C.H5Dread(o, ty, 0, 0, 0, p) })
			C.H5Tclose(ty)
			C.H5Sclose(sp)
			d.Attrs = rattrs(o)
			g.Datasets = append(g.Datasets, d)
		default:
			g.Types = append(g.Types, ln)
		}
		C.H5Oclose(o)
	}
	return g
}

func rattrs(o C.hid_t) (as []RAttr) {
	n := C.nattrs(o)
	if n < 0 {
		panic(readErr("attribute count" + C.GoString(C.errs())))
	}
	dot := C.CString(".")
	defer C.free(unsafe.Pointer(dot))
	buf := (*C.char)(C.calloc(1, 70000))
	defer C.free(unsafe.Pointer(buf))
	for i := range n {
		a := ok(C.H5Aopen_by_idx(o, dot, C.H5_INDEX_NAME, C.H5_ITER_INC, C.hsize_t(i), 0, 0), "attribute")
		C.H5Aget_name(a, 70000, buf)
		r := RAttr{Name: C.GoString(buf)}
		ty := ok(C.H5Aget_type(a), "type of "+r.Name)
		sp := ok(C.H5Aget_space(a), "space of "+r.Name)
		rvalue(&r, o, ty, sp, func(p unsafe.Pointer) C.herr_t { return C.H5Aread(a, ty, p) })
		C.H5Tclose(ty)
		C.H5Sclose(sp)
		C.H5Aclose(a)
		as = append(as, r)
	}
	return as
}

func rvalue(r *RAttr, o, ty, sp C.hid_t, get func(unsafe.Pointer) C.herr_t) {
	r.T = rtype(ty)
	switch C.H5Sget_simple_extent_type(sp) {
	case C.H5S_NULL:
		r.Null = true
		r.Value = ""
		if r.T.Class != Str {
			r.Value = r.T.Go([]int{0}, nil)
		}
		return
	case C.H5S_SIMPLE:
		n := C.H5Sget_simple_extent_ndims(sp)
		d := make([]C.hsize_t, int(n)+1)
		C.H5Sget_simple_extent_dims(sp, &d[0], nil)
		r.Shape = []int{}
		for i := range int(n) {
			r.Shape = append(r.Shape, int(d[i]))
		}
	}
	n := prod(r.Shape)
	sz := int(C.H5Tget_size(ty))
	buf := C.calloc(C.size_t(n*sz+1), 1)
	defer C.free(buf)
	if n > 0 {
		if get(buf) < 0 {
			panic(readErr("reading " + r.Name + C.GoString(C.errs())))
		}
	}
	b := unsafe.Slice((*byte)(buf), n*sz+1)
	r.Vals = make([]Val, n)
	for i := range n {
		r.Vals[i] = r.T.unpack(o, b[i*sz:(i+1)*sz])
	}
	if n > 0 && C.ispointer(ty) > 0 {
		C.H5Dvlen_reclaim(ty, sp, 0, buf)
	}
	if !r.T.hasRef() {
		r.Value = r.T.Go(r.Shape, r.Vals)
	}
}

func (t *Type) hasRef() bool {
	for t.Base != nil {
		t = t.Base
	}
	if t.Class == Ref {
		return true
	}
	for _, m := range t.Members {
		if m.T.hasRef() {
			return true
		}
	}
	return false
}

func rtype(id C.hid_t) *Type {
	t := &Type{Size: int(C.H5Tget_size(id)), BE: C.H5Tget_order(id) == C.H5T_ORDER_BE}
	base := func() *Type {
		b := ok(C.H5Tget_super(id), "base type")
		defer C.H5Tclose(b)
		return rtype(b)
	}
	switch C.H5Tget_class(id) {
	case C.H5T_INTEGER:
		t.Class, t.Unsigned = Int, C.H5Tget_sign(id) == C.H5T_SGN_NONE
	case C.H5T_FLOAT:
		t.Class = Float
	case C.H5T_STRING:
		t.Class, t.BE = Str, false
		if C.H5Tis_variable_str(id) > 0 {
			t.Class = VStr
		}
		t.Pad = int(C.H5Tget_strpad(id))
		t.UTF8 = C.H5Tget_cset(id) == C.H5T_CSET_UTF8
	case C.H5T_ENUM:
		t.Class, t.Base = Enum, base()
		for i := range C.H5Tget_nmembers(id) {
			n := C.H5Tget_member_name(id, C.uint(i))
			t.Names = append(t.Names, C.GoString(n))
			C.H5free_memory(unsafe.Pointer(n))
			var b [8]byte
			C.H5Tget_member_value(id, C.uint(i), unsafe.Pointer(&b[0]))
			t.Vals = append(t.Vals, int64(getInt(b[:t.Base.Size], t.Base.BE)))
		}
	case C.H5T_OPAQUE:
		t.Class = Opaque
		n := C.H5Tget_tag(id)
		t.Tag = C.GoString(n)
		C.H5free_memory(unsafe.Pointer(n))
	case C.H5T_COMPOUND:
		t.Class = Compound
		for i := range C.H5Tget_nmembers(id) {
			n := C.H5Tget_member_name(id, C.uint(i))
			m := C.H5Tget_member_type(id, C.uint(i))
			t.Members = append(t.Members, Member{C.GoString(n), rtype(m), int(C.H5Tget_member_offset(id, C.uint(i)))})
			C.H5Tclose(m)
			C.H5free_memory(unsafe.Pointer(n))
		}
	case C.H5T_ARRAY:
		t.Class, t.Base = Array, base()
		n := C.H5Tget_array_ndims(id)
		d := make([]C.hsize_t, int(n)+1)
		C.H5Tget_array_dims2(id, &d[0])
		for i := range int(n) {
			t.Dims = append(t.Dims, int(d[i]))
		}
	case C.H5T_VLEN:
		t.Class, t.Base = Vlen, base()
	case C.H5T_REFERENCE:
		t.Class = Ref
	default:
		panic(readErr("unexpected type class"))
	}
	return t
}

func getInt(b []byte, big bool) (v uint64) {
	for i := range b {
		k := len(b) - 1 - i
		if big {
			k = i
		}
		v = v<<8 | uint64(b[k])
	}
	return v
}

func (t *Type) unpack(o C.hid_t, b []byte) Val {
	p := (*C.char)(unsafe.Pointer(&b[0]))
	switch t.Class {
	case Int, Float:
		return getInt(b[:t.Size], t.BE)
	case Enum:
		return getInt(b[:t.Base.Size], t.Base.BE)
	case Str:
		return string(b[:t.Size])
	case VStr:
		q := C.s_ptr(p)
		if q == nil {
			return ""
		}
		return C.GoString(q)
	case Opaque:
		return append([]byte{}, b[:t.Size]...)
	case Compound:
		v := []Val{}
		for _, m := range t.Members {
			v = append(v, m.T.unpack(o, b[m.Off:m.Off+m.T.Size]))
		}
		return v
	case Array:
		v := []Val{}
		for i := range prod(t.Dims) {
			v = append(v, t.Base.unpack(o, b[i*t.Base.Size:(i+1)*t.Base.Size]))
		}
		return v
	case Vlen:
		n, q := int(C.vl_len(p)), C.vl_ptr(p)
		v := []Val{}
		if n > 0 {
			bb := unsafe.Slice((*byte)(q), n*t.Base.Size)
			for i := range n {
				v = append(v, t.Base.unpack(o, bb[i*t.Base.Size:(i+1)*t.Base.Size]))
			}
		}
		return v
	case Ref:
		out := (*C.char)(C.calloc(1, 70000))
		defer C.free(unsafe.Pointer(out))
		if C.refname(o, p, out, 70000) < 0 {
			panic(readErr("dereference" + C.GoString(C.errs())))
		}
		return C.GoString(out)
	}
	return nil
}
