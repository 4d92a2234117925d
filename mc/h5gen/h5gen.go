// Package h5gen describes HDF5 files (types, datasets, storage, groups) and
// has the reference HDF5 library write them; the description also says what a
// reader must return.
package h5gen

/*
#cgo CFLAGS: -I/usr/include/hdf5/serial
#cgo LDFLAGS: -L/usr/lib/x86_64-linux-gnu -l:libhdf5_serial.so
#include <stdlib.h>
#include <string.h>
#include "hdf5.h"

static hid_t t_i8(void){return H5T_STD_I8LE;} static hid_t t_i16(void){return H5T_STD_I16LE;}
static hid_t t_i32(void){return H5T_STD_I32LE;} static hid_t t_i64(void){return H5T_STD_I64LE;}
static hid_t t_u8(void){return H5T_STD_U8LE;} static hid_t t_u16(void){return H5T_STD_U16LE;}
static hid_t t_u32(void){return H5T_STD_U32LE;} static hid_t t_u64(void){return H5T_STD_U64LE;}
static hid_t t_f32(void){return H5T_IEEE_F32LE;} static hid_t t_f64(void){return H5T_IEEE_F64LE;}
static hid_t t_i16b(void){return H5T_STD_I16BE;} static hid_t t_i32b(void){return H5T_STD_I32BE;}
static hid_t t_i64b(void){return H5T_STD_I64BE;} static hid_t t_u16b(void){return H5T_STD_U16BE;}
static hid_t t_u32b(void){return H5T_STD_U32BE;} static hid_t t_u64b(void){return H5T_STD_U64BE;}
static hid_t t_f32b(void){return H5T_IEEE_F32BE;} static hid_t t_f64b(void){return H5T_IEEE_F64BE;}
static hid_t t_str(void){return H5T_C_S1;} static hid_t t_ref(void){return H5T_STD_REF_OBJ;}
static hid_t c_fapl(void){return H5P_FILE_ACCESS;} static hid_t c_fcpl(void){return H5P_FILE_CREATE;}
static hid_t c_dcpl(void){return H5P_DATASET_CREATE;} static hid_t c_gcpl(void){return H5P_GROUP_CREATE;}
static hid_t c_ocpl(void){return H5P_OBJECT_CREATE;}
static void quiet(void){ H5Eset_auto2(H5E_DEFAULT, NULL, NULL); }
static void setvl(char *p, size_t n, void *q){ hvl_t v; v.len=n; v.p=q; memcpy(p,&v,sizeof v); }
static void setptr(char *p, void *q){ memcpy(p,&q,sizeof q); }
*/
import "C"

import (
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"sync"
	"unsafe"
)

// Class is a datatype class.
type Class int

// The classes.
const (
	Int Class = iota
	Float
	Str // fixed length
	VStr
	Enum
	Opaque
	Compound
	Array
	Vlen
)

// Type is a datatype.
type Type struct {
	Class    Class
	Size     int // Int, Float, Str, Opaque; Compound: 0 for packed
	Unsigned bool
	BE       bool
	Pad      int // Str, VStr: 0 nullterm, 1 nullpad, 2 spacepad
	UTF8     bool
	Tag      string
	Members  []Member
	Base     *Type
	Dims     []int
	Names    []string // enum
	Vals     []int64
	Named    string // committed under this name in the root group
}

// Member is a compound member.
type Member struct {
	Name string
	T    *Type
	Off  int // -1: right after the previous one
}

// Val is an element: uint64 (integers, floats and enums by their bits), string,
// []byte (opaque) or []Val.
type Val any

func (t *Type) String() string {
	switch t.Class {
	case Int:
		return fmt.Sprintf("%s%d%s", map[bool]string{true: "u", false: "i"}[t.Unsigned], t.Size*8, be(t.BE))
	case Float:
		return fmt.Sprintf("f%d%s", t.Size*8, be(t.BE))
	case Str:
		return fmt.Sprintf("str%d/%d%s", t.Size, t.Pad, utf(t.UTF8))
	case VStr:
		return fmt.Sprintf("vstr/%d%s", t.Pad, utf(t.UTF8))
	case Enum:
		return "enum" + fmt.Sprint(len(t.Names)) + "(" + t.Base.String() + ")"
	case Opaque:
		return fmt.Sprintf("opaque%d", t.Size)
	case Compound:
		var p []string
		for _, m := range t.Members {
			s := m.Name + ":" + m.T.String()
			if m.Off >= 0 {
				s += fmt.Sprintf("@%d", m.Off)
			}
			p = append(p, s)
		}
		s := "{" + strings.Join(p, ",") + "}"
		if t.Size > 0 {
			s += fmt.Sprintf("/%d", t.Size)
		}
		return s
	case Array:
		return fmt.Sprintf("array%v(%s)", t.Dims, t.Base)
	case Vlen:
		return "vlen(" + t.Base.String() + ")"
	}
	return "?"
}

func be(b bool) string {
	if b {
		return "be"
	}
	return ""
}
func utf(b bool) string {
	if b {
		return "u"
	}
	return ""
}

// offs are the member offsets and the total size in memory.
func (t *Type) offs() ([]int, int) {
	var o []int
	n := 0
	for _, m := range t.Members {
		p := n
		if m.Off >= 0 {
			p = m.Off
		}
		o = append(o, p)
		if e := p + m.T.MemSize(); e > n {
			n = e
		}
	}
	if t.Size > n {
		n = t.Size
	}
	return o, n
}

// MemSize is the size of an element in memory.
func (t *Type) MemSize() int {
	switch t.Class {
	case VStr:
		return 8
	case Vlen:
		return 16
	case Enum:
		return t.Base.Size
	case Array:
		n := t.Base.MemSize()
		for _, d := range t.Dims {
			n *= d
		}
		return n
	case Compound:
		_, n := t.offs()
		return n
	}
	return t.Size
}

// HasVlen tells whether elements hold pointers in memory.
func (t *Type) HasVlen() bool {
	switch t.Class {
	case VStr, Vlen:
		return true
	case Array:
		return t.Base.HasVlen()
	case Compound:
		for _, m := range t.Members {
			if m.T.HasVlen() {
				return true
			}
		}
	}
	return false
}

// Gen makes the i-th element; elements near each other differ in every byte.
func (t *Type) Gen(i int) Val {
	x := uint64(i)*0x9E3779B97F4A7C15 + 0x0123456789ABCDEF
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	switch t.Class {
	case Int:
		return x >> (64 - 8*uint(t.Size))
	case Float:
		f := float64(int64(x>>40)) * 1.5e-3
		if i%2 == 1 {
			f = -f
		}
		if t.Size == 4 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	case Str:
		n := t.Size
		if t.Pad == 0 && n > 1 {
			n--
		}
		n -= i % (n + 1) / 2
		if n < 1 && t.Size > 0 {
			n = 1
		}
		return letters(x, n)
	case VStr:
		return letters(x, i%5)
	case Enum:
		return uint64(t.Vals[i%len(t.Vals)]) & (^uint64(0) >> (64 - 8*uint(t.Base.Size)))
	case Opaque:
		b := make([]byte, t.Size)
		for k := range b {
			b[k] = byte(x>>(8*(uint(k)%8))) + byte(k)
		}
		return b
	case Compound:
		var v []Val
		for k, m := range t.Members {
			v = append(v, m.T.Gen(i*7+k+1))
		}
		return v
	case Array:
		n := 1
		for _, d := range t.Dims {
			n *= d
		}
		v := []Val{}
		for k := range n {
			v = append(v, t.Base.Gen(i*n+k))
		}
		return v
	case Vlen:
		v := []Val{}
		for k := range (i + 1) % 4 {
			v = append(v, t.Base.Gen(i*5+k))
		}
		return v
	}
	return nil
}

func letters(x uint64, n int) string {
	b := make([]byte, n)
	for k := range b {
		b[k] = 'a' + byte((x>>(5*(uint(k)%12))+uint64(k))%26)
	}
	return string(b)
}

// Pack gives the memory image (types without pointers only).
func (t *Type) Pack(v Val) []byte {
	m := &mem{}
	defer m.free()
	b := make([]byte, t.MemSize())
	t.pack(m, b, v)
	return b
}

type mem struct{ ps []unsafe.Pointer }

func (m *mem) alloc(n int) unsafe.Pointer {
	if n == 0 {
		n = 1
	}
	p := C.calloc(1, C.size_t(n))
	m.ps = append(m.ps, p)
	return p
}
func (m *mem) free() {
	for _, p := range m.ps {
		C.free(p)
	}
	m.ps = nil
}

func (t *Type) pack(m *mem, b []byte, v Val) {
	switch t.Class {
	case Int, Float:
		putInt(b, v.(uint64), t.Size, t.BE)
	case Enum:
		putInt(b, v.(uint64), t.Base.Size, t.Base.BE)
	case Str:
		n := copy(b, v.(string))
		if t.Pad == 2 {
			for ; n < t.Size; n++ {
				b[n] = ' '
			}
		}
	case Opaque:
		copy(b, v.([]byte))
	case VStr:
		s := v.(string)
		p := m.alloc(len(s) + 1)
		copy(unsafe.Slice((*byte)(p), len(s)+1), s)
		C.setptr((*C.char)(unsafe.Pointer(&b[0])), p)
	case Vlen:
		vs := v.([]Val)
		sz := t.Base.MemSize()
		p := m.alloc(sz * len(vs))
		bb := unsafe.Slice((*byte)(p), sz*len(vs)+1)
		for i, e := range vs {
			t.Base.pack(m, bb[i*sz:(i+1)*sz], e)
		}
		C.setvl((*C.char)(unsafe.Pointer(&b[0])), C.size_t(len(vs)), p)
	case Array:
		sz := t.Base.MemSize()
		for i, e := range v.([]Val) {
			t.Base.pack(m, b[i*sz:(i+1)*sz], e)
		}
	case Compound:
		o, _ := t.offs()
		for i, e := range v.([]Val) {
			t.Members[i].T.pack(m, b[o[i]:o[i]+t.Members[i].T.MemSize()], e)
		}
	}
}

func putInt(b []byte, v uint64, n int, big bool) {
	for i := range n {
		k := i
		if big {
			k = n - 1 - i
		}
		b[k] = byte(v >> (8 * uint(i)))
	}
}

// The Go values the reader is to return. Render prints them like the reader's
// own types of the same name.
type compoundField struct {
	Name string
	Val  any
}
type compound []compoundField
type opaque []uint8
type enumerated struct {
	values     any
	names      []string
	memberVals []any
}

func (t *Type) scalarGo() reflect.Type {
	if t.Class == Float {
		if t.Size == 4 {
			return reflect.TypeOf(float32(0))
		}
		return reflect.TypeOf(float64(0))
	}
	m := map[int][2]reflect.Type{
		1: {reflect.TypeOf(int8(0)), reflect.TypeOf(uint8(0))},
		2: {reflect.TypeOf(int16(0)), reflect.TypeOf(uint16(0))},
		4: {reflect.TypeOf(int32(0)), reflect.TypeOf(uint32(0))},
		8: {reflect.TypeOf(int64(0)), reflect.TypeOf(uint64(0))}}
	if t.Unsigned {
		return m[t.Size][1]
	}
	return m[t.Size][0]
}

func (t *Type) scalar(v uint64) reflect.Value {
	r := reflect.New(t.scalarGo()).Elem()
	switch {
	case t.Class == Float && t.Size == 4:
		*(r.Addr().Interface().(*float32)) = math.Float32frombits(uint32(v))
	case t.Class == Float:
		r.SetFloat(math.Float64frombits(v))
	case t.Unsigned:
		r.SetUint(v)
	default:
		sh := 64 - 8*uint(t.Size)
		r.SetInt(int64(v<<sh) >> sh)
	}
	return r
}

// elemGo is the Go type of one element.
func (t *Type) elemGo() reflect.Type {
	switch t.Class {
	case Int, Float:
		return t.scalarGo()
	case Str, VStr:
		return reflect.TypeOf("")
	case Enum:
		return t.Base.scalarGo()
	case Opaque:
		return reflect.TypeOf(opaque{})
	case Compound:
		return reflect.TypeOf(compound{})
	case Array:
		r := t.Base.elemGo()
		if t.Base.Class == Enum {
			r = t.Base.Base.scalarGo()
		}
		for range t.Dims {
			r = reflect.SliceOf(r)
		}
		return r
	case Vlen:
		b := t.Base.elemGo()
		if t.Base.leaf().Class == Enum {
			b = reflect.TypeOf(enumerated{})
		}
		return reflect.SliceOf(b)
	}
	return nil
}

func (t *Type) enumOf(values any) enumerated {
	e := enumerated{values: values, names: t.Names}
	for _, v := range t.Vals {
		e.memberVals = append(e.memberVals, t.Base.scalar(uint64(v)).Interface())
	}
	return e
}

// elem is the Go value of one element on its own (not for enums in an array).
func (t *Type) elem(v Val) reflect.Value {
	switch t.Class {
	case Int, Float:
		return t.scalar(v.(uint64))
	case Str:
		s := v.(string)
		if t.Pad == 2 { // padding is part of what is stored
			for len(s) < t.Size {
				s += " "
			}
		}
		s, _, _ = strings.Cut(s, "\x00") // a C string
		return reflect.ValueOf(s)
	case VStr:
		return reflect.ValueOf(v.(string))
	case Opaque:
		return reflect.ValueOf(opaque(append([]byte{}, v.([]byte)...)))
	case Enum:
		return t.Base.scalar(v.(uint64))
	case Compound:
		c := compound{}
		for i, m := range t.Members {
			c = append(c, compoundField{m.Name, m.T.Go(nil, []Val{v.([]Val)[i]})})
		}
		return reflect.ValueOf(c)
	case Array:
		return t.Base.nested(t.Dims, v.([]Val))
	case Vlen:
		vs := v.([]Val)
		s := reflect.MakeSlice(t.elemGo(), len(vs), len(vs))
		for i, e := range vs {
			s.Index(i).Set(reflect.ValueOf(t.Base.Go(nil, []Val{e})))
		}
		return s
	}
	return reflect.Value{}
}

// nested builds the nested slices of a shape.
func (t *Type) nested(shape []int, vs []Val) reflect.Value {
	if t.Class == Array {
		var flat []Val
		for _, v := range vs {
			flat = append(flat, v.([]Val)...)
		}
		return t.Base.nested(append(append([]int{}, shape...), t.Dims...), flat)
	}
	if t.Class == Str && t.Size == 1 && len(shape) > 0 {
		// character arrays: the last dimension becomes the string
		last := shape[len(shape)-1]
		n := 1
		for _, d := range shape[:len(shape)-1] {
			n *= d
		}
		ss := []Val{}
		for i := range n {
			b := ""
			for k := range last {
				s := vs[i*last+k].(string)
				if s == "" {
					s = "\x00"
				}
				b += s
			}
			ss = append(ss, strings.TrimRight(b, "\x00"))
		}
		return (&Type{Class: VStr}).nested(shape[:len(shape)-1], ss)
	}
	if len(shape) == 0 {
		return t.elem(vs[0])
	}
	et := t.elemGo()
	for range shape {
		et = reflect.SliceOf(et)
	}
	s := reflect.MakeSlice(et, shape[0], shape[0])
	per := 1
	for _, d := range shape[1:] {
		per *= d
	}
	for i := range shape[0] {
		s.Index(i).Set(t.nested(shape[1:], vs[i*per:(i+1)*per]))
	}
	return s
}

// leaf is the innermost element type below arrays.
func (t *Type) leaf() *Type {
	for t.Class == Array {
		t = t.Base
	}
	return t
}

// Go is the value the reader returns for a variable of this type and shape.
func (t *Type) Go(shape []int, vs []Val) any {
	v := t.nested(shape, vs).Interface()
	if l := t.leaf(); l.Class == Enum {
		return l.enumOf(v)
	}
	return v
}

// Norm makes renderings of the generator's and the reader's types comparable.
func Norm(s string) string { return strings.ReplaceAll(s, "h5gen.", "hdf5.") }

// Sub is the sub-array of a value made by Go.
func Sub(v any, shape []int, begin, end []int64) any {
	if e, ok := v.(enumerated); ok {
		e.values = Sub(e.values, shape, begin, end)
		return e
	}
	if len(begin) == 0 {
		return v
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.String {
		return rv.String()[begin[0]:end[0]]
	}
	n := int(end[0] - begin[0])
	out := reflect.MakeSlice(rv.Type(), n, n)
	for i := range n {
		out.Index(i).Set(reflect.ValueOf(Sub(rv.Index(int(begin[0])+i).Interface(), shape[1:], begin[1:], end[1:])))
	}
	return out.Interface()
}

// Window is one hyperslab written to a dataset.
type Window struct{ Start, Count []int }

// Filter kinds.
const (
	Deflate  = 'd'
	Shuffle  = 's'
	Fletcher = 'f'
)

// Fill says how a dataset's fill value is defined.
type Fill int

// Fill kinds.
const (
	FillDefault Fill = iota
	FillUndef
	FillValue
)

// Dataset is a dataset.
type Dataset struct {
	Name    string
	T       *Type
	Shape   []int // nil: scalar
	Max     []int // -1: unlimited; nil: as Shape
	Layout  byte  // 'C'ontiguous, 'K'ompact, 'H' chunked
	Chunk   []int
	Filters string
	Fill    Fill
	FillV   Val
	Early   bool // allocate space at creation
	Windows []Window
	All     bool // write everything
	Salt    int
	Attrs   []Attr
	Dense   int   // attributes beyond this go to dense storage (0: default)
	Track   bool  // track attribute creation order
	Resize  []int // grow to this shape after the writes (shape is then this)
	Comment string
	Masks   []int // per chunk (row-major, cyclic): filters to leave out, bit i for Filters[i]
}

// Attr is an attribute; Shape nil is scalar.
type Attr struct {
	Name  string
	T     *Type
	Shape []int
	Salt  int
	Null  bool // null dataspace
	Late  bool // made when everything else in the file is there
	Del   bool // deleted in the end
	Gone  bool // deleted before the late ones are made
}

// Link is a further hard link to an object: To is its path from the root.
type Link struct{ Name, To string }

// Group is a group.
type Group struct {
	Name   string
	Attrs  []Attr
	Items  []any // *Dataset, *Group, *Type (committed), *Link, in creation order
	Track  bool
	Dense  bool     // dense link storage from the start
	DenseA bool     // dense attribute storage from the start
	Del    []string // items deleted in the end

	Comment string
	Est     [2]int // estimated number of links and length of their names
	Phase   [2]int // links up to the first are in the header, below the second again
}

// File is a file.
type File struct {
	Libver  int // 0 earliest, 1 v18, 2 v110
	Root    *Group
	Block   int  // user block size
	Sparse  bool // write straight to the file, which may have holes
	IstoreK int
	SymK    [2]int // entries of the B-trees and of the nodes of symbol tables
	Space   int    // 1..4: strategy for free space, 5..8: it is kept in the file
	Page    int    // bytes of a page of the file
	Share   int    // kinds of messages that are shared
	NoTimes bool   // objects do not have the times of their changes
}

func (d *Dataset) String() string {
	s := fmt.Sprintf("%s:%s%v", d.Name, d.T, d.Shape)
	switch d.Layout {
	case 'K':
		s += " compact"
	case 'H':
		s += fmt.Sprintf(" chunk%v", d.Chunk)
		if d.Filters != "" {
			s += " filters=" + d.Filters
		}
	}
	switch d.Fill {
	case FillUndef:
		s += " fill=undef"
	case FillValue:
		s += " fill=v"
	}
	if d.Early {
		s += " early"
	}
	if !d.All {
		s += fmt.Sprintf(" wrote%v", d.Windows)
	}
	if d.Max != nil {
		s += fmt.Sprintf(" max%v", d.Max)
	}
	if d.Masks != nil {
		s += fmt.Sprintf(" masks%v", d.Masks)
	}
	if d.Resize != nil {
		s += fmt.Sprintf(" resize%v", d.Resize)
	}
	for _, a := range d.Attrs {
		s += " " + a.String()
	}
	return s
}

func (a Attr) String() string {
	if a.Null {
		return fmt.Sprintf("@%s:%s null", a.Name, a.T)
	}
	return fmt.Sprintf("@%s:%s%v", a.Name, a.T, a.Shape)
}

// FinalShape is the shape a reader sees.
func (d *Dataset) FinalShape() []int {
	if d.Resize != nil {
		return d.Resize
	}
	return d.Shape
}

// fillVal is the element standing in for what was never written. undefined
// says that the file does not determine it.
func (d *Dataset) fillVal() (v Val, undefined bool) {
	switch d.Fill {
	case FillValue:
		return d.FillV, false
	case FillUndef:
		return Zero(d.T), true
	}
	return Zero(d.T), false
}

// Zero is the all-zero element.
func Zero(t *Type) Val {
	switch t.Class {
	case Int, Float, Enum:
		return uint64(0)
	case Str:
		return "\x00" // also of space-padded strings
	case VStr:
		return ""
	case Opaque:
		return make([]byte, t.Size)
	case Vlen:
		return []Val{}
	case Compound:
		v := []Val{}
		for _, m := range t.Members {
			v = append(v, Zero(m.T))
		}
		return v
	case Array:
		n := 1
		for _, d := range t.Dims {
			n *= d
		}
		v := []Val{}
		for range n {
			v = append(v, Zero(t.Base))
		}
		return v
	}
	return nil
}

func prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

// Vals are all elements of the dataset in row-major order.
func (d *Dataset) Vals() []Val {
	sh := d.FinalShape()
	n := prod(sh)
	vs := make([]Val, n)
	fv, _ := d.fillVal()
	idx := make([]int, len(sh))
	for i := range n {
		r := i
		for k := len(sh) - 1; k >= 0; k-- {
			idx[k] = r % sh[k]
			r /= sh[k]
		}
		if d.written(idx) {
			vs[i] = d.T.Gen(d.linear(idx) + d.Salt)
		} else {
			vs[i] = fv
		}
	}
	return vs
}

// linear numbers elements by their index in the original shape.
func (d *Dataset) linear(idx []int) int {
	n := 0
	for k, x := range idx {
		n = n*d.Shape[k] + x
	}
	return n
}

func (d *Dataset) written(idx []int) bool {
	for k, x := range idx {
		if x >= d.Shape[k] {
			return false
		}
	}
	if d.All {
		return true
	}
	for _, w := range d.Windows {
		in := true
		for k, x := range idx {
			if x < w.Start[k] || x >= w.Start[k]+w.Count[k] {
				in = false
			}
		}
		if in {
			return true
		}
	}
	return false
}

// Part is the value of one part of the dataset.
func (d *Dataset) Part(begin, end []int64) any {
	sh := make([]int, len(begin))
	for k := range begin {
		sh[k] = int(end[k] - begin[k])
	}
	vs := make([]Val, prod(sh))
	fv, _ := d.fillVal()
	idx := make([]int, len(sh))
	for i := range vs {
		r := i
		for k := len(sh) - 1; k >= 0; k-- {
			idx[k] = int(begin[k]) + r%sh[k]
			r /= sh[k]
		}
		if vs[i] = fv; d.written(idx) {
			vs[i] = d.T.Gen(d.linear(idx) + d.Salt)
		}
	}
	return d.T.Go(sh, vs)
}

// Want is the value a reader returns for the dataset.
func (d *Dataset) Want() any { return d.T.Go(d.FinalShape(), d.Vals()) }

// Want is the value a reader returns for an attribute (one-element arrays as scalars).
func (a Attr) Want() any {
	if a.Null {
		if a.T.Class == Str {
			return "" // as netCDF writes an empty text
		}
		return a.T.Go([]int{0}, nil)
	}
	n := prod(a.Shape)
	vs := make([]Val, n)
	for i := range vs {
		vs[i] = a.T.Gen(i + a.Salt)
	}
	if len(a.Shape) == 0 || a.Shape[0] != 1 {
		return a.T.Go(a.Shape, vs)
	}
	return undoScalar(a.T.Go(a.Shape, vs))
}

// UndoScalar gives the element of a one-element list.
func UndoScalar(v any) any { return undoScalar(v) }

func undoScalar(v any) any {
	switch e := v.(type) {
	case opaque, compound:
		return v
	case enumerated:
		e.values = undoScalar(e.values)
		return e
	}
	rv := reflect.ValueOf(v)
	if rv.Kind() == reflect.Slice && rv.Len() == 1 {
		return rv.Index(0).Interface()
	}
	return v
}

// --- writing -----------------------------------------------------------------

var mu sync.Mutex

type gen struct {
	ids     []func()
	named   map[string]C.hid_t
	err     error
	parked  []unsafe.Pointer
	noTimes bool
}

func (g *gen) ck(id C.hid_t, what string) C.hid_t {
	if id < 0 && g.err == nil {
		g.err = fmt.Errorf("libhdf5: %s failed", what)
	}
	return id
}
func (g *gen) ce(e C.herr_t, what string) {
	if e < 0 && g.err == nil {
		g.err = fmt.Errorf("libhdf5: %s failed", what)
	}
}
func (g *gen) onClose(f func()) { g.ids = append(g.ids, f) }
func cs(s string) *C.char       { return C.CString(s) }

func (g *gen) typ(t *Type) C.hid_t {
	if t.Named != "" {
		if id, ok := g.named[t.Named]; ok {
			return id
		}
	}
	var id C.hid_t
	switch t.Class {
	case Int:
		fs := map[string]func() C.hid_t{
			"i1": func() C.hid_t { return C.t_i8() }, "u1": func() C.hid_t { return C.t_u8() },
			"i2": func() C.hid_t { return C.t_i16() }, "u2": func() C.hid_t { return C.t_u16() },
			"i4": func() C.hid_t { return C.t_i32() }, "u4": func() C.hid_t { return C.t_u32() },
			"i8": func() C.hid_t { return C.t_i64() }, "u8": func() C.hid_t { return C.t_u64() },
			"i1be": func() C.hid_t { return C.t_i8() }, "u1be": func() C.hid_t { return C.t_u8() },
			"i2be": func() C.hid_t { return C.t_i16b() }, "u2be": func() C.hid_t { return C.t_u16b() },
			"i4be": func() C.hid_t { return C.t_i32b() }, "u4be": func() C.hid_t { return C.t_u32b() },
			"i8be": func() C.hid_t { return C.t_i64b() }, "u8be": func() C.hid_t { return C.t_u64b() },
		}
		k := "i"
		if t.Unsigned {
			k = "u"
		}
		id = C.H5Tcopy(fs[fmt.Sprint(k, t.Size, be(t.BE))]())
	case Float:
		switch {
		case t.Size == 4 && t.BE:
			id = C.H5Tcopy(C.t_f32b())
		case t.Size == 4:
			id = C.H5Tcopy(C.t_f32())
		case t.BE:
			id = C.H5Tcopy(C.t_f64b())
		default:
			id = C.H5Tcopy(C.t_f64())
		}
	case Str, VStr:
		id = C.H5Tcopy(C.t_str())
		if t.Class == Str {
			g.ce(C.H5Tset_size(id, C.size_t(t.Size)), "set_size")
		} else {
			g.ce(C.H5Tset_size(id, C.H5T_VARIABLE), "set_size")
		}
		g.ce(C.H5Tset_strpad(id, C.H5T_str_t(t.Pad)), "strpad")
		if t.UTF8 {
			g.ce(C.H5Tset_cset(id, C.H5T_CSET_UTF8), "cset")
		}
	case Enum:
		id = C.H5Tenum_create(g.typ(t.Base))
		for i, n := range t.Names {
			b := make([]byte, 8)
			putInt(b, uint64(t.Vals[i]), t.Base.Size, t.Base.BE)
			c := cs(n)
			g.ce(C.H5Tenum_insert(id, c, unsafe.Pointer(&b[0])), "enum_insert")
			C.free(unsafe.Pointer(c))
		}
	case Opaque:
		id = C.H5Tcreate(C.H5T_OPAQUE, C.size_t(t.Size))
		c := cs(t.Tag)
		g.ce(C.H5Tset_tag(id, c), "tag")
		C.free(unsafe.Pointer(c))
	case Compound:
		o, n := t.offs()
		id = C.H5Tcreate(C.H5T_COMPOUND, C.size_t(n))
		for i, m := range t.Members {
			c := cs(m.Name)
			g.ce(C.H5Tinsert(id, c, C.size_t(o[i]), g.typ(m.T)), "insert")
			C.free(unsafe.Pointer(c))
		}
	case Array:
		d := hs(t.Dims)
		id = C.H5Tarray_create2(g.typ(t.Base), C.uint(len(t.Dims)), &d[0])
	case Vlen:
		id = C.H5Tvlen_create(g.typ(t.Base))
	}
	g.ck(id, "type "+t.String())
	g.onClose(func() { C.H5Tclose(id) })
	return id
}

func hs(d []int) []C.hsize_t {
	r := make([]C.hsize_t, len(d)+1)
	for i, x := range d {
		if x < 0 {
			r[i] = ^C.hsize_t(0)
		} else {
			r[i] = C.hsize_t(x)
		}
	}
	return r
}

func (g *gen) space(shape, max []int) C.hid_t {
	var id C.hid_t
	if shape == nil {
		id = C.H5Screate(C.H5S_SCALAR)
	} else {
		d := hs(shape)
		m := d
		if max != nil {
			m = hs(max)
		}
		id = C.H5Screate_simple(C.int(len(shape)), &d[0], &m[0])
	}
	g.ck(id, "space")
	g.onClose(func() { C.H5Sclose(id) })
	return id
}

func (g *gen) buf(t *Type, vs []Val) (unsafe.Pointer, *mem) {
	m := &mem{}
	sz := t.MemSize()
	p := m.alloc(sz*len(vs) + 1)
	b := unsafe.Slice((*byte)(p), sz*len(vs)+1)
	for i, v := range vs {
		t.pack(m, b[i*sz:(i+1)*sz], v)
	}
	return p, m
}

func (g *gen) attrs(loc C.hid_t, as []Attr, late bool) {
	for _, a := range as {
		if a.Late != late {
			continue
		}
		ty := g.typ(a.T)
		var sp C.hid_t
		if a.Null {
			sp = C.H5Screate(C.H5S_NULL)
			g.onClose(func() { C.H5Sclose(sp) })
		} else {
			sp = g.space(a.Shape, nil)
		}
		n := cs(a.Name)
		id := g.ck(C.H5Acreate2(loc, n, ty, sp, 0, 0), "attribute "+a.Name)
		C.free(unsafe.Pointer(n))
		if id < 0 {
			continue
		}
		vs := make([]Val, prod(a.Shape))
		for i := range vs {
			vs[i] = a.T.Gen(i + a.Salt)
		}
		if !a.Null && len(vs) > 0 {
			p, m := g.buf(a.T, vs)
			g.ce(C.H5Awrite(id, ty, p), "H5Awrite")
			m.free()
		}
		C.H5Aclose(id)
	}
}

func (g *gen) dataset(loc C.hid_t, d *Dataset) {
	id := g.create(loc, d, d.Name)
	if id < 0 {
		return
	}
	if d.Masks != nil {
		g.mask(loc, id, d)
	}
	if d.Resize != nil {
		c := hs(d.Resize)
		g.ce(C.H5Dset_extent(id, &c[0]), "extent")
	}
	g.attrs(id, d.Attrs, false)
	C.H5Dclose(id)
}

// finish makes the late attributes and deletes what is to be deleted.
func (g *gen) finish(loc C.hid_t, gr *Group) {
	obj := func(id C.hid_t, as []Attr, comment string) {
		if comment != "" {
			n := cs(comment)
			g.ce(C.H5Oset_comment(id, n), "H5Oset_comment")
			C.free(unsafe.Pointer(n))
		}
		for _, a := range as {
			if a.Gone {
				n := cs(a.Name)
				g.ce(C.H5Adelete(id, n), "H5Adelete")
				C.free(unsafe.Pointer(n))
			}
		}
		g.attrs(id, as, true)
		for _, a := range as {
			if a.Del {
				n := cs(a.Name)
				g.ce(C.H5Adelete(id, n), "H5Adelete")
				C.free(unsafe.Pointer(n))
			}
		}
	}
	obj(loc, gr.Attrs, gr.Comment)
	for _, it := range gr.Items {
		switch x := it.(type) {
		case *Dataset:
			n := cs(x.Name)
			id := g.ck(C.H5Dopen2(loc, n, 0), "H5Dopen")
			C.free(unsafe.Pointer(n))
			if id >= 0 {
				obj(id, x.Attrs, x.Comment)
				C.H5Dclose(id)
			}
		case *Group:
			n := cs(x.Name)
			id := g.ck(C.H5Gopen2(loc, n, 0), "H5Gopen")
			C.free(unsafe.Pointer(n))
			if id >= 0 {
				g.finish(id, x)
				C.H5Gclose(id)
			}
		}
	}
	for _, name := range gr.Del {
		n := cs(name)
		g.ce(C.H5Ldelete(loc, n, 0), "H5Ldelete")
		C.free(unsafe.Pointer(n))
	}
}

// mask replaces the stored chunks by ones that some filters are left out of. The
// reference library makes those by storing the same data without these filters.
func (g *gen) mask(loc, id C.hid_t, d *Dataset) {
	aux := map[int]C.hid_t{}
	chunks := 1
	var n []int
	for k := range d.Shape {
		n = append(n, (d.Shape[k]+d.Chunk[k]-1)/d.Chunk[k])
		chunks *= n[k]
	}
	for i := range chunks {
		m := d.Masks[i%len(d.Masks)] & (1<<len(d.Filters) - 1)
		if m == 0 {
			continue
		}
		if _, has := aux[m]; !has {
			d2 := *d
			d2.Filters = ""
			for j := range d.Filters {
				if m>>j&1 == 0 {
					d2.Filters += d.Filters[j : j+1]
				}
			}
			aux[m] = g.create(loc, &d2, "")
			g.ce(C.H5Dflush(aux[m]), "flush")
		}
		off := make([]int, len(d.Shape))
		r := i
		for k := len(n) - 1; k >= 0; k-- {
			off[k] = r % n[k] * d.Chunk[k]
			r /= n[k]
		}
		o := hs(off)
		var size C.hsize_t
		g.ce(C.H5Dget_chunk_storage_size(aux[m], &o[0], &size), "chunk size")
		if size == 0 {
			continue
		}
		buf := C.malloc(C.size_t(size))
		var fm C.uint32_t
		g.ce(C.H5Dread_chunk(aux[m], 0, &o[0], &fm, buf), "read_chunk")
		g.ce(C.H5Dwrite_chunk(id, 0, C.uint32_t(m), &o[0], C.size_t(size), buf), "write_chunk")
		C.free(buf)
	}
	for _, a := range aux {
		C.H5Dclose(a)
	}
}

// create makes a dataset (an anonymous one if there is no name) and writes to it.
func (g *gen) create(loc C.hid_t, d *Dataset, name string) C.hid_t {
	ty := g.typ(d.T)
	sp := g.space(d.Shape, d.Max)
	pl := C.H5Pcreate(C.c_dcpl())
	g.times(pl)
	defer C.H5Pclose(pl)
	switch d.Layout {
	case 'K':
		g.ce(C.H5Pset_layout(pl, C.H5D_COMPACT), "compact")
	case 'H':
		c := hs(d.Chunk)
		g.ce(C.H5Pset_chunk(pl, C.int(len(d.Chunk)), &c[0]), "chunk")
	}
	for _, f := range d.Filters {
		switch f {
		case Deflate:
			g.ce(C.H5Pset_deflate(pl, 4), "deflate")
		case Shuffle:
			g.ce(C.H5Pset_shuffle(pl), "shuffle")
		case Fletcher:
			g.ce(C.H5Pset_fletcher32(pl), "fletcher")
		}
	}
	switch d.Fill {
	case FillUndef:
		g.ce(C.H5Pset_fill_value(pl, ty, nil), "fill")
	case FillValue:
		p, m := g.buf(d.T, []Val{d.FillV})
		g.ce(C.H5Pset_fill_value(pl, ty, p), "fill")
		m.free()
	}
	if d.Early {
		g.ce(C.H5Pset_alloc_time(pl, C.H5D_ALLOC_TIME_EARLY), "alloc")
	}
	if d.Track {
		g.ce(C.H5Pset_attr_creation_order(pl, C.H5P_CRT_ORDER_TRACKED|C.H5P_CRT_ORDER_INDEXED), "attr order")
	}
	if d.Dense > 0 {
		g.ce(C.H5Pset_attr_phase_change(pl, C.uint(d.Dense), C.uint(d.Dense-1)), "phase")
	}
	var id C.hid_t
	if name == "" {
		id = g.ck(C.H5Dcreate_anon(loc, ty, sp, pl, 0), "anonymous dataset")
	} else {
		n := cs(name)
		id = g.ck(C.H5Dcreate2(loc, n, ty, sp, 0, pl, 0), "dataset "+name)
		C.free(unsafe.Pointer(n))
	}
	if id < 0 {
		return id
	}
	ws := d.Windows
	if d.All {
		ws = []Window{{make([]int, len(d.Shape)), d.Shape}}
	}
	for _, w := range ws {
		cnt := prod(w.Count)
		if cnt == 0 {
			continue
		}
		vs := make([]Val, cnt)
		idx := make([]int, len(w.Count))
		for i := range cnt {
			r := i
			for k := len(w.Count) - 1; k >= 0; k-- {
				idx[k] = w.Start[k] + r%w.Count[k]
				r /= w.Count[k]
			}
			vs[i] = d.T.Gen(d.linear(idx) + d.Salt)
		}
		p, m := g.buf(d.T, vs)
		if d.Shape == nil {
			g.ce(C.H5Dwrite(id, ty, 0, 0, 0, p), "write")
		} else {
			st, ct := hs(w.Start), hs(w.Count)
			fs := C.H5Scopy(sp)
			g.ce(C.H5Sselect_hyperslab(fs, C.H5S_SELECT_SET, &st[0], nil, &ct[0], nil), "select")
			ms := C.H5Screate_simple(C.int(len(w.Count)), &ct[0], nil)
			g.ce(C.H5Dwrite(id, ty, ms, fs, 0, p), "write "+d.Name)
			C.H5Sclose(fs)
			C.H5Sclose(ms)
		}
		m.free()
	}
	return id
}

func (g *gen) group(loc C.hid_t, gr *Group) {
	g.attrs(loc, gr.Attrs, false)
	for _, it := range gr.Items {
		switch x := it.(type) {
		case *Dataset:
			g.dataset(loc, x)
		case *Type:
			nm := x.Named
			x2 := *x
			x2.Named = ""
			id := g.typ(&x2)
			n := cs(nm)
			g.ce(C.H5Tcommit2(loc, n, id, 0, 0, 0), "commit")
			C.free(unsafe.Pointer(n))
			g.named[nm] = id
		case *Link:
			n, to := cs(x.Name), cs(x.To)
			g.ce(C.H5Lcreate_hard(loc, to, loc, n, 0, 0), "H5Lcreate_hard")
			C.free(unsafe.Pointer(n))
			C.free(unsafe.Pointer(to))
		case *Group:
			pl := C.H5Pcreate(C.c_gcpl())
			g.times(pl)
			g.gcpl(pl, x)
			n := cs(x.Name)
			id := g.ck(C.H5Gcreate2(loc, n, 0, pl, 0), "group "+x.Name)
			C.free(unsafe.Pointer(n))
			C.H5Pclose(pl)
			if id >= 0 {
				g.group(id, x)
				C.H5Gclose(id)
			}
		}
	}
}

func (g *gen) gcpl(pl C.hid_t, x *Group) {
	if x.Track {
		g.ce(C.H5Pset_link_creation_order(pl, C.H5P_CRT_ORDER_TRACKED|C.H5P_CRT_ORDER_INDEXED), "order")
		g.ce(C.H5Pset_attr_creation_order(pl, C.H5P_CRT_ORDER_TRACKED|C.H5P_CRT_ORDER_INDEXED), "order")
	}
	if x.Est != [2]int{} {
		g.ce(C.H5Pset_est_link_info(pl, C.uint(x.Est[0]), C.uint(x.Est[1])), "estimate")
	}
	if x.Phase != [2]int{} {
		g.ce(C.H5Pset_link_phase_change(pl, C.uint(x.Phase[0]), C.uint(x.Phase[1])), "phase")
	}
	if x.Dense {
		g.ce(C.H5Pset_link_phase_change(pl, 0, 0), "phase")
	}
	if x.DenseA {
		g.ce(C.H5Pset_attr_phase_change(pl, 0, 0), "phase")
	}
}

func (g *gen) times(pl C.hid_t) {
	if g.noTimes {
		g.ce(C.H5Pset_obj_track_times(pl, C.hbool_t(false)), "times")
	}
}

// Bytes has the reference library write the file and returns its bytes.
func Bytes(dir string, f *File) ([]byte, error) {
	path := filepath.Join(dir, "gen.h5")
	if err := Make(path, f); err != nil {
		return nil, err
	}
	b, err := os.ReadFile(path)
	os.Remove(path)
	return b, err
}

// Make has the reference library write the file.
func Make(path string, f *File) error {
	mu.Lock()
	defer mu.Unlock()
	C.quiet()
	g := &gen{named: map[string]C.hid_t{}, noTimes: f.NoTimes}
	fa := C.H5Pcreate(C.c_fapl())
	defer C.H5Pclose(fa)
	if !f.Sparse {
		g.ce(C.H5Pset_fapl_core(fa, 1<<16, true), "core")
	}
	lo := []C.H5F_libver_t{C.H5F_LIBVER_EARLIEST, C.H5F_LIBVER_V18, C.H5F_LIBVER_V110}[f.Libver]
	hi := []C.H5F_libver_t{C.H5F_LIBVER_V18, C.H5F_LIBVER_V18, C.H5F_LIBVER_V110}[f.Libver]
	if f.Space > 0 {
		hi = C.H5F_LIBVER_V110
	}
	g.ce(C.H5Pset_libver_bounds(fa, lo, hi), "libver")
	fc := C.H5Pcreate(C.c_fcpl())
	g.times(fc)
	defer C.H5Pclose(fc)
	g.gcpl(fc, f.Root)
	if f.Block > 0 {
		g.ce(C.H5Pset_userblock(fc, C.hsize_t(f.Block)), "userblock")
	}
	if f.IstoreK > 0 {
		g.ce(C.H5Pset_istore_k(fc, C.uint(f.IstoreK)), "istore_k")
	}
	if f.SymK != [2]int{} {
		g.ce(C.H5Pset_sym_k(fc, C.uint(f.SymK[0]), C.uint(f.SymK[1])), "sym_k")
	}
	if f.Space > 0 {
		g.ce(C.H5Pset_file_space_strategy(fc, C.H5F_fspace_strategy_t((f.Space-1)%4), C.bool(f.Space > 4), 1), "strategy")
	}
	if f.Page > 0 {
		g.ce(C.H5Pset_file_space_page_size(fc, C.hsize_t(f.Page)), "page")
	}
	if f.Share > 0 {
		g.ce(C.H5Pset_shared_mesg_nindexes(fc, 1), "indexes")
		g.ce(C.H5Pset_shared_mesg_index(fc, 0, C.uint(f.Share), 1), "index")
	}
	n := cs(path)
	id := g.ck(C.H5Fcreate(n, C.H5F_ACC_TRUNC, fc, fa), "H5Fcreate")
	C.free(unsafe.Pointer(n))
	if id >= 0 {
		rn := cs("/")
		r := C.H5Gopen2(id, rn, 0)
		C.free(unsafe.Pointer(rn))
		g.group(r, f.Root)
		g.finish(r, f.Root)
		C.H5Gclose(r)
		for i := len(g.ids) - 1; i >= 0; i-- {
			g.ids[i]()
		}
		g.ce(C.H5Fclose(id), "H5Fclose")
	}
	return g.err
}

var _ = binary.LittleEndian
