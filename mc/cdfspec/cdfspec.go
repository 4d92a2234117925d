// Package cdfspec is an independent implementation of the published netCDF
// classic / 64-bit offset / 64-bit data (CDF-5) file format: a strict decoder
// and an encoder. It shares no code with the library under test; it is bound
// to the reference C library by the refnc package's tests and checks.
package cdfspec

import (
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"unicode/utf8"
)

// Types of the format.
const (
	Byte = iota + 1
	Char
	Short
	Int
	Float
	Double
	UByte
	UShort
	UInt
	Int64
	UInt64
)

// Size of one element.
func Size(t int) int {
	switch t {
	case Byte, Char, UByte:
		return 1
	case Short, UShort:
		return 2
	case Int, Float, UInt:
		return 4
	case Double, Int64, UInt64:
		return 8
	}
	return 0
}

// GoType of a stored type (Char: byte).
func GoType(t int) reflect.Type {
	switch t {
	case Byte:
		return reflect.TypeOf(int8(0))
	case Char:
		return reflect.TypeOf("")
	case Short:
		return reflect.TypeOf(int16(0))
	case Int:
		return reflect.TypeOf(int32(0))
	case Float:
		return reflect.TypeOf(float32(0))
	case Double:
		return reflect.TypeOf(float64(0))
	case UByte:
		return reflect.TypeOf(uint8(0))
	case UShort:
		return reflect.TypeOf(uint16(0))
	case UInt:
		return reflect.TypeOf(uint32(0))
	case Int64:
		return reflect.TypeOf(int64(0))
	case UInt64:
		return reflect.TypeOf(uint64(0))
	}
	return nil
}

// Code is the stored type of a Go leaf type.
func Code(t reflect.Type) int {
	switch t.Kind() {
	case reflect.Int8:
		return Byte
	case reflect.String:
		return Char
	case reflect.Int16:
		return Short
	case reflect.Int32:
		return Int
	case reflect.Float32:
		return Float
	case reflect.Float64:
		return Double
	case reflect.Uint8:
		return UByte
	case reflect.Uint16:
		return UShort
	case reflect.Uint32:
		return UInt
	case reflect.Int64:
		return Int64
	case reflect.Uint64:
		return UInt64
	}
	return 0
}

// Dim is a dimension; Len 0 is the record dimension.
type Dim struct {
	Name string
	Len  int64
}

// Attr is an attribute with its raw big-endian data.
type Attr struct {
	Name string
	Type int
	N    int64
	Data []byte
}

// Var is a variable with its raw big-endian data in logical order.
type Var struct {
	Name   string
	DimIDs []int
	Attrs  []Attr
	Type   int
	Data   []byte
	// filled by Decode, or computed by Encode
	VSize int64
	Begin int64
	// Encode only: bytes of Data missing at the end (never written, fixed variables in last place only)
	Record bool
}

// File is the decoded content.
type File struct {
	Version int
	NumRecs int64
	Dims    []Dim
	Attrs   []Attr
	Vars    []Var
}

// Raw gives the big-endian bytes of a Go scalar, slice or nested slice.
func Raw(v any) []byte {
	var out []byte
	var rec func(rv reflect.Value)
	rec = func(rv reflect.Value) {
		switch rv.Kind() {
		case reflect.Slice:
			for i := range rv.Len() {
				rec(rv.Index(i))
			}
		case reflect.String:
			out = append(out, rv.String()...)
		case reflect.Int8:
			out = append(out, byte(rv.Int()))
		case reflect.Uint8:
			out = append(out, byte(rv.Uint()))
		case reflect.Int16:
			out = binary.BigEndian.AppendUint16(out, uint16(rv.Int()))
		case reflect.Uint16:
			out = binary.BigEndian.AppendUint16(out, uint16(rv.Uint()))
		case reflect.Int32:
			out = binary.BigEndian.AppendUint32(out, uint32(rv.Int()))
		case reflect.Uint32:
			out = binary.BigEndian.AppendUint32(out, uint32(rv.Uint()))
		case reflect.Int64:
			out = binary.BigEndian.AppendUint64(out, uint64(rv.Int()))
		case reflect.Uint64:
			out = binary.BigEndian.AppendUint64(out, rv.Uint())
		case reflect.Float32:
			out = binary.BigEndian.AppendUint32(out, math.Float32bits(rv.Interface().(float32)))
		case reflect.Float64:
			out = binary.BigEndian.AppendUint64(out, math.Float64bits(rv.Float()))
		default:
			panic("cdfspec.Raw: " + rv.Kind().String())
		}
	}
	rec(reflect.ValueOf(v))
	return out
}

// Value converts raw data of a type and logical shape to nested Go values
// (Char: the last dimension becomes a string; scalar Char a one-byte string).
func Value(t int, raw []byte, shape []int64) any {
	sz := Size(t)
	pos := 0
	scalar := func() reflect.Value {
		v := reflect.New(GoType(t)).Elem()
		b := raw[pos : pos+sz]
		pos += sz
		switch t {
		case Byte:
			v.SetInt(int64(int8(b[0])))
		case UByte:
			v.SetUint(uint64(b[0]))
		case Short:
			v.SetInt(int64(int16(binary.BigEndian.Uint16(b))))
		case UShort:
			v.SetUint(uint64(binary.BigEndian.Uint16(b)))
		case Int:
			v.SetInt(int64(int32(binary.BigEndian.Uint32(b))))
		case UInt:
			v.SetUint(uint64(binary.BigEndian.Uint32(b)))
		case Int64:
			v.SetInt(int64(binary.BigEndian.Uint64(b)))
		case UInt64:
			v.SetUint(binary.BigEndian.Uint64(b))
		case Float:
			v.Set(reflect.ValueOf(math.Float32frombits(binary.BigEndian.Uint32(b))))
		case Double:
			v.SetFloat(math.Float64frombits(binary.BigEndian.Uint64(b)))
		}
		return v
	}
	if t == Char {
		if len(shape) == 0 {
			return string(raw[:1])
		}
		var build func(shape []int64) reflect.Value
		build = func(shape []int64) reflect.Value {
			if len(shape) == 1 {
				n := int(shape[0])
				s := string(raw[pos : pos+n])
				pos += n
				return reflect.ValueOf(s)
			}
			st := GoType(t)
			for range len(shape) - 1 {
				st = reflect.SliceOf(st)
			}
			s := reflect.MakeSlice(st, int(shape[0]), int(shape[0]))
			for i := range int(shape[0]) {
				s.Index(i).Set(build(shape[1:]))
			}
			return s
		}
		return build(shape).Interface()
	}
	var build func(shape []int64) reflect.Value
	build = func(shape []int64) reflect.Value {
		if len(shape) == 0 {
			return scalar()
		}
		st := GoType(t)
		for range shape {
			st = reflect.SliceOf(st)
		}
		s := reflect.MakeSlice(st, int(shape[0]), int(shape[0]))
		for i := range int(shape[0]) {
			s.Index(i).Set(build(shape[1:]))
		}
		return s
	}
	return build(shape).Interface()
}

// AttrValue is the attribute as this library's API presents it: a string, a
// scalar for one element, otherwise a slice.
func (a Attr) Value() any {
	if a.Type == Char {
		return string(a.Data)
	}
	if a.N == 1 {
		return Value(a.Type, a.Data, nil)
	}
	return Value(a.Type, a.Data, []int64{a.N})
}

// MakeAttr builds an attribute from a Go value.
func MakeAttr(name string, v any) Attr {
	t := reflect.TypeOf(v)
	n := int64(1)
	if t.Kind() == reflect.Slice {
		n = int64(reflect.ValueOf(v).Len())
		t = t.Elem()
	}
	raw := Raw(v)
	if t.Kind() == reflect.String {
		n = int64(len(raw))
	}
	return Attr{Name: name, Type: Code(t), N: n, Data: raw}
}

// Shape of a variable (record dimension: NumRecs).
func (f *File) Shape(v *Var) []int64 {
	s := []int64{}
	for _, id := range v.DimIDs {
		n := f.Dims[id].Len
		if n == 0 {
			n = f.NumRecs
		}
		s = append(s, n)
	}
	return s
}

// IsRecord tells whether the variable uses the record dimension.
func (f *File) IsRecord(v *Var) bool {
	return len(v.DimIDs) > 0 && f.Dims[v.DimIDs[0]].Len == 0
}

// bytes of one record, or of the whole fixed variable
func (f *File) unit(v *Var) int64 {
	n := int64(Size(v.Type))
	for i, id := range v.DimIDs {
		if i == 0 && f.Dims[id].Len == 0 {
			continue
		}
		n *= f.Dims[id].Len
	}
	return n
}

func pad4(n int64) int64 { return (n + 3) &^ 3 }

type dec struct {
	b   []byte
	pos int
	ver int
}

type decErr string

func (e decErr) Error() string { return string(e) }

func (d *dec) fail(f string, a ...any) {
	panic(decErr(fmt.Sprintf("at byte %d: ", d.pos) + fmt.Sprintf(f, a...)))
}

func (d *dec) take(n int64) []byte {
	if n < 0 || int64(d.pos)+n > int64(len(d.b)) {
		d.fail("need %d bytes, %d left", n, len(d.b)-d.pos)
	}
	r := d.b[d.pos : d.pos+int(n)]
	d.pos += int(n)
	return r
}
func (d *dec) u32() uint32 { return binary.BigEndian.Uint32(d.take(4)) }
func (d *dec) num() int64 { // NON_NEG
	if d.ver == 5 {
		n := int64(binary.BigEndian.Uint64(d.take(8)))
		if n < 0 {
			d.fail("negative number %d", n)
		}
		return n
	}
	n := int32(d.u32())
	if n < 0 {
		d.fail("negative number %d", n)
	}
	return int64(n)
}
func (d *dec) zeros() {
	for d.pos%4 != 0 {
		if d.take(1)[0] != 0 {
			d.fail("header padding is not zero")
		}
	}
}
func (d *dec) name() string {
	n := d.num()
	s := string(d.take(n))
	if n == 0 {
		d.fail("empty name")
	}
	if !utf8.ValidString(s) {
		d.fail("name is not UTF-8")
	}
	d.zeros()
	return s
}
func (d *dec) list(tag uint32) int64 {
	t := d.u32()
	n := d.num()
	if t == 0 {
		if n != 0 {
			d.fail("absent list with %d elements", n)
		}
		return 0
	}
	if t != tag {
		d.fail("tag %#x, want %#x", t, tag)
	}
	return n
}
func (d *dec) typ() int {
	t := int(d.u32())
	if Size(t) == 0 {
		d.fail("unknown type %d", t)
	}
	if t > Double && d.ver != 5 {
		d.fail("type %d in a version %d file", t, d.ver)
	}
	return t
}
func (d *dec) attrs() []Attr {
	n := d.list(0x0c)
	var as []Attr
	seen := map[string]bool{}
	for range n {
		var a Attr
		a.Name = d.name()
		if seen[a.Name] {
			d.fail("duplicate attribute %q", a.Name)
		}
		seen[a.Name] = true
		a.Type = d.typ()
		a.N = d.num()
		a.Data = append([]byte(nil), d.take(a.N*int64(Size(a.Type)))...)
		d.zeros()
		as = append(as, a)
	}
	return as
}

// Decode parses and strictly validates a complete file.
func Decode(b []byte) (f *File, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(decErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	d := &dec{b: b}
	if string(d.take(3)) != "CDF" {
		d.fail("bad magic")
	}
	f = &File{Version: int(d.take(1)[0])}
	d.ver = f.Version
	if d.ver != 1 && d.ver != 2 && d.ver != 5 {
		d.fail("version %d", d.ver)
	}
	f.NumRecs = d.num()
	nd := d.list(0x0a)
	unlim := 0
	dn := map[string]bool{}
	for range nd {
		n := d.name()
		if dn[n] {
			d.fail("duplicate dimension %q", n)
		}
		dn[n] = true
		l := d.num()
		if l == 0 {
			unlim++
		}
		f.Dims = append(f.Dims, Dim{n, l})
	}
	if unlim > 1 {
		d.fail("%d record dimensions", unlim)
	}
	f.Attrs = d.attrs()
	nv := d.list(0x0b)
	vn := map[string]bool{}
	for range nv {
		var v Var
		v.Name = d.name()
		if vn[v.Name] {
			d.fail("duplicate variable %q", v.Name)
		}
		vn[v.Name] = true
		k := d.num()
		for i := range k {
			id := d.num()
			if id >= int64(len(f.Dims)) {
				d.fail("dimension id %d of %d", id, len(f.Dims))
			}
			if f.Dims[id].Len == 0 && i != 0 {
				d.fail("record dimension in place %d", i)
			}
			v.DimIDs = append(v.DimIDs, int(id))
		}
		v.Attrs = d.attrs()
		v.Type = d.typ()
		if d.ver < 5 {
			v.VSize = int64(d.u32()) // sizes up to 2^32-4 are stored
		} else {
			v.VSize = d.num()
		}
		if d.ver == 1 {
			v.Begin = int64(int32(d.u32()))
		} else {
			v.Begin = int64(binary.BigEndian.Uint64(d.take(8)))
		}
		v.Record = f.IsRecord(&v)
		f.Vars = append(f.Vars, v)
	}
	headerEnd := int64(d.pos)
	// data
	nrec := 0
	recsize := int64(0)
	for i := range f.Vars {
		v := &f.Vars[i]
		want := pad4(f.unit(v))
		if f.Version < 5 && want > 1<<32-4 {
			if want = 1<<32 - 1; i < len(f.Vars)-1 {
				d.fail("variable %q is too large for the version and not the last one", v.Name)
			}
		}
		if v.VSize != want {
			d.fail("variable %q: vsize %d, want %d", v.Name, v.VSize, want)
		}
		if v.Record {
			nrec++
			recsize += pad4(f.unit(v))
		}
	}
	if nrec == 1 {
		for i := range f.Vars {
			if f.Vars[i].Record {
				recsize = f.unit(&f.Vars[i])
			}
		}
	}
	type reg struct {
		a, b int64
		n    string
	}
	var regs []reg
	end := headerEnd
	for i := range f.Vars {
		v := &f.Vars[i]
		if v.Begin < headerEnd || v.Begin%4 != 0 {
			d.fail("variable %q: begin %d (header ends at %d)", v.Name, v.Begin, headerEnd)
		}
		u := f.unit(v)
		cnt := int64(1)
		if v.Record {
			cnt = f.NumRecs
		}
		for r := range cnt {
			a := v.Begin + r*recsize
			if a+u > int64(len(b)) {
				d.fail("variable %q: data [%d,%d) beyond the end of the file (%d)", v.Name, a, a+u, len(b))
			}
			if v.Data == nil {
				v.Data = b[a : a+u : a+u] // may be very large
			} else {
				v.Data = append(v.Data, b[a:a+u]...)
			}
			e := a + pad4(u)
			if v.Record && nrec == 1 {
				e = a + u
			}
			if u > 0 {
				regs = append(regs, reg{a, e, v.Name})
			}
			if e > end {
				end = e
			}
		}
	}
	for i := range regs {
		for j := range i {
			if regs[i].a < regs[j].b && regs[j].a < regs[i].b {
				d.fail("data of %q [%d,%d) and %q [%d,%d) overlap", regs[i].n, regs[i].a, regs[i].b, regs[j].n, regs[j].a, regs[j].b)
			}
		}
	}
	end2 := pad4(end)
	if int64(len(b)) < end || int64(len(b)) > end2 {
		d.fail("file is %d bytes, content ends at %d", len(b), end)
	}
	return f, nil
}

type enc struct {
	b   []byte
	ver int
}

func (e *enc) u32(n uint32) { e.b = binary.BigEndian.AppendUint32(e.b, n) }
func (e *enc) num(n int64) {
	if e.ver == 5 {
		e.b = binary.BigEndian.AppendUint64(e.b, uint64(n))
	} else {
		e.u32(uint32(n))
	}
}
func (e *enc) pad() {
	for len(e.b)%4 != 0 {
		e.b = append(e.b, 0)
	}
}
func (e *enc) name(s string) { e.num(int64(len(s))); e.b = append(e.b, s...); e.pad() }
func (e *enc) list(tag uint32, n int) {
	if n == 0 {
		e.u32(0)
		e.num(0)
		return
	}
	e.u32(tag)
	e.num(int64(n))
}
func (e *enc) attrs(as []Attr) {
	e.list(0x0c, len(as))
	for _, a := range as {
		e.name(a.Name)
		e.u32(uint32(a.Type))
		e.num(a.N)
		e.b = append(e.b, a.Data...)
		e.pad()
	}
}

// Options of the encoder.
type Options struct {
	HeaderGap int   // multiple of 4 bytes left free between header and data
	DataOrder []int // order in which fixed variables' data are placed (nil: definition order)
	Truncate  int   // bytes dropped at the end of the file
	BadVSize  bool  // store sizes of variables that readers must not rely on
	VSize     int64 // the size to store if BadVSize
}

// Encode writes the file.
func Encode(f *File, o Options) []byte {
	b, nrec, recsize := layout(f, o)
	put := func(at int64, data []byte) {
		for int64(len(b)) < at+int64(len(data)) {
			b = append(b, 0)
		}
		copy(b[at:], data)
	}
	padv := func(v *Var, data []byte, noPad bool) []byte {
		out := append([]byte(nil), data...)
		if noPad {
			return out
		}
		// data padding uses the type's fill value
		fill := FillBytes(v.Type)
		for i := 0; int64(len(out)) < pad4(int64(len(data))); i++ {
			out = append(out, fill[i%len(fill)])
		}
		return out
	}
	for i := range f.Vars {
		v := &f.Vars[i]
		u := f.unit(v)
		if !v.Record {
			put(v.Begin, padv(v, v.Data, false))
			continue
		}
		for r := range f.NumRecs {
			put(v.Begin+r*recsize, padv(v, v.Data[r*u:(r+1)*u], nrec == 1))
		}
	}
	if o.Truncate > 0 {
		b = b[:len(b)-o.Truncate]
	}
	return b
}

// Header is the header of the file with the places of the data (Begin) filled in; the
// variables need no data.
func Header(f *File, o Options) []byte {
	b, _, _ := layout(f, o)
	return b
}

func layout(f *File, o Options) ([]byte, int, int64) {
	nrec := 0
	recsize := int64(0)
	for i := range f.Vars {
		v := &f.Vars[i]
		v.Record = f.IsRecord(v)
		v.VSize = pad4(f.unit(v))
		if v.Record {
			nrec++
			recsize += v.VSize
		}
	}
	if nrec == 1 {
		for i := range f.Vars {
			if f.Vars[i].Record {
				recsize = f.unit(&f.Vars[i])
			}
		}
	}
	header := func() []byte {
		e := &enc{ver: f.Version}
		e.b = append(e.b, 'C', 'D', 'F', byte(f.Version))
		e.num(f.NumRecs)
		e.list(0x0a, len(f.Dims))
		for _, d := range f.Dims {
			e.name(d.Name)
			e.num(d.Len)
		}
		e.attrs(f.Attrs)
		e.list(0x0b, len(f.Vars))
		for i := range f.Vars {
			v := &f.Vars[i]
			e.name(v.Name)
			e.num(int64(len(v.DimIDs)))
			for _, id := range v.DimIDs {
				e.num(int64(id))
			}
			e.attrs(v.Attrs)
			e.u32(uint32(v.Type))
			if o.BadVSize {
				e.num(o.VSize)
			} else {
				vsize := v.VSize
				if f.Version < 5 && vsize > 1<<32-4 {
					vsize = 1<<32 - 1 // as the format's documentation says
				}
				e.num(vsize)
			}
			if f.Version == 1 {
				e.u32(uint32(v.Begin))
			} else {
				e.b = binary.BigEndian.AppendUint64(e.b, uint64(v.Begin))
			}
		}
		return e.b
	}
	pos := int64(len(header())) + int64(o.HeaderGap)
	order := o.DataOrder
	if order == nil {
		for i := range f.Vars {
			order = append(order, i)
		}
	}
	for _, i := range order {
		v := &f.Vars[i]
		if !v.Record {
			v.Begin = pos
			pos += v.VSize
		}
	}
	for _, i := range order {
		v := &f.Vars[i]
		if v.Record {
			v.Begin = pos
			pos += v.VSize
		}
	}
	return header(), nrec, recsize
}

// FillBytes is the default fill value of a type, as stored.
func FillBytes(t int) []byte {
	switch t {
	case Byte:
		return []byte{0x81}
	case Char:
		return []byte{0}
	case Short:
		return []byte{0x80, 0x01}
	case Int:
		return []byte{0x80, 0, 0, 1}
	case Float:
		return []byte{0x7c, 0xf0, 0, 0}
	case Double:
		return []byte{0x47, 0x9e, 0, 0, 0, 0, 0, 0}
	case UByte:
		return []byte{255}
	case UShort:
		return []byte{0xff, 0xff}
	case UInt:
		return []byte{0xff, 0xff, 0xff, 0xff}
	case Int64:
		return []byte{0x80, 0, 0, 0, 0, 0, 0, 2}
	case UInt64:
		return []byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe}
	}
	return nil
}

// RecSize is the distance between records (after Encode or Decode).
func (f *File) RecSize() int64 {
	nrec, size, last := 0, int64(0), int64(0)
	for i := range f.Vars {
		if v := &f.Vars[i]; f.IsRecord(v) {
			nrec++
			last = f.unit(v)
			size += pad4(last)
		}
	}
	if nrec == 1 {
		return last
	}
	return size
}

// ElemOffset is where the e-th element of a variable is in the file.
func (f *File) ElemOffset(v *Var, e int64) int64 {
	p := e * int64(Size(v.Type))
	if !f.IsRecord(v) {
		return v.Begin + p
	}
	u := f.unit(v)
	return v.Begin + p/u*f.RecSize() + p%u
}
