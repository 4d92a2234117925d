package damage

import (
	"encoding/binary"
	"fmt"
)

// Types4 rewrites the version 3 datatypes in the object headers of a file as version 4, which has the same
// encoding for all but references; HDF5 1.12 writes it when asked for its newest formats. It returns how many
// there were.
func Types4(b []byte) (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("datatypes: %v", r)
		}
	}()
	order := 0 // bytes of the creation order of a message
	for _, r := range Regions(b) {
		p := r.Start + 4
		switch r.Sig {
		case "OHDR":
			flags := b[p+1]
			p += 2
			if flags&0x20 != 0 {
				p += 16
			}
			if flags&0x10 != 0 {
				p += 4
			}
			p += 1 << (flags & 3)
			order = 0
			if flags&4 != 0 {
				order = 2
			}
		case "OCHK":
			// the header of the object comes before its continuations
		default:
			continue
		}
		k := 0
		for r.End-p >= 4+order {
			kind, size, flags := b[p], int(binary.LittleEndian.Uint16(b[p+1:])), b[p+3]
			p += 4 + order
			m := b[p : p+size]
			p += size
			if flags&2 != 0 {
				continue // shared
			}
			switch kind {
			case 3:
				types4(m, &k)
			case 12:
				if m[0] != 3 || m[1]&1 != 0 {
					continue
				}
				name := int(binary.LittleEndian.Uint16(m[2:]))
				types4(m[9+name:], &k)
			}
		}
		if k > 0 {
			n += k
			Fix(b, r)
		}
	}
	return n, nil
}

// types4 returns the bytes of the datatype at the begin of m.
func types4(m []byte, n *int) int {
	class, version := m[0]&15, m[0]>>4
	bits := int(m[1]) | int(m[2])<<8 | int(m[3])<<16
	size := int(binary.LittleEndian.Uint32(m[4:]))
	if version == 3 {
		m[0] = class | 4<<4
		*n++
	}
	p := 8
	name := func() {
		for m[p] != 0 {
			p++
		}
		p++
	}
	old := func() {
		if version != 3 {
			panic(fmt.Sprintf("version %d of class %d", version, class))
		}
	}
	switch class {
	case 0, 4:
		p += 4
	case 1:
		p += 12
	case 2:
		p += 2
	case 3, 7:
	case 5:
		p += bits & 255
	case 6:
		old()
		for range bits & 0xffff {
			name()
			switch {
			case size < 1<<8:
				p++
			case size < 1<<16:
				p += 2
			case size < 1<<24:
				p += 3
			default:
				p += 4
			}
			p += types4(m[p:], n)
		}
	case 8:
		old()
		base := int(binary.LittleEndian.Uint32(m[p+4:]))
		p += types4(m[p:], n)
		for range bits & 0xffff {
			name()
		}
		p += base * (bits & 0xffff)
	case 9:
		p += types4(m[p:], n)
	case 10:
		old()
		p += 1 + 4*int(m[p])
		p += types4(m[p:], n)
	default:
		panic(fmt.Sprintf("class %d", class))
	}
	return p
}

// A Header is an object header that is in one piece, and the places of its messages.
type Header struct {
	Region
	Msgs [][2]int // begin and end, with the messages' own headers
}

// Headers finds the version 2 object headers without continuations.
func Headers(b []byte) (out []Header) {
next:
	for _, r := range Regions(b) {
		if r.Sig != "OHDR" {
			continue
		}
		p := r.Start + 4
		flags := b[p+1]
		p += 2
		if flags&0x20 != 0 {
			p += 16
		}
		if flags&0x10 != 0 {
			p += 4
		}
		p += 1 << (flags & 3)
		order := 0
		if flags&4 != 0 {
			order = 2
		}
		h := Header{Region: r}
		for r.End-p >= 4+order {
			end := p + 4 + order + int(binary.LittleEndian.Uint16(b[p+1:]))
			if b[p] == 0x10 || end > r.End {
				continue next
			}
			h.Msgs = append(h.Msgs, [2]int{p, end})
			p = end
		}
		out = append(out, h)
	}
	return
}

// Headers1 finds the version 1 object headers (without their continuations) of a file that has no other data of
// such a form.
func Headers1(b []byte) (out []Header) {
next:
	for i := 0; i+16 <= len(b); i += 8 {
		n, size := int(binary.LittleEndian.Uint16(b[i+2:])), int(binary.LittleEndian.Uint32(b[i+8:]))
		if b[i] != 1 || b[i+1] != 0 || binary.LittleEndian.Uint32(b[i+4:]) == 0 || binary.LittleEndian.Uint32(b[i+12:]) != 0 || n == 0 || size < 8*n || size > len(b)-i-16 {
			continue
		}
		h := Header{Region: Region{"v1", i, i + 16 + size}}
		p := i + 16
		for p < h.End {
			if p+8 > h.End || b[p+1] != 0 || b[p+5] != 0 || b[p+6] != 0 || b[p+7] != 0 || len(h.Msgs) == n {
				continue next
			}
			end := p + 8 + int(binary.LittleEndian.Uint16(b[p+2:]))
			if end > h.End {
				continue next
			}
			h.Msgs = append(h.Msgs, [2]int{p, end})
			p = end
		}
		out = append(out, h)
	}
	return
}

// Reorder returns the file with the messages of a header in another order.
func Reorder(b []byte, h Header, order []int) []byte {
	out := append([]byte{}, b...)
	if len(h.Msgs) == 0 {
		return out
	}
	p := h.Msgs[0][0]
	for _, i := range order {
		p += copy(out[p:], b[h.Msgs[i][0]:h.Msgs[i][1]])
	}
	if h.Sig != "v1" {
		Fix(out, h.Region)
	}
	return out
}

// Split returns the file with some of the messages of a header (those whose bits are set) in a continuation at
// the end of the file, and that one's in a further one when deep. The message that tells of it is put at place
// at among the others. There must be room for it: Split returns nil if not.
func Split(b []byte, h Header, moved uint, at int, deep bool) []byte {
	order := 0
	if b[h.Start+5]&4 != 0 {
		order = 2
	}
	head := 4 + order
	var stay, move [][]byte
	for i, m := range h.Msgs {
		if moved&(1<<i) != 0 {
			move = append(move, b[m[0]:m[1]])
		} else {
			stay = append(stay, b[m[0]:m[1]])
		}
	}
	n := 0
	for _, m := range move {
		n += len(m)
	}
	if n < head+16 || at > len(stay) {
		return nil
	}
	out := append([]byte{}, b...)
	for len(out)%8 != 0 {
		out = append(out, 0)
	}
	nil4 := func(n int) []byte { // n bytes of nothing
		if n < head {
			return make([]byte, n)
		}
		m := make([]byte, n)
		binary.LittleEndian.PutUint16(m[1:], uint16(n-head))
		return m
	}
	chunk := func(parts ...[]byte) (addr, size int) {
		addr = len(out)
		out = append(out, "OCHK"...)
		for _, p := range parts {
			out = append(out, p...)
		}
		sum := Lookup3(out[addr:])
		out = binary.LittleEndian.AppendUint32(out, sum)
		size = len(out) - addr
		for len(out)%8 != 0 {
			out = append(out, 0)
		}
		return
	}
	cont := func(addr, size int) []byte {
		m := make([]byte, head+16)
		m[0] = 0x10
		m[1] = 16
		binary.LittleEndian.PutUint64(m[head:], uint64(addr))
		binary.LittleEndian.PutUint64(m[head+8:], uint64(size))
		return m
	}
	var addr, size int
	if deep && len(move) > 1 {
		addr, size = chunk(move[1:]...)
		addr, size = chunk(move[0], cont(addr, size))
	} else {
		addr, size = chunk(move...)
	}
	stay = append(stay[:at:at], append([][]byte{cont(addr, size)}, stay[at:]...)...)
	p := h.Msgs[0][0]
	for _, m := range stay {
		p += copy(out[p:], m)
	}
	copy(out[p:], nil4(h.Msgs[len(h.Msgs)-1][1]-p))
	Fix(out, h.Region)
	// the superblock's end of file
	binary.LittleEndian.PutUint64(out[12+16:], uint64(len(out)))
	Fix(out, Region{"\x89HDF", 0, 12 + 32})
	return out
}
