package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"

	"github.com/tc-hib/winres"
)

// A small PE32+ image builder and reader, for demonstrations.

var le = binary.LittleEndian

type sect struct {
	name  string
	data  []byte
	vsize uint32 // 0: size of data
	flags uint32
	dir   int // index of the data directory that designates this section, or 0
	slack int // zeroes added to raw data, before alignment
}

type image struct {
	sects   []sect
	overlay []byte
	sum     uint32
	headers uint32 // file offset of the first section, 0: 0x400
	falign  uint32 // 0: 0x200
	salign  uint32 // 0: 0x1000
	pe32    bool
	cert    int // size of the certificate, at the end of the overlay
	symptr  uint32
	ndirs   int // 0: 16
	dirs    map[int][2]uint32
}

func up(n, a uint32) uint32 { return (n + a - 1) / a * a }

func (m image) build() []byte {
	if m.headers == 0 {
		m.headers = 0x400
	}
	if m.falign == 0 {
		m.falign = 0x200
	}
	if m.salign == 0 {
		m.salign = 0x1000
	}
	if m.ndirs == 0 {
		m.ndirs = 16
	}
	fixed := 112
	if m.pe32 {
		fixed = 96
	}
	b := make([]byte, m.headers)
	copy(b, "MZ")
	b[0x3C] = 0x40
	copy(b[0x40:], "PE\x00\x00")
	le.PutUint16(b[0x44:], 0x8664)
	le.PutUint16(b[0x46:], uint16(len(m.sects)))
	le.PutUint32(b[0x4C:], m.symptr)
	le.PutUint16(b[0x54:], uint16(fixed+8*m.ndirs))
	le.PutUint16(b[0x56:], 0x22)
	o := b[0x58:]
	le.PutUint16(o, 0x20B)
	if m.pe32 {
		le.PutUint16(o, 0x10B)
	}
	le.PutUint32(o[32:], m.salign)
	le.PutUint32(o[36:], m.falign)
	le.PutUint32(o[60:], m.headers)
	le.PutUint32(o[64:], m.sum)
	le.PutUint32(o[fixed-4:], uint32(m.ndirs))
	dirs := o[fixed:]
	va, raw := up(m.headers, m.salign), m.headers
	for i, s := range m.sects {
		h := b[0x58+fixed+8*m.ndirs+40*i:]
		copy(h[:8], s.name)
		size := up(uint32(len(s.data)+s.slack), m.falign)
		vs := s.vsize
		if vs == 0 {
			vs = uint32(len(s.data))
		}
		le.PutUint32(h[8:], vs)
		le.PutUint32(h[12:], va)
		le.PutUint32(h[16:], size)
		if size > 0 {
			le.PutUint32(h[20:], raw)
		}
		le.PutUint32(h[36:], s.flags)
		if s.dir > 0 {
			dirs = b[0x58+fixed:]
			le.PutUint32(dirs[8*s.dir:], va)
			le.PutUint32(dirs[8*s.dir+4:], uint32(len(s.data)))
		}
		va = up(va+vs, m.salign)
		raw += size
		pad := make([]byte, size)
		copy(pad, s.data)
		b = append(b, pad...)
	}
	o = b[0x58:]
	le.PutUint32(o[56:], va)
	dirs = o[fixed:]
	for i, d := range m.dirs {
		le.PutUint32(dirs[8*i:], d[0])
		le.PutUint32(dirs[8*i+4:], d[1])
	}
	b = append(b, m.overlay...)
	if m.cert > 0 {
		dirs = b[0x58+fixed:]
		le.PutUint32(dirs[8*4:], uint32(len(b)-m.cert))
		le.PutUint32(dirs[8*4+4:], uint32(m.cert))
	}
	return b
}

func fail(format string, a ...interface{}) {
	fmt.Printf(format+"\n", a...)
	os.Exit(1)
}

func must(err error) {
	if err != nil {
		fail("unexpected error: %v", err)
	}
}

func patch(rs *winres.ResourceSet, exe []byte) []byte {
	var b bytes.Buffer
	must(rs.WriteToEXE(&b, bytes.NewReader(exe)))
	return b.Bytes()
}

// peSum is the checksum of an image, as the loader computes it.
func peSum(b []byte) uint32 {
	var s uint64
	c := 0x40 + 24 + 64
	for i := 0; i < len(b); i += 2 {
		v := uint64(b[i])
		if i+1 < len(b) {
			v |= uint64(b[i+1]) << 8
		}
		if i == c || i == c+2 {
			v = 0
		}
		s += v
	}
	for s > 0xFFFF {
		s = s&0xFFFF + s>>16
	}
	return uint32(s) + uint32(len(b))
}

// chunked delivers data by pieces of n bytes.
type chunked struct {
	*bytes.Reader
	n int
}

func (c *chunked) Read(p []byte) (int, error) {
	if len(p) > c.n {
		p = p[:c.n]
	}
	return c.Reader.Read(p)
}

func (c *chunked) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

func noise(n int, seed uint32) []byte {
	b := make([]byte, n)
	x := seed*2654435761 + 12345
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}
