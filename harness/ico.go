package main

// Independent reading and writing of ICO and CUR files, icon and cursor groups.

import (
	"bytes"
	"fmt"
	"image"
	"image/png"
	"sort"

	"pgregory.net/rapid"
)

// IcoImg is an image of a generated ICO file.
type IcoImg struct {
	W      uint8  `json:"w"`
	H      uint8  `json:"h"`
	CC     uint8  `json:"cc,omitempty"`
	Res    uint8  `json:"res,omitempty"`
	Planes uint16 `json:"pl"`
	Bits   uint16 `json:"bits"`
	D      Blob   `json:"d"`
}

// CurImg is an image of a generated CUR file.
type CurImg struct {
	W      uint8  `json:"w"`
	H      uint8  `json:"h"`
	Res    uint16 `json:"res,omitempty"`
	X      uint16 `json:"x"`
	Y      uint16 `json:"y"`
	Hdr    int    `json:"hdr"` // DIB header size, or 0 for PNG
	Planes uint16 `json:"pl"`
	Bits   uint16 `json:"bits"`
	D      Blob   `json:"d"` // what follows the header
}

// FileLayout says where images are placed in an ICO or CUR file.
type FileLayout struct {
	Order []uint16 `json:"order,omitempty"`
	Gap   int      `json:"gap,omitempty"`
	Share bool     `json:"share,omitempty"` // equal images stored once
	Tail  int      `json:"tail,omitempty"`
}

// IcoFile and CurFile are generated files.
type IcoFile struct {
	Imgs []IcoImg   `json:"imgs"`
	Lay  FileLayout `json:"lay"`
}

type CurFile struct {
	Imgs []CurImg   `json:"imgs"`
	Lay  FileLayout `json:"lay"`
}

// Entry is a decoded image of any of these containers.
type Entry struct {
	W, H         int
	CC, Res      uint8
	Planes, Bits uint16
	X, Y         uint16
	Data         []byte
}

func (e Entry) String() string {
	return fmt.Sprintf("%dx%d cc%d res%d planes%d bits%d hot(%d,%d) %d bytes", e.W, e.H, e.CC, e.Res, e.Planes, e.Bits, e.X, e.Y, len(e.Data))
}

func dim(b uint8) int {
	if b == 0 {
		return 256
	}
	return int(b)
}

var tinyPNG = func() []byte {
	var b bytes.Buffer
	png.Encode(&b, image.NewNRGBA(image.Rect(0, 0, 2, 2)))
	return b.Bytes()
}()

func (c CurImg) data() []byte {
	rest := c.D.bytes()
	if c.Hdr == 0 {
		return append(append([]byte{}, tinyPNG...), rest...)
	}
	h := make([]byte, c.Hdr)
	le.PutUint32(h, uint32(c.Hdr))
	le.PutUint32(h[4:], uint32(dim(c.W)))
	le.PutUint32(h[8:], uint32(2*dim(c.H)))
	le.PutUint16(h[12:], c.Planes)
	le.PutUint16(h[14:], c.Bits)
	return append(h, rest...)
}

func layFile(typ int, entries [][]byte, datas [][]byte, lay FileLayout) []byte {
	n := len(entries)
	hdr := 6 + 16*n
	out := make([]byte, hdr)
	le.PutUint16(out[2:], uint16(typ))
	le.PutUint16(out[4:], uint16(n))
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
	}
	if len(lay.Order) > 0 {
		sort.SliceStable(idx, func(a, b int) bool { return lay.Order[idx[a]%len(lay.Order)] < lay.Order[idx[b]%len(lay.Order)] })
	}
	shared := map[string]int{}
	offs := make([]int, n)
	for _, i := range idx {
		if o, ok := shared[string(datas[i])]; ok && lay.Share {
			offs[i] = o
			continue
		}
		out = append(out, bytes.Repeat([]byte{0x5A}, lay.Gap)...)
		offs[i] = len(out)
		shared[string(datas[i])] = len(out)
		out = append(out, datas[i]...)
	}
	out = append(out, bytes.Repeat([]byte{0x77}, lay.Tail)...)
	for i := range entries {
		copy(out[6+16*i:], entries[i])
		le.PutUint32(out[6+16*i+8:], uint32(len(datas[i])))
		le.PutUint32(out[6+16*i+12:], uint32(offs[i]))
	}
	return out
}

func (f IcoFile) build() []byte {
	var es, ds [][]byte
	for _, im := range f.Imgs {
		e := make([]byte, 16)
		e[0], e[1], e[2], e[3] = im.W, im.H, im.CC, im.Res
		le.PutUint16(e[4:], im.Planes)
		le.PutUint16(e[6:], im.Bits)
		es, ds = append(es, e), append(ds, im.D.bytes())
	}
	return layFile(1, es, ds, f.Lay)
}

func (f CurFile) build() []byte {
	var es, ds [][]byte
	for _, im := range f.Imgs {
		e := make([]byte, 16)
		e[0], e[1] = im.W, im.H
		le.PutUint16(e[2:], im.Res)
		le.PutUint16(e[4:], im.X)
		le.PutUint16(e[6:], im.Y)
		es, ds = append(es, e), append(ds, im.data())
	}
	return layFile(2, es, ds, f.Lay)
}

// entries lists what the file describes, in the library's documented order.
func (f IcoFile) entries() []Entry {
	var out []Entry
	for _, im := range f.Imgs {
		out = append(out, Entry{W: dim(im.W), H: dim(im.H), CC: im.CC, Res: im.Res, Planes: im.Planes, Bits: im.Bits, Data: im.D.bytes()})
	}
	orderEntries(out)
	return out
}

func (f CurFile) entries() []Entry {
	var out []Entry
	for _, im := range f.Imgs {
		e := Entry{W: dim(im.W), H: dim(im.H), X: im.X, Y: im.Y, Planes: im.Planes, Bits: im.Bits, Data: im.data()}
		if im.Hdr == 0 {
			e.Planes, e.Bits = 1, 32
		}
		out = append(out, e)
	}
	orderEntries(out)
	return out
}

// orderEntries sorts by decreasing depth, then decreasing width, keeping the order of equals.
func orderEntries(es []Entry) {
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].Bits != es[j].Bits {
			return es[i].Bits > es[j].Bits
		}
		return es[i].W > es[j].W
	})
}

// parseIconFile reads an ICO (typ 1) or CUR (typ 2) file strictly: images must be contiguous and complete.
func parseIconFile(typ int, b []byte) ([]Entry, error) {
	if len(b) < 6 || le.Uint16(b) != 0 || int(le.Uint16(b[2:])) != typ {
		return nil, fmt.Errorf("bad file header % x", b[:min(6, len(b))])
	}
	n := int(le.Uint16(b[4:]))
	if 6+16*n > len(b) {
		return nil, fmt.Errorf("%d entries exceed a file of %d bytes", n, len(b))
	}
	pos := 6 + 16*n
	var out []Entry
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		size, off := int(le.Uint32(e[8:])), int(le.Uint32(e[12:]))
		if off != pos {
			return nil, fmt.Errorf("image %d is at %#x, want %#x", i, off, pos)
		}
		if off+size > len(b) {
			return nil, fmt.Errorf("image %d at %#x of %#x bytes exceeds the file of %#x bytes", i, off, size, len(b))
		}
		pos += size
		x := Entry{W: dim(e[0]), H: dim(e[1]), Data: b[off : off+size]}
		if typ == 1 {
			x.CC, x.Res = e[2], e[3]
			x.Planes, x.Bits = le.Uint16(e[4:]), le.Uint16(e[6:])
		} else {
			if le.Uint16(e[2:]) != 0 {
				return nil, fmt.Errorf("reserved field of image %d is not zero", i)
			}
			x.X, x.Y = le.Uint16(e[4:]), le.Uint16(e[6:])
			if bytes.HasPrefix(x.Data, []byte("\x89PNG\r\n\x1a\n")) {
				x.Planes, x.Bits = 1, 32
			} else if len(x.Data) >= 16 {
				x.Planes, x.Bits = le.Uint16(x.Data[12:]), le.Uint16(x.Data[14:])
			}
		}
		out = append(out, x)
	}
	if pos != len(b) {
		return nil, fmt.Errorf("%d bytes of images, file has %d", pos, len(b))
	}
	return out, nil
}

// GroupEntry is an entry of an icon or cursor group resource.
type GroupEntry struct {
	Entry
	Size uint32
	ID   uint16
}

// parseGroup reads an icon (typ 1) or cursor (typ 2) group resource strictly.
func parseGroup(typ int, b []byte) ([]GroupEntry, error) {
	if len(b) < 6 || le.Uint16(b) != 0 || int(le.Uint16(b[2:])) != typ {
		return nil, fmt.Errorf("bad group header % x", b[:min(6, len(b))])
	}
	n := int(le.Uint16(b[4:]))
	if 6+14*n != len(b) {
		return nil, fmt.Errorf("%d entries do not make a group of %d bytes", n, len(b))
	}
	var out []GroupEntry
	for i := 0; i < n; i++ {
		e := b[6+14*i:]
		var g GroupEntry
		if typ == 1 {
			g.W, g.H, g.CC, g.Res = dim(e[0]), dim(e[1]), e[2], e[3]
		} else {
			g.W, g.H = int(le.Uint16(e)), int(le.Uint16(e[2:]))
		}
		g.Planes, g.Bits = le.Uint16(e[4:]), le.Uint16(e[6:])
		g.Size, g.ID = le.Uint32(e[8:]), le.Uint16(e[12:])
		out = append(out, g)
	}
	return out, nil
}

func sameEntries(got, want []Entry) error {
	if len(got) != len(want) {
		return fmt.Errorf("%d images, want %d", len(got), len(want))
	}
	for i := range got {
		g, w := got[i], want[i]
		if g.String() != w.String() {
			return fmt.Errorf("image %d is %v, want %v", i, g, w)
		}
		if !bytes.Equal(g.Data, w.Data) {
			return fmt.Errorf("image %d (%v): data differs: %s", i, g, diffBytes(g.Data, w.Data))
		}
	}
	return nil
}

func genFileLayout(t *rapid.T) FileLayout {
	var l FileLayout
	if rapid.Bool().Draw(t, "plain") {
		return l
	}
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "norder"); i < n; i++ {
		l.Order = append(l.Order, uint16(rapid.IntRange(0, 20).Draw(t, "order")))
	}
	l.Gap = rapid.IntRange(0, 20).Draw(t, "gap")
	l.Share = rapid.Bool().Draw(t, "share")
	l.Tail = rapid.IntRange(0, 20).Draw(t, "tail")
	return l
}

func genDim(t *rapid.T) uint8 {
	return rapid.OneOf(rapid.SampledFrom([]uint8{16, 32, 0, 48, 255, 1, 64, 128}), rapid.Uint8()).Draw(t, "dim")
}

func genBits(t *rapid.T) uint16 {
	return rapid.SampledFrom([]uint16{32, 32, 24, 8, 4, 1, 0, 16}).Draw(t, "bits")
}

// genFewKinds makes most images of a large file share their size and depth with others.
func genFewKinds(t *rapid.T, max int) (func() uint8, func() uint16) {
	if max < 13 || rapid.IntRange(0, 2).Draw(t, "kinds") == 0 {
		return func() uint8 { return genDim(t) }, func() uint16 { return genBits(t) }
	}
	dims, bits := []uint8{genDim(t), genDim(t)}, []uint16{genBits(t), genBits(t)}
	return func() uint8 { return rapid.SampledFrom(dims).Draw(t, "dimk") }, func() uint16 { return rapid.SampledFrom(bits).Draw(t, "bitsk") }
}

func genIcoFile(t *rapid.T, max, maxData int) IcoFile {
	f := IcoFile{Imgs: []IcoImg{}}
	dimOf, bitsOf := genFewKinds(t, max)
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "nimg"); i < n; i++ {
		im := IcoImg{W: dimOf(), Bits: bitsOf(), Planes: uint16(rapid.IntRange(0, 2).Draw(t, "planes")), D: genBlob(t, maxData)}
		im.H = im.W
		if rapid.IntRange(0, 4).Draw(t, "rect") == 0 {
			im.H = genDim(t)
			im.CC = rapid.Uint8().Draw(t, "cc")
			im.Res = rapid.Uint8().Draw(t, "res")
		}
		f.Imgs = append(f.Imgs, im)
	}
	f.Lay = genFileLayout(t)
	return f
}

func genCurFile(t *rapid.T, max, maxData int) CurFile {
	f := CurFile{Imgs: []CurImg{}}
	dimOf, bitsOf := genFewKinds(t, max)
	for i, n := 0, rapid.IntRange(0, max).Draw(t, "nimg"); i < n; i++ {
		im := CurImg{W: dimOf(), Bits: bitsOf(), Planes: uint16(rapid.IntRange(0, 2).Draw(t, "planes")), D: genBlob(t, maxData)}
		im.Hdr = rapid.SampledFrom([]int{40, 40, 40, 108, 124, 0}).Draw(t, "hdr")
		im.X = rapid.OneOf(rapid.Uint16Range(0, 40), rapid.Uint16()).Draw(t, "x")
		im.Y = rapid.OneOf(rapid.Uint16Range(0, 40), rapid.Uint16()).Draw(t, "y")
		im.H = im.W
		if rapid.IntRange(0, 4).Draw(t, "rect") == 0 {
			im.H = genDim(t)
			im.Res = rapid.Uint16().Draw(t, "res")
		}
		f.Imgs = append(f.Imgs, im)
	}
	f.Lay = genFileLayout(t)
	return f
}
