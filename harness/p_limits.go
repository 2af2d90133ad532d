package main

// C25: the limits of the formats.

import (
	"bytes"
	"errors"
	"fmt"
	"image"
	"image/color"
	"io"
	"strings"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// around draws numbers close to n.
func around(t *rapid.T, label string, n, d int) int {
	return n + rapid.SampledFrom([]int{0, 1, -1, 2, -2, d, -d}).Draw(t, label)
}

// LongName is a set in which a name is about as long as it can be.
type LongName struct {
	Runes string `json:"runes"` // repeated
	Units int    `json:"units"` // UTF-16 units
	Where int    `json:"where"` // 0: type, 1: resource, 2: icon, 3: cursor
	Other []Res  `json:"other"`
	Arch  int    `json:"arch"`
}

func (c LongName) name() string {
	var b strings.Builder
	n := 0
	rs := []rune(c.Runes)
	for i := 0; n < c.Units; i++ {
		r := rs[i%len(rs)]
		if r >= 0x10000 && n+1 == c.Units {
			r = 'z'
		}
		b.WriteRune(r)
		n++
		if r >= 0x10000 {
			n++
		}
	}
	return b.String()
}

func runLongName(c LongName, r *Rec) error {
	name := c.name()
	if u16len(name) != c.Units {
		return harnessf("name of %d units", u16len(name))
	}
	rs, err := buildSet(c.Other)
	if err != nil {
		return err
	}
	m := modelOf(c.Other)
	tooLong := c.Units > 65535
	r.LabelIf(tooLong, "too long")
	r.LabelIf(c.Units > 65530 && !tooLong, "just within the limit")
	if c.Units > 65000 {
		r.NonTrivial()
	}
	id := Ident{Name: name}
	data := []byte("some data")
	key := Key{Ident{Name: "T"}, Ident{ID: 1}, 0x409}
	switch c.Where {
	case 0:
		key.T = id
		err = rs.Set(key.T.w(), key.R.w(), key.L, append([]byte{}, data...))
	case 1:
		key.R = id
		err = rs.Set(key.T.w(), key.R.w(), key.L, append([]byte{}, data...))
	case 2, 3:
		typ := c.Where - 1
		var p pics
		if typ == 1 {
			p.ic, err = tinyIcon(1)
		} else {
			p.cu, err = tinyCursor(1)
		}
		if err != nil {
			return err
		}
		err = p.store(rs, id, key.L)
		if err == nil {
			before := m
			m = modelOfSet(rs)
			gt, _ := groupTypes(typ)
			if _, ok := m[Key{gt, id, key.L}]; !ok || len(m) != len(before)+3 {
				return fmt.Errorf("storing under a name of %d units gave %d resources more", c.Units, len(m)-len(before))
			}
		}
	}
	if tooLong != (err != nil) {
		return fmt.Errorf("using a name of %d UTF-16 units: %v", c.Units, err)
	}
	if err == nil && c.Where < 2 {
		m[key] = data
	}
	return faithful(rs, m, archs[c.Arch])
}

// faithful verifies that a set holds a model, as well as an object and an executable made from it.
func faithful(rs *winres.ResourceSet, m Model, arch winres.Arch) error {
	if err := sameItems(walkItems(rs), m.items()); err != nil {
		return fmt.Errorf("set: %v", err)
	}
	var b bytes.Buffer
	if err := rs.WriteObject(&b, arch); err != nil {
		return fmt.Errorf("WriteObject: %v", err)
	}
	if err := checkObject(b.Bytes(), arch, m); err != nil {
		return fmt.Errorf("object: %v", err)
	}
	return faithfulEXE(rs, m)
}

func faithfulEXE(rs *winres.ResourceSet, m Model) error {
	var b bytes.Buffer
	if err := rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil))); err != nil {
		return fmt.Errorf("WriteToEXE: %v", err)
	}
	v, err := parsePE(b.Bytes())
	if err != nil {
		return fmt.Errorf("executable: %v", err)
	}
	tr, err := v.resources()
	if err != nil {
		return fmt.Errorf("executable: %v", err)
	}
	if err := sameItems(tr.Items, m.items()); err != nil {
		return fmt.Errorf("executable: %v", err)
	}
	back, err := winres.LoadFromEXE(bytes.NewReader(b.Bytes()))
	if err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	if err := sameItems(walkItems(back), m.items()); err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	return nil
}

// ManyEntries is a set with a directory of about 65535 entries.
type ManyEntries struct {
	Level int `json:"level"` // 0: types, 1: resources, 2: languages
	Names int `json:"names"`
	IDs   int `json:"ids"`
	More  int `json:"more,omitempty"` // other resources
	Arch  int `json:"arch"`
}

func runManyEntries(c ManyEntries, r *Rec) error {
	rs := &winres.ResourceSet{}
	m := Model{}
	set := func(k Key) error {
		d := []byte{byte(len(m)), byte(len(m) >> 8), byte(len(m) >> 16)}[:1+len(m)%3]
		m[k] = d
		return rs.Set(k.T.w(), k.R.w(), k.L, d)
	}
	names, ids := c.Names, c.IDs
	if c.Level == 2 {
		names, ids = 0, min(ids+names, 65536)
	} else {
		ids = min(ids, 65535)
	}
	for i := 0; i < names+ids; i++ {
		x := Ident{Name: fmt.Sprintf("%05X", i)}
		if i >= names {
			x = Ident{ID: uint16(i - names + 1)}
		}
		k := Key{Ident{ID: 10}, Ident{ID: 1}, 0}
		switch c.Level {
		case 0:
			k.T = x
		case 1:
			k.R = x
		default:
			k.L = uint16(i)
		}
		if err := set(k); err != nil {
			return fmt.Errorf("Set%v: %v", k, err)
		}
	}
	for i := 0; i < c.More; i++ {
		if err := set(Key{Ident{Name: "zz"}, Ident{ID: uint16(i + 1)}, 7}); err != nil {
			return err
		}
	}
	if rs.Count() != len(m) {
		return fmt.Errorf("Count is %d, %d resources were set", rs.Count(), len(m))
	}
	r.NonTrivial()
	// Object
	var b bytes.Buffer
	err := rs.WriteObject(&b, archs[c.Arch])
	switch {
	case len(m) > 65535 && err == nil:
		return fmt.Errorf("an object was written with %d relocations", len(m))
	case len(m) > 65535:
		r.Label("object refused")
		if b.Len() > 0 {
			return fmt.Errorf("%d bytes of an object were written before the error", b.Len())
		}
	case err != nil:
		return fmt.Errorf("WriteObject with %d resources: %v", len(m), err)
	default:
		r.Label("object written")
		if err := checkObject(b.Bytes(), archs[c.Arch], m); err != nil {
			return fmt.Errorf("object: %v", err)
		}
	}
	// Executable: there are no relocations, but numbers of entries are 16 bits
	types := map[Ident]bool{}
	for k := range m {
		if c.Level == 0 {
			types[k.T] = true
		}
	}
	tooMany := names > 65535 || ids > 65535
	if c.Level == 0 {
		n, i := 0, 0
		for t := range types {
			if t.Name != "" {
				n++
			} else {
				i++
			}
		}
		tooMany = n > 65535 || i > 65535
	}
	b.Reset()
	err = rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil)))
	if tooMany {
		r.Label("executable refused")
		if err == nil {
			return fmt.Errorf("an executable was written with %d names and %d identifiers in a directory", names, ids)
		}
		if b.Len() > 0 {
			return fmt.Errorf("%d bytes of an executable were written before the error", b.Len())
		}
		return nil
	}
	r.Label("executable written")
	if err != nil {
		return fmt.Errorf("WriteToEXE with %d names and %d identifiers in a directory: %v", names, ids, err)
	}
	return faithfulEXE(rs, m)
}

// LastNumber is a set in which image numbers are about to run out.
type LastNumber struct {
	Typ    int      `json:"typ"`
	Used   []uint16 `json:"used"` // numbers of images
	Lang   uint16   `json:"lang,omitempty"`
	Adds   []int    `json:"adds"` // numbers of images of icons that are added
	EXE    bool     `json:"exe,omitempty"`
	Delete int      `json:"delete,omitempty"` // one of the images is deleted first, if positive
}

func runLastNumber(c LastNumber, r *Rec) error {
	gt, it := groupTypes(c.Typ)
	rs := &winres.ResourceSet{}
	m := Model{}
	last := 0
	for i, id := range c.Used {
		k := Key{it, Ident{ID: id}, c.Lang}
		d := []byte{1, 2, 3, 4, byte(i)}
		if err := rs.Set(k.T.w(), k.R.w(), k.L, append([]byte{}, d...)); err != nil {
			return err
		}
		m[k] = d
		last = max(last, int(id))
	}
	if c.Delete > 0 && len(c.Used) > 0 {
		id := c.Used[c.Delete%len(c.Used)]
		k := Key{it, Ident{ID: id}, c.Lang}
		delete(m, k)
		if err := rs.Set(k.T.w(), k.R.w(), k.L, nil); err != nil {
			return err
		}
	}
	if c.EXE {
		var b bytes.Buffer
		err := rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil)))
		if err != nil {
			return err
		}
		if rs, err = winres.LoadFromEXE(bytes.NewReader(b.Bytes())); err != nil {
			return err
		}
	}
	for i, n := range c.Adds {
		var p pics
		var err error
		if c.Typ == 1 {
			f := IcoFile{}
			for j := 0; j < n; j++ {
				f.Imgs = append(f.Imgs, IcoImg{W: 16, H: 16, Bits: 32, D: Blob{N: 20, S: uint32(100*i + j)}})
			}
			p, err = loadPics(1, f.build())
		} else {
			f := CurFile{}
			for j := 0; j < n; j++ {
				f.Imgs = append(f.Imgs, CurImg{W: 16, H: 16, Hdr: 40, Bits: 32, X: uint16(j), D: Blob{N: 20, S: uint32(100*i + j)}})
			}
			p, err = loadPics(2, f.build())
		}
		if err != nil {
			return err
		}
		key := Key{gt, Ident{Name: fmt.Sprintf("ADDED%d", i)}, 0}
		err = p.store(rs, key.R, 0)
		if err != nil {
			r.Label("refused")
			// Refusing is only right if no number is left above those which are or were in use
			if last+n <= 65535 {
				return fmt.Errorf("storing %d images after number %d: %v", n, last, err)
			}
			if err := sameItems(walkItems(rs), m.items()); err != nil {
				return fmt.Errorf("a refused icon or cursor changed the set: %v", err)
			}
			continue
		}
		r.Label("accepted")
		after := modelOfSet(rs)
		for k, d := range m {
			if g, ok := after[k]; !ok || !bytes.Equal(g, d) {
				return fmt.Errorf("storing %d images after number %d altered %v", n, last, k)
			}
		}
		if len(after) != len(m)+n+1 {
			return fmt.Errorf("storing %d images after number %d gives %d resources more", n, last, len(after)-len(m))
		}
		q, err := getPics(c.Typ, rs, key.R)
		if err != nil {
			return fmt.Errorf("extracting: %v", err)
		}
		a, _ := p.bytes()
		b, _ := q.bytes()
		if !bytes.Equal(a, b) {
			return fmt.Errorf("storing %d images after number %d altered them: %s", n, last, diffBytes(b, a))
		}
		ge, err := parseGroup(c.Typ, after[key])
		if err != nil {
			return err
		}
		for _, g := range ge {
			last = max(last, int(g.ID))
		}
		m = after
	}
	r.NonTrivial()
	return sameItems(walkItems(rs), m.items())
}

// BigImage is a file in which an image has a size close to 10 MB, or pretends to.
type BigImage struct {
	Typ   int  `json:"typ"`
	Size  int  `json:"size"` // declared
	Real  bool `json:"real"` // the data is there
	Small int  `json:"small"`
	Last  bool `json:"last,omitempty"` // the big image is after the small ones
}

func runBigImage(c BigImage, r *Rec) error {
	n := c.Small + 1
	big := 0
	if c.Last {
		big = c.Small
	}
	data := make([]byte, 100)
	if c.Real {
		data = make([]byte, c.Size)
		for i := range data {
			data[i] = byte(i ^ i>>8)
		}
	}
	var es, ds [][]byte
	for i := 0; i < n; i++ {
		e := make([]byte, 16)
		d := bytes.Repeat([]byte{byte(i)}, 60)
		e[0], e[1] = byte(200-i), byte(200-i)
		if i == big {
			d = data
		}
		if c.Typ == 2 {
			copy(d, []byte{40, 0, 0, 0, 1, 0, 0, 0, 2, 0, 0, 0, 1, 0, 32, 0})
		}
		es, ds = append(es, e), append(ds, d)
	}
	file := layFile(c.Typ, es, ds, FileLayout{})
	le.PutUint32(file[6+16*big+8:], uint32(c.Size))
	want, _, ok := looseIconFile(c.Typ, file)
	var p pics
	var err error
	alloc := allocDelta(func() { p, err = loadPics(c.Typ, file) })
	if max := uint64(2*maxImage + 8*len(file) + 4<<20); alloc > max {
		return fmt.Errorf("loading a file of %d bytes allocated %d bytes", len(file), alloc)
	}
	r.NonTrivial()
	r.LabelIf(c.Size > maxImage, "too big")
	if !ok {
		if err == nil {
			return fmt.Errorf("an image of %#x bytes (there are %#x) was loaded", c.Size, len(data))
		}
		return nil
	}
	r.Label("loads")
	if err != nil {
		return fmt.Errorf("an image of %#x bytes was refused: %v", c.Size, err)
	}
	return usable(p, want, Ident{ID: 1}, 0, true, r)
}

// Dims are dimensions of images, and numbers of sizes.
type Dims struct {
	W     int   `json:"w"`
	H     int   `json:"h"`
	Sizes []int `json:"sizes"`
}

func runDims(c Dims, r *Rec) error {
	img := image.NewNRGBA(image.Rect(0, 0, c.W, c.H))
	for i := range img.Pix {
		img.Pix[i] = 0x80
	}
	ok := c.W >= 1 && c.H >= 1 && c.W <= 256 && c.H <= 256
	r.LabelIf(!ok, "impossible dimensions")
	r.NonTrivial()
	small := solid(3, 3, color.NRGBA{1, 2, 3, 255})
	ic, err := winres.NewIconFromImages([]image.Image{small, img})
	if ok != (err == nil) || ok != (ic != nil) {
		return fmt.Errorf("icon from %dx%d: %v", c.W, c.H, err)
	}
	cu, err := winres.NewCursorFromImages([]winres.CursorImage{{Image: small}, {Image: img, HotSpot: winres.HotSpot{X: 65535, Y: 65535}}})
	if ok != (err == nil) || ok != (cu != nil) {
		return fmt.Errorf("cursor from %dx%d: %v", c.W, c.H, err)
	}
	if ok {
		for _, p := range []pics{{ic: ic}, {cu: cu}} {
			b, err := p.bytes()
			if err != nil {
				return err
			}
			es, err := parseIconFile(p.typ(), b)
			if err != nil {
				return err
			}
			s := max(c.W, c.H)
			found := false
			for _, e := range es {
				found = found || e.W == s && e.H == s && (p.cu == nil || e.X == 65535 && e.Y == 65535)
			}
			if len(es) != 2 || !found {
				return fmt.Errorf("%dx%d gives images %v", c.W, c.H, es)
			}
		}
	}
	// Sizes: a square image, so that no dimension vanishes
	ok = len(c.Sizes) <= 30
	for _, s := range c.Sizes {
		ok = ok && s >= 1 && s <= 256
	}
	r.LabelIf(!ok, "impossible sizes")
	ic, err = winres.NewIconFromResizedImage(small, c.Sizes)
	if ok != (err == nil) || ok != (ic != nil) {
		return fmt.Errorf("icon resized to %v (%d sizes): %v", c.Sizes, len(c.Sizes), err)
	}
	if ok {
		b, err := pics{ic: ic}.bytes()
		if err != nil {
			return err
		}
		es, err := parseIconFile(1, b)
		if err != nil {
			return err
		}
		want := append([]int{}, c.Sizes...)
		if c.Sizes == nil {
			want = []int{256, 64, 48, 32, 16}
		}
		if len(es) != len(want) {
			return fmt.Errorf("%d images for %d sizes", len(es), len(want))
		}
		count := map[int]int{}
		for i := range es {
			count[es[i].W]++
			count[want[i]]--
			if es[i].W != es[i].H || i > 0 && es[i].W > es[i-1].W {
				return fmt.Errorf("image %d is %v", i, es[i])
			}
		}
		for s, n := range count {
			if n != 0 {
				return fmt.Errorf("wrong number of images of size %d", s)
			}
		}
	}
	return nil
}

// ManySections is an image with many sections.
type ManySections struct {
	N    int    `json:"n"`
	Room int    `json:"room"` // after the section headers
	Rsrc string `json:"rsrc"` // none, last, middle
	Plus bool   `json:"plus,omitempty"`
	Res  []Res  `json:"res"`
	Gap  int    `json:"gap,omitempty"`
	Stub int    `json:"stub,omitempty"` // length of the DOS stub
}

func (c ManySections) image() []byte {
	s := &PESpec{Plus: c.Plus, Room: c.Room, NumDirs: 16, FileAlign: 0x200, SectAlign: 0x1000, Overlay: Blob{N: 11, S: 3}, Stub: Blob{N: c.Stub}}
	if c.Room > 60 {
		s.Room, s.HdrGap = -1, c.Gap
	}
	s.Secs = append(s.Secs, SecSpec{Name: ".text", Raw: Blob{N: 300, S: 5}, Flags: 0x60000020})
	for i := 1; i < c.N; i++ {
		x := SecSpec{Name: fmt.Sprintf("s%d", i), Role: "bss", Flags: 0xC0000080, VAdd: 100}
		if i%1000 == 999 {
			x = SecSpec{Name: fmt.Sprintf("d%d", i), Raw: Blob{N: 100, S: uint32(i)}, Flags: 0x40000040}
		}
		if c.Rsrc == "last" && i == c.N-1 || c.Rsrc == "middle" && i == c.N/2 {
			x = SecSpec{Name: ".rsrc", Role: "rsrc", Flags: 0x40000040}
			s.Rsrc = []Res{{Key{Ident{ID: 10}, Ident{ID: 1}, 0}, Blob{N: 10}}}
		}
		s.Secs = append(s.Secs, x)
	}
	return s.build()
}

func runManySections(c ManySections, r *Rec) error {
	b := c.image()
	in, err := parsePE(b)
	if err != nil {
		return harnessf("%v", err)
	}
	if len(in.secs) != c.N {
		return harnessf("%d sections, want %d", len(in.secs), c.N)
	}
	rs, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	m := modelOf(c.Res)
	var out bytes.Buffer
	err = rs.WriteToEXE(&out, bytes.NewReader(b))
	// When .rsrc is in the middle, it may be replaced or abandoned
	canAdd := in.room() >= 40 && c.N < 65535
	if c.N > 1000 {
		r.NonTrivial()
	}
	r.LabelIf(in.room() == 40, "room for exactly one header")
	r.LabelIf(c.Stub > 0xFFFF, "headers after 64 KB")
	r.LabelIf(c.Stub > 0xFFFEFF, "headers after 16 MB")
	r.LabelIf(c.N == 65534, "65534 sections")
	r.LabelIf(c.N == 65535, "65535 sections")
	if err != nil {
		r.Label("refused, .rsrc: %s", c.Rsrc)
		if out.Len() > 0 {
			return fmt.Errorf("%d bytes were written before the error", out.Len())
		}
		if c.Rsrc == "last" || canAdd {
			return fmt.Errorf("%d sections, room for %d bytes of headers, .rsrc %s: %v", c.N, in.room(), c.Rsrc, err)
		}
		return nil
	}
	r.Label("patched, .rsrc: %s", c.Rsrc)
	o, err := parsePE(out.Bytes())
	if err != nil {
		return fmt.Errorf("%d sections, room for %d bytes of headers, .rsrc %s: result: %v", c.N, in.room(), c.Rsrc, err)
	}
	if c.Rsrc == "none" && len(o.secs) != c.N+1 {
		return fmt.Errorf("%d sections became %d", c.N, len(o.secs))
	}
	if err := validImage(in, o, m); err != nil {
		return fmt.Errorf("%d sections, room for %d bytes of headers, .rsrc %s: result: %v", c.N, in.room(), c.Rsrc, err)
	}
	if err := preserved(in, o, PatchOpts{}); err != nil {
		return fmt.Errorf("%d sections, room for %d bytes of headers, .rsrc %s: %v", c.N, in.room(), c.Rsrc, err)
	}
	return nil
}

// FarImage is an image whose sections reach the end of what 32 bits can address, in the file or in memory.
// Its data is not real.
type FarImage struct {
	Plus    bool   `json:"plus,omitempty"`
	FA      int    `json:"fa"`
	SA      int    `json:"sa"`
	Raw     uint32 `json:"raw"`               // raw size of the big section
	VA      uint32 `json:"va"`                // address of the section that follows
	VS      uint32 `json:"vs"`                // and its virtual size
	Overlay int64  `json:"overlay,omitempty"` // bytes after sections
	Place   int    `json:"place"`             // of .rsrc: 0: none, 1: last section, 2: before the last one, which is .reloc
	RsrcRaw uint32 `json:"rsrcraw"`
	Size    int    `json:"size"` // of the resources
}

type sparseSource struct {
	head []byte
	size int64
	pos  int64
}

func (s *sparseSource) Size() int64 { return s.size }
func (s *sparseSource) Read(p []byte) (int, error) {
	if s.pos >= s.size {
		return 0, io.EOF
	}
	if int64(len(p)) > s.size-s.pos {
		p = p[:s.size-s.pos]
	}
	n := 0
	if s.pos < int64(len(s.head)) {
		n = copy(p, s.head[s.pos:])
		p = p[:n]
	} else {
		n = len(p)
		for i := range p {
			p[i] = 0
		}
	}
	s.pos += int64(n)
	return n, nil
}
func (s *sparseSource) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += s.pos
	case io.SeekEnd:
		off += s.size
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = off
	return off, nil
}

var errEnough = errors.New("enough")

// headDst keeps the beginning of what is written, then fails.
type headDst struct {
	b   []byte
	max int
}

func (h *headDst) Write(p []byte) (int, error) {
	n := min(len(p), h.max-len(h.b))
	h.b = append(h.b, p[:n]...)
	if n < len(p) {
		return n, errEnough
	}
	return n, nil
}

type farSec struct{ va, vs, ptr, size uint64 }

func (c FarImage) head() (b []byte, dirAt int, secAt int, secs []farSec, fileSize int64) {
	opt := 96
	if c.Plus {
		opt = 112
	}
	optSize := opt + 16*8
	b = make([]byte, 0x400)
	copy(b, "MZ")
	b[0x3C] = 0x40
	copy(b[0x40:], "PE\x00\x00")
	h := b[0x44:]
	le.PutUint16(h, 0x14C)
	le.PutUint16(h[16:], uint16(optSize))
	o := h[20:]
	le.PutUint16(o, 0x10B)
	if c.Plus {
		le.PutUint16(o, 0x20B)
	}
	le.PutUint32(o[32:], uint32(c.SA))
	le.PutUint32(o[36:], uint32(c.FA))
	le.PutUint32(o[60:], 0x400)
	le.PutUint32(o[opt-4:], 16)
	dirAt = 0x58 + opt
	secAt = 0x58 + optSize
	first := uint64(roundUp(0x400, c.FA))
	secs = append(secs, farSec{0x10000, 0x1000, first, uint64(c.Raw)})
	end := first + uint64(c.Raw)
	va := uint64(c.VA) / uint64(c.SA) * uint64(c.SA)
	switch c.Place {
	case 0:
		secs = append(secs, farSec{va, uint64(c.VS), 0, 0})
	case 1:
		secs = append(secs, farSec{va, uint64(c.VS), end, uint64(c.RsrcRaw)})
		le.PutUint32(b[dirAt+16:], uint32(va))
		le.PutUint32(b[dirAt+20:], 100)
		end += uint64(c.RsrcRaw)
	case 2:
		rva := va - uint64(roundUp(int(c.RsrcRaw), c.SA))
		secs = append(secs, farSec{rva, uint64(c.RsrcRaw), end, uint64(c.RsrcRaw)})
		end += uint64(c.RsrcRaw)
		secs = append(secs, farSec{va, uint64(c.VS), end, uint64(c.FA)})
		end += uint64(c.FA)
		le.PutUint32(b[dirAt+16:], uint32(rva))
		le.PutUint32(b[dirAt+20:], 100)
		le.PutUint32(b[dirAt+40:], uint32(va))
		le.PutUint32(b[dirAt+44:], 8)
	}
	le.PutUint16(h[2:], uint16(len(secs)))
	for i, s := range secs {
		x := b[secAt+40*i:]
		copy(x, fmt.Sprintf("s%d", i))
		le.PutUint32(x[8:], uint32(s.vs))
		le.PutUint32(x[12:], uint32(s.va))
		le.PutUint32(x[16:], uint32(s.size))
		le.PutUint32(x[20:], uint32(s.ptr))
		le.PutUint32(x[36:], 0x40000040)
	}
	return b, dirAt, secAt, secs, int64(end) + c.Overlay
}

func up64(n uint64, a int) uint64 { return (n + uint64(a) - 1) / uint64(a) * uint64(a) }

func runFarImage(c FarImage, r *Rec) error {
	head, _, secAt, secs, fileSize := c.head()
	const lim = 1<<32 - 1
	var memEnd, rawEnd uint64
	for _, s := range secs {
		memEnd = max(memEnd, s.va+s.vs)
		rawEnd = max(rawEnd, s.ptr+s.size)
		if s.ptr > lim || s.size > lim {
			return nil // can't be described
		}
	}
	if secs[len(secs)-1].va < 0x20000 || c.Place == 2 && secs[1].va < 0x20000 {
		return nil
	}
	rs := &winres.ResourceSet{}
	rs.Set(winres.RT_RCDATA, winres.ID(1), 0, make([]byte, c.Size))
	need := uint64(treeSize(Model{Key{Ident{ID: 10}, Ident{ID: 1}, 0}: make([]byte, c.Size)}))
	dst := &headDst{max: 0x400}
	var err error
	alloc := allocDelta(func() { err = rs.WriteToEXE(dst, &sparseSource{head: head, size: fileSize}) })
	if alloc > 4*uint64(fileSize)+uint64(4<<20+20*c.Size) {
		return fmt.Errorf("allocated %d bytes", alloc)
	}
	// Where resources have to be, computed without overflow
	var va, ptr, end, mem uint64
	switch c.Place {
	case 0:
		va, ptr = up64(memEnd, c.SA), up64(rawEnd, c.FA)
		end, mem = ptr+up64(need, c.FA), up64(va+need, c.SA)
	case 1:
		va, ptr = secs[1].va, secs[1].ptr
		end, mem = ptr+up64(need, c.FA), up64(va+need, c.SA)
	case 2:
		va, ptr = secs[1].va, secs[1].ptr
		end = ptr + up64(need, c.FA) + secs[2].size
		mem = up64(up64(va+need, c.SA)+secs[2].vs, c.SA)
	}
	if memEnd > lim-1<<20 || rawEnd > lim-1<<20 {
		r.NonTrivial()
	}
	margin := uint64(2*c.SA + 2*c.FA)
	comfortable := memEnd+need+margin <= lim && rawEnd+need+margin <= lim
	if err != nil && !errors.Is(err, errEnough) {
		r.Label("refused")
		if len(dst.b) > 0 {
			return fmt.Errorf("%d bytes were written before error %v", len(dst.b), err)
		}
		if comfortable {
			return fmt.Errorf("memory ends at %#x, sections at %#x in the file, adding %#x bytes was refused: %v", memEnd, rawEnd, need, err)
		}
		return nil
	}
	r.Label("accepted")
	r.LabelIf(c.Overlay > 1<<31, "appended data beyond 4 GB")
	if end > lim || mem > lim+1 {
		return fmt.Errorf("adding %#x bytes would make the sections end at %#x and the memory at %#x, but it was accepted", need, end, mem)
	}
	if len(dst.b) < 0x400 {
		return fmt.Errorf("only %d bytes were written", len(dst.b))
	}
	n := int(le.Uint16(dst.b[0x46:]))
	i := 1
	if c.Place == 0 {
		i = 2
	}
	if n != len(secs)+map[bool]int{true: 1}[c.Place == 0] {
		return fmt.Errorf("%d sections became %d", len(secs), n)
	}
	x := dst.b[secAt+40*i:]
	got := farSec{uint64(le.Uint32(x[12:])), uint64(le.Uint32(x[8:])), uint64(le.Uint32(x[20:])), uint64(le.Uint32(x[16:]))}
	if got.va != va || got.ptr != ptr || got.size != up64(need, c.FA) || got.vs < need || got.va+got.vs > lim || up64(got.va+got.vs, c.SA) > mem {
		return fmt.Errorf(".rsrc is %#x, want address %#x, pointer %#x, size %#x", got, va, ptr, need)
	}
	if im := uint64(le.Uint32(dst.b[0x58+56:])); im != mem && !(c.Place != 0 && im >= mem && im <= lim) {
		return fmt.Errorf("size of image is %#x, want %#x", im, mem)
	}
	if c.Place == 2 {
		y := dst.b[secAt+80:]
		if v, p := uint64(le.Uint32(y[12:])), uint64(le.Uint32(y[20:])); v < got.va+got.vs || p != got.ptr+got.size {
			return fmt.Errorf(".reloc is at %#x, %#x in the file, after .rsrc %#x", v, p, got)
		}
	}
	return nil
}

// HugeData is a set, an icon or a cursor of about 4 GB. Data is shared, so it takes much less memory.
type HugeData struct {
	Kind int   `json:"kind"` // 0: object, 1: icon, 2: cursor
	Each int   `json:"each"` // size of every resource or image
	Diff int   `json:"diff"` // the size of the file minus 4 GB, approximately
	N    int   `json:"n,omitempty"`
	Arch int   `json:"arch,omitempty"`
	Seed int64 `json:"seed,omitempty"`
}

var zeros = map[int][]byte{}

func runHuge(c HugeData, r *Rec) error {
	d := zeros[c.Each]
	if d == nil {
		d = make([]byte, c.Each) // never touched, except its first page
		zeros[c.Each] = d
	}
	if c.Kind == 2 {
		copy(d, []byte{0, 0, 0, 0, 40})
	}
	target := int64(1)<<32 + int64(c.Diff)
	rs := &winres.ResourceSet{}
	dst := &headDst{max: 60}
	r.NonTrivial()
	const lim = 1<<32 - 1
	if c.Kind == 0 {
		m := Model{}
		left := target
		for i := 1; left > 0; i++ {
			x := d
			if int64(len(x)) > left {
				x = x[:left]
			}
			left -= int64(len(x))
			k := Key{Ident{ID: 10}, Ident{ID: uint16(i)}, 0}
			m[k] = x
			if err := rs.Set(k.T.w(), k.R.w(), k.L, x); err != nil {
				return err
			}
		}
		sec := uint64(treeSize(m))
		end := 60 + sec + 10*uint64(len(m))
		err := rs.WriteObject(dst, archs[c.Arch])
		switch {
		case err != nil && !errors.Is(err, errEnough):
			r.Label("refused")
			if end+0x1000 <= lim {
				return fmt.Errorf("an object of %#x bytes was refused: %v", end, err)
			}
			if len(dst.b) > 0 {
				return fmt.Errorf("%d bytes were written before the error", len(dst.b))
			}
		case end > lim:
			return fmt.Errorf("an object whose relocations end at %#x was accepted", end)
		default:
			r.Label("accepted")
			h := dst.b
			if len(h) < 60 || uint64(le.Uint32(h[20+16:])) != sec || le.Uint32(h[20+20:]) != 60 || uint64(le.Uint32(h[20+24:])) != 60+sec || uint64(le.Uint32(h[8:])) != end {
				return fmt.Errorf("headers of an object of %#x bytes: % x", end, h)
			}
		}
		return nil
	}
	typ := c.Kind
	gt, it := groupTypes(typ)
	n := int(target / int64(c.Each))
	if n > 65535 {
		n = 65535
	}
	rs.Set(it.w(), winres.ID(1), 0, d)
	g := make([]byte, 6+14*n)
	le.PutUint16(g[2:], uint16(typ))
	le.PutUint16(g[4:], uint16(n))
	for i := 0; i < n; i++ {
		e := g[6+14*i:]
		e[0], e[6], e[12] = 16, 32, 1
		if typ == 2 {
			e[2] = 16
		}
	}
	rs.Set(gt.w(), winres.ID(1), 0, g)
	p, err := getPics(typ, rs, Ident{ID: 1})
	if err != nil {
		return fmt.Errorf("extracting: %v", err)
	}
	size := int64(c.Each)
	if typ == 2 {
		size -= 4
	}
	end := 6 + 16*int64(n) + int64(n)*size
	dst.max = 6 + 16*n
	err = p.save(dst)
	switch {
	case err != nil && !errors.Is(err, errEnough):
		r.Label("refused")
		if end <= lim {
			return fmt.Errorf("a file of %#x bytes was refused: %v", end, err)
		}
		if len(dst.b) > 0 {
			return fmt.Errorf("%d bytes were written before the error", len(dst.b))
		}
	case end-size > lim:
		return fmt.Errorf("a file of %#x bytes was accepted", end)
	default:
		r.Label("accepted")
		for i := 0; i < n; i++ {
			if off := int64(le.Uint32(dst.b[6+16*i+12:])); off != 6+16*int64(n)+int64(i)*size {
				return fmt.Errorf("offset of image %d is %#x", i, off)
			}
		}
	}
	return nil
}

// ManyImages is an icon or a cursor of about 65535 images.
type ManyImages struct {
	Typ   int  `json:"typ"`
	N     int  `json:"n"`
	Used  int  `json:"used"`            // a number of image in use
	Build bool `json:"build,omitempty"` // made from images
}

func runManyImages(c ManyImages, r *Rec) error {
	var p pics
	var err error
	r.NonTrivial()
	if c.Build {
		img := solid(1, 1, color.NRGBA{9, 8, 7, 255})
		if c.Typ == 1 {
			in := make([]image.Image, c.N)
			for i := range in {
				in[i] = img
			}
			p.ic, err = winres.NewIconFromImages(in)
		} else {
			in := make([]winres.CursorImage, c.N)
			for i := range in {
				in[i].Image = img
			}
			p.cu, err = winres.NewCursorFromImages(in)
		}
		if err != nil {
			r.Label("refused when made")
			if c.N <= 65535 {
				return err
			}
			return nil
		}
	} else {
		b := BadIconFile{Typ: c.Typ, Many: []int{min(c.N, 65535), 16}}.build()
		if p, err = loadPics(c.Typ, b); err != nil {
			return err
		}
		c.N = min(c.N, 65535)
	}
	b, err := p.bytes()
	if c.N > 65535 {
		if err == nil || len(b) > 0 {
			return fmt.Errorf("saving %d images wrote %d bytes, error: %v", c.N, len(b), err)
		}
	} else {
		if err != nil {
			return fmt.Errorf("saving %d images: %v", c.N, err)
		}
		es, err := parseIconFile(c.Typ, b)
		if err != nil || len(es) != c.N {
			return fmt.Errorf("saving %d images: %d images, %v", c.N, len(es), err)
		}
	}
	gt, it := groupTypes(c.Typ)
	rs := &winres.ResourceSet{}
	m := Model{}
	if c.Used > 0 {
		k := Key{it, Ident{ID: uint16(c.Used)}, 0}
		m[k] = []byte("in use")
		rs.Set(k.T.w(), k.R.w(), 0, []byte("in use"))
	}
	err = p.store(rs, Ident{ID: 1}, 0)
	if err != nil {
		r.Label("refused")
		if c.N+c.Used <= 65535 {
			return fmt.Errorf("storing %d images after %d: %v", c.N, c.Used, err)
		}
		return sameItems(walkItems(rs), m.items())
	}
	r.Label("stored")
	if c.N+c.Used > 65535 {
		return fmt.Errorf("stored %d images after number %d", c.N, c.Used)
	}
	if rs.Count() != c.N+1+len(m) {
		return fmt.Errorf("%d resources for %d images", rs.Count(), c.N)
	}
	ge, err := parseGroup(c.Typ, rs.Get(gt.w(), winres.ID(1), 0))
	if err != nil || len(ge) != c.N {
		return fmt.Errorf("group of %d images: %d, %v", c.N, len(ge), err)
	}
	seen := map[uint16]bool{0: true, uint16(c.Used): true}
	for _, e := range ge {
		if seen[e.ID] {
			return fmt.Errorf("image number %d occurs twice", e.ID)
		}
		seen[e.ID] = true
	}
	q, err := getPics(c.Typ, rs, Ident{ID: 1})
	if err != nil {
		return err
	}
	again, err := q.bytes()
	if err != nil || !bytes.Equal(again, b) {
		return fmt.Errorf("images are altered by a set (%v)", err)
	}
	return nil
}

// LongVersion is version information whose binary form is about 64 KB.
type LongVersion struct {
	Langs int    `json:"langs"`
	Keys  int    `json:"keys"`
	Total int    `json:"total"` // size of the binary form
	Rune  string `json:"rune"`
	InKey bool   `json:"inkey,omitempty"`
}

func (c LongVersion) model() (VerModel, bool) {
	m := VerModel{F: [4]uint16{1, 2, 3, 4}, T: map[uint16]map[string]string{}}
	for i := 0; i < c.Langs; i++ {
		st := map[string]string{}
		for j := 0; j < c.Keys; j++ {
			st[fmt.Sprintf("k%d", j)] = "v"
		}
		m.T[uint16(0x409+i)] = st
	}
	set := func(n int) {
		s := strings.Repeat(c.Rune, n)
		st := m.T[0x409]
		if c.InKey {
			for k := range st {
				if len(k) > 8 || k == "kx" {
					delete(st, k)
				}
			}
			st["kx"+s] = "v"
		} else {
			st["k0"] = s
		}
	}
	// Find the number of characters which gives the total, or is just below
	set(1)
	lo := max((c.Total-sizeVS(m))/(2*u16len(c.Rune)), 1)
	for set(lo); lo > 1 && sizeVS(m) > c.Total; set(lo) {
		lo--
	}
	for set(lo + 1); sizeVS(m) <= c.Total; set(lo + 1) {
		lo++
	}
	set(lo)
	return m, sizeVS(m) <= c.Total
}

func runLongVersion(c LongVersion, r *Rec) error {
	m, ok := c.model()
	if !ok {
		return nil
	}
	n := sizeVS(m)
	r.NonTrivial()
	r.LabelIf(n > 65535, "above 64 KB")
	r.LabelIf(n > 65520 && n <= 65535, "just below 64 KB")
	vi := &version.Info{FileVersion: m.F}
	for l, st := range m.T {
		for k, v := range st {
			if err := vi.Set(l, k, v); err != nil {
				if n > 65535 {
					r.Label("refused")
					return nil
				}
				return fmt.Errorf("Set: %v", err)
			}
		}
	}
	b := vi.Bytes()
	back, err := version.FromBytes(b)
	if err == nil {
		if err = sameInfo(observeInfo(back), m, 99); err == nil && n <= 65535 {
			_, err = parseVS(b)
		}
	}
	if err == nil {
		return nil
	}
	if n > 65535 {
		if len(b) == 0 {
			r.Label("refused")
			return nil
		}
		return findingf("version-bytes-over-64KB", "version information that needs %d bytes is encoded, but it can't be decoded: %v", n, err)
	}
	return fmt.Errorf("version information of %d bytes: %v", n, err)
}

func init() {
	reg("C25", "names", "the name has more than 65000 UTF-16 units", 400, 8000,
		func(t *rapid.T) LongName {
			c := LongName{Where: rapid.IntRange(0, 3).Draw(t, "where"), Arch: rapid.IntRange(0, 3).Draw(t, "arch"), Other: genResources(t, 4, 30)}
			c.Runes = rapid.SampledFrom([]string{"a", "é", "漢", "😀", "aé", "a😀", "漢😀é", "\U0010FFFF", "\uD7FF"}).Draw(t, "runes")
			c.Units = rapid.OneOf(rapid.SampledFrom([]int{65535, 65536, 65534, 65537, 65533, 131071, 131070, 131072, 70000, 98302, 98303}), rapid.IntRange(1, 140000)).Draw(t, "units")
			var other []Res
			for _, x := range c.Other {
				if x.T.ID != 14 && x.T.ID != 3 && x.T.ID != 12 && x.T.ID != 1 {
					other = append(other, x)
				}
			}
			c.Other = other
			return c
		}, runLongName)
	reg("C25", "entries", "all of them", 32, 1500,
		func(t *rapid.T) ManyEntries {
			c := ManyEntries{Level: rapid.IntRange(0, 2).Draw(t, "level"), Arch: rapid.IntRange(0, 3).Draw(t, "arch")}
			switch rapid.IntRange(0, 3).Draw(t, "kind") {
			case 0:
				c.Names = around(t, "names", 65535, 100)
			case 1:
				c.IDs = around(t, "ids", 65535, 100)
			case 2:
				c.Names = around(t, "names", 32768, 100)
				c.IDs = around(t, "ids", 32768, 100)
			default:
				c.Names = around(t, "names", 65535, 100)
				c.IDs = around(t, "ids", 65535, 100)
			}
			c.More = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(t, "more")
			return c
		}, runManyEntries)
	reg("C25", "numbers", "all of them", 6000, 200000,
		func(t *rapid.T) LastNumber {
			c := LastNumber{Typ: rapid.IntRange(1, 2).Draw(t, "typ"), Lang: genLang(t), EXE: rapid.IntRange(0, 3).Draw(t, "exe") == 0, Used: []uint16{}}
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nused"); i < n; i++ {
				c.Used = append(c.Used, rapid.OneOf(rapid.Uint16Range(65520, 65535), rapid.Uint16Range(1, 20), rapid.Uint16Range(1, 65535)).Draw(t, "used"))
			}
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "nadds"); i < n; i++ {
				c.Adds = append(c.Adds, rapid.IntRange(0, 8).Draw(t, "n"))
			}
			c.Delete = rapid.IntRange(0, 3).Draw(t, "delete")
			return c
		}, runLastNumber)
	reg("C25", "image-size", "all of them", 48, 1500,
		func(t *rapid.T) BigImage {
			c := BigImage{Typ: rapid.IntRange(1, 2).Draw(t, "typ"), Small: rapid.IntRange(0, 3).Draw(t, "small"), Last: rapid.Bool().Draw(t, "last"), Real: rapid.Bool().Draw(t, "real")}
			c.Size = around(t, "size", maxImage, 4096)
			if !c.Real && rapid.Bool().Draw(t, "other") {
				c.Size = rapid.SampledFrom([]int{0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFF0, 1 << 24, 1 << 28}).Draw(t, "bogus")
			}
			return c
		}, runBigImage)
	reg("C25", "dimensions", "all of them", 1200, 60000,
		func(t *rapid.T) Dims {
			d := rapid.OneOf(rapid.SampledFrom([]int{1, 255, 256, 257, 0, 2, 258, 300}), rapid.IntRange(0, 300))
			c := Dims{W: d.Draw(t, "w")}
			c.H = c.W
			if rapid.Bool().Draw(t, "rect") {
				c.H = d.Draw(t, "h")
			}
			n := rapid.SampledFrom([]int{-1, 0, 1, 2, 5, 29, 30, 31, 32, 40}).Draw(t, "n")
			if n >= 0 {
				c.Sizes = []int{}
			}
			for i := 0; i < n; i++ {
				c.Sizes = append(c.Sizes, rapid.IntRange(1, 40).Draw(t, "size"))
			}
			if n > 0 && rapid.IntRange(0, 2).Draw(t, "odd") == 0 {
				c.Sizes[rapid.IntRange(0, n-1).Draw(t, "which")] = rapid.SampledFrom([]int{0, -1, 1, 255, 256, 257, 258, 512, 1 << 16, 1<<16 + 16, 1<<32 + 16, -240, 272}).Draw(t, "oddsize")
			}
			return c
		}, runDims)
	reg("C25", "sections", "more than 1000 sections", 64, 3000,
		func(t *rapid.T) ManySections {
			c := ManySections{Plus: rapid.Bool().Draw(t, "plus"), Res: genResources(t, 5, 300), Rsrc: rapid.SampledFrom([]string{"none", "last", "middle"}).Draw(t, "rsrc")}
			c.N = rapid.OneOf(rapid.SampledFrom([]int{65535, 65534, 65533, 32767, 32768, 3, 96}), rapid.IntRange(3, 65535)).Draw(t, "n")
			c.Room = rapid.SampledFrom([]int{40, 39, 41, 0, 38, 61, 61}).Draw(t, "room")
			c.Gap = rapid.IntRange(0, 2).Draw(t, "gap")
			switch rapid.IntRange(0, 7).Draw(t, "stub") {
			case 1:
				c.Stub = rapid.IntRange(0, 0x30000).Draw(t, "stublen")
			case 2:
				c.Stub = 0x1000000 + rapid.IntRange(-0x100, 0x100).Draw(t, "stublen") // the headers are after 16 MB
			}
			return c
		}, runManySections)
	reg("C25", "far", "sections end less than 1 MB before the last address", 20000, 800000,
		func(t *rapid.T) FarImage {
			c := FarImage{Plus: rapid.Bool().Draw(t, "plus"), FA: rapid.SampledFrom([]int{0x200, 0x1000, 0x10000}).Draw(t, "fa"), SA: rapid.SampledFrom([]int{0x1000, 0x10000, 0x2000}).Draw(t, "sa")}
			c.SA = max(c.SA, c.FA)
			c.Place = rapid.IntRange(0, 2).Draw(t, "place")
			c.Size = rapid.SampledFrom([]int{1, 100, 4000, 5000, 70000, 200000}).Draw(t, "size")
			c.RsrcRaw = uint32(c.FA * rapid.SampledFrom([]int{1, 2, 16}).Draw(t, "rsrcraw"))
			far := func(what string, align int) uint32 {
				switch rapid.IntRange(0, 2).Draw(t, what) {
				case 0:
					return uint32(align * rapid.IntRange(16, 300).Draw(t, "near"))
				case 1:
					return uint32(0x100000000 - int64(align)*int64(rapid.IntRange(1, 80).Draw(t, "far")))
				}
				return uint32(0x100000000 - int64(align)*int64(rapid.IntRange(1, 12).Draw(t, "far")))
			}
			c.Raw = far("raw", c.FA)
			c.VA = far("va", c.SA)
			c.VS = rapid.OneOf(rapid.SampledFrom([]uint32{1, 0x1000, 0x1001, 0xFFFF, 0x10000}), rapid.Uint32Range(1, 0x20000)).Draw(t, "vs")
			if rapid.IntRange(0, 4).Draw(t, "overlay") == 0 {
				c.Overlay = rapid.SampledFrom([]int64{1, 1 << 20, 1 << 32, 1<<33 + 5}).Draw(t, "size")
			}
			return c
		}, runFarImage)
	f := reg("C25", "huge", "all of them", 160, 4000,
		func(t *rapid.T) HugeData {
			c := HugeData{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Arch: rapid.IntRange(0, 3).Draw(t, "arch")}
			if c.Kind == 0 {
				c.Each = rapid.SampledFrom([]int{1 << 28, 1 << 24, 1<<28 - 8}).Draw(t, "each")
			} else {
				c.Each = rapid.SampledFrom([]int{1 << 28, 1 << 22, 1 << 17, 66000}).Draw(t, "each")
			}
			c.Diff = rapid.OneOf(rapid.SampledFrom([]int{0, -1, 8, -8, -60, -400, -2000, -20000, -1 << 20}), rapid.IntRange(-1<<17, 1<<17), rapid.IntRange(-3000, 3000), rapid.IntRange(-1<<29, 1<<29)).Draw(t, "diff")
			return c
		}, runHuge)
	f.MaxShards = 2
	reg("C25", "images", "all of them", 12, 300,
		func(t *rapid.T) ManyImages {
			c := ManyImages{Typ: rapid.IntRange(1, 2).Draw(t, "typ"), N: rapid.SampledFrom([]int{65535, 65534, 65530, 65536, 65537, 32768}).Draw(t, "n")}
			c.Used = rapid.SampledFrom([]int{0, 0, 1, 2, 5, 6, 32767, 32768}).Draw(t, "used")
			c.Build = c.Typ == 2 && c.N > 65535
			return c
		}, runManyImages)
	f = reg("C25", "icon-images", "all of them", 1, 12, // making PNG images takes time
		func(t *rapid.T) ManyImages {
			return ManyImages{Typ: 1, N: rapid.SampledFrom([]int{65536, 65536, 65537, 65535}).Draw(t, "n"), Build: true, Used: rapid.SampledFrom([]int{0, 1, 32768}).Draw(t, "used")}
		}, runManyImages)
	f.MaxShards = 2
	reg("C25", "version", "all of them", 240, 6000,
		func(t *rapid.T) LongVersion {
			c := LongVersion{Langs: rapid.SampledFrom([]int{1, 1, 2, 5}).Draw(t, "langs"), Keys: rapid.SampledFrom([]int{1, 2, 12}).Draw(t, "keys"), InKey: rapid.IntRange(0, 3).Draw(t, "inkey") == 0}
			c.Rune = rapid.SampledFrom([]string{"a", "é", "漢", "😀"}).Draw(t, "rune")
			c.Total = rapid.OneOf(rapid.IntRange(65520, 65535), rapid.IntRange(65400, 65700), rapid.IntRange(4000, 140000), rapid.SampledFrom([]int{65536, 65537, 65540, 131072, 131100})).Draw(t, "total")
			return c
		}, runLongVersion)
}
