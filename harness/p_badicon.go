package main

// C21: malformed icon and cursor files and resources.

import (
	"bytes"
	"fmt"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// BadIconFile is an ICO or CUR file with mutations.
type BadIconFile struct {
	Typ  int      `json:"typ"`
	I    *IcoFile `json:"i,omitempty"`
	C    *CurFile `json:"c,omitempty"`
	Raw  []byte   `json:"raw,omitempty"` // instead of I or C
	Many []int    `json:"many,omitempty"`
	Muts []Mut    `json:"muts"`
	K    Ident    `json:"k"`
	L    uint16   `json:"l,omitempty"`
}

// iconFields are the fields of an entry in a file: offset and size.
var iconFields = [][2]int{{12, 4}, {8, 4}, {8, 4}, {12, 4}, {0, 1}, {1, 1}, {2, 1}, {3, 1}, {4, 2}, {6, 2}}

func (c BadIconFile) build() []byte {
	var b []byte
	switch {
	case c.I != nil:
		b = c.I.build()
	case c.C != nil:
		b = c.C.build()
	default:
		b = append([]byte{}, c.Raw...)
	}
	if len(c.Many) == 2 {
		// Many entries that share the same data
		n, size := c.Many[0]%0x10000, c.Many[1]
		b = make([]byte, 6+16*n+size)
		le.PutUint16(b[2:], uint16(c.Typ))
		le.PutUint16(b[4:], uint16(n))
		for i := 0; i < n; i++ {
			le.PutUint32(b[6+16*i+8:], uint32(size))
			le.PutUint32(b[6+16*i+12:], uint32(6+16*n))
		}
		if size >= 4 {
			b[6+16*n] = 40
		}
	}
	for _, m := range c.Muts {
		n := 0
		if len(b) >= 6 {
			n = min(int(le.Uint16(b[4:])), (len(b)-6)/16)
		}
		switch m.Where {
		case "hdr":
			m.Size = 2
			m.apply(b, 2*(m.I%3), len(b))
		case "entry":
			if n > 0 {
				f := iconFields[m.Off%len(iconFields)]
				m.Size = f[1]
				e := 6 + 16*(m.I%n)
				base := len(b)
				// The size of interest is what makes the image end with the file
				if f[0] == 8 {
					base -= int(le.Uint32(b[e+12:]))
				} else if f[0] == 12 {
					base -= int(le.Uint32(b[e+8:]))
				}
				m.apply(b, e+f[0], base)
			}
		case "img":
			if n > 0 {
				off := int(le.Uint32(b[6+16*(m.I%n)+12:]))
				m.apply(b, off+m.Off%20, len(b))
			}
		default:
			b = m.cutting(b)
		}
	}
	return b
}

func genBadIconFile(t *rapid.T) BadIconFile {
	c := BadIconFile{Typ: rapid.IntRange(1, 2).Draw(t, "typ"), K: genIdent(t, resPool), L: genLang(t), Muts: []Mut{}}
	switch kind := rapid.IntRange(0, 400).Draw(t, "kind"); {
	case kind == 222:
		c.Many = []int{rapid.SampledFrom([]int{0xFFFF, 0x7FFF, 5000}).Draw(t, "n"), rapid.SampledFrom([]int{0, 1, 16, 100}).Draw(t, "size")}
	case kind > 380:
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "raw")
		if len(c.Raw) > 6 && rapid.Bool().Draw(t, "header") {
			copy(c.Raw, []byte{0, 0, byte(c.Typ), 0, byte(rapid.IntRange(0, 4).Draw(t, "count")), 0})
		}
	case c.Typ == 1:
		f := genIcoFile(t, 5, 300)
		c.I = &f
	default:
		f := genCurFile(t, 5, 300)
		c.C = &f
	}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nmut"); i < n; i++ {
		m := Mut{Where: rapid.SampledFrom([]string{"entry", "entry", "hdr", "img", "other"}).Draw(t, "kind")}
		if m.Where == "other" {
			m = genCut(t, 500)
		} else {
			m.I = rapid.IntRange(0, 5).Draw(t, "i")
			m.Off = rapid.IntRange(0, 20).Draw(t, "off")
			m.Size = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "size")
			m.Op, m.V = genVal(t)
			if m.Where == "img" && m.Off < 4 {
				m.Off, m.Op, m.Size, m.V = 0, 0, 4, rapid.SampledFrom([]uint32{40, 108, 124, 12, 64, 56, 39, 41, 0, 0x10028, 0x28000000}).Draw(t, "dib")
			}
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

const maxImage = 0xA00000 // documented in the code: no more than 10 MB per image

var pngMagic = []byte("\x89PNG\r\n\x1a\n")

// looseIconFile reads whatever an ICO or CUR file describes.
// It returns how many bytes of images had to be read in order to know.
func looseIconFile(typ int, b []byte) (es []Entry, total int, ok bool) {
	if len(b) < 6 || le.Uint16(b) != 0 || int(le.Uint16(b[2:])) != typ {
		return nil, 0, false
	}
	n := int(le.Uint16(b[4:]))
	if len(b) < 6+16*n {
		return nil, 0, false
	}
	for i := 0; i < n; i++ {
		e := b[6+16*i:]
		size, off := uint64(le.Uint32(e[8:])), uint64(le.Uint32(e[12:]))
		if size > maxImage {
			return nil, total, false
		}
		if off+size > uint64(len(b)) && size > 0 {
			return nil, total + int(size), false
		}
		x := Entry{W: dim(e[0]), H: dim(e[1]), Data: []byte{}}
		if size > 0 {
			x.Data = b[off : off+size]
		}
		total += int(size)
		if typ == 1 {
			x.CC, x.Res = e[2], e[3]
			x.Planes, x.Bits = le.Uint16(e[4:]), le.Uint16(e[6:])
		} else {
			x.X, x.Y = le.Uint16(e[4:]), le.Uint16(e[6:])
			if x.Planes, x.Bits, ok = dibInfo(x.Data); !ok {
				return nil, total, false
			}
		}
		es = append(es, x)
	}
	orderEntries(es)
	return es, total, true
}

// dibInfo reads the number of planes and the depth of a cursor image.
func dibInfo(d []byte) (planes, bits uint16, ok bool) {
	if bytes.HasPrefix(d, pngMagic) {
		return 1, 32, true
	}
	if len(d) < 16 {
		return 0, 0, false
	}
	switch le.Uint32(d) {
	case 40, 108, 124:
		return le.Uint16(d[12:]), le.Uint16(d[14:]), true
	}
	return 0, 0, false
}

func runBadIconFile(c BadIconFile, r *Rec) error {
	b := c.build()
	orig := append([]byte{}, b...)
	if len(c.Muts) > 0 || c.Raw != nil || c.Many != nil {
		r.NonTrivial()
	}
	r.LabelIf(len(c.Many) > 0, "thousands of entries")
	want, total, ok := looseIconFile(c.Typ, orig)

	var p pics
	var err error
	alloc := allocDelta(func() { p, err = loadPics(c.Typ, b) })
	if max := uint64(2<<20 + 2*total + 64*len(b) + 8192*len(want)); alloc > max && alloc > uint64(2*maxImage) {
		return fmt.Errorf("loading a file of %d bytes which describes %d bytes of images allocated %d bytes", len(b), total, alloc)
	}
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("the file was modified")
	}
	if err != nil {
		r.Label("refused")
		if p.ic != nil || p.cu != nil {
			return fmt.Errorf("returned something with error %v", err)
		}
		return nil
	}
	r.Label("loads")
	if !ok {
		return fmt.Errorf("this file describes no valid images, but it was loaded")
	}
	// Same with the other loader
	if q, err := loadPics(3-c.Typ, b); err == nil {
		return fmt.Errorf("both loaders accept this file: %v", q)
	}
	return usable(p, want, c.K, c.L, true, r)
}

// usable verifies that icons or cursors can be saved and stored, and hold what is expected.
// reload tells that a saved file has to be loadable.
func usable(p pics, want []Entry, k Ident, lang uint16, reload bool, r *Rec) error {
	typ := p.typ()
	tooBig := false
	file := append([]Entry{}, want...)
	for i := range file {
		if file[i].W > 256 || file[i].H > 256 {
			tooBig = true
		}
		if file[i].W == 0 {
			file[i].W = 256
		}
		if file[i].H == 0 {
			file[i].H = 256
		}
	}
	if len(want) > 0xFFFF {
		return harnessf("%d images", len(want))
	}
	saved, err := p.bytes()
	switch {
	case tooBig:
		r.Label("dimensions above 256")
		if err == nil {
			return fmt.Errorf("a file was saved with impossible dimensions")
		}
		if len(saved) > 0 {
			return fmt.Errorf("%d bytes were saved before reporting impossible dimensions", len(saved))
		}
	case err != nil:
		return fmt.Errorf("what was loaded can't be saved: %v", err)
	default:
		if err := checkPics(p, file); err != nil {
			return fmt.Errorf("saved: %v", err)
		}
		q, err := loadPics(typ, saved)
		if err != nil && reload {
			return fmt.Errorf("a saved file can't be loaded: %v", err)
		}
		if err == nil {
			again, err := q.bytes()
			if err != nil || reload && !bytes.Equal(saved, again) {
				return fmt.Errorf("saving again: %v", err)
			}
		}
	}
	// Storing
	rs := &winres.ResourceSet{}
	if err := p.store(rs, k, lang); err != nil {
		return fmt.Errorf("what was loaded can't be stored: %v", err)
	}
	gt, _ := groupTypes(typ)
	ge, err := parseGroup(typ, rs.Get(gt.w(), k.w(), lang))
	if err != nil {
		return fmt.Errorf("stored group: %v", err)
	}
	if len(ge) != len(want) {
		return fmt.Errorf("stored %d images, want %d", len(ge), len(want))
	}
	for i, g := range ge {
		w := want[i]
		size := len(w.Data)
		if typ == 2 {
			size += 4
		}
		g.X, g.Y, g.Data = w.X, w.Y, w.Data
		if g.Entry.String() != w.String() || int(g.Size) != size {
			return fmt.Errorf("stored group: entry %d is %v (%d bytes), want %v (%d bytes)", i, g.Entry, g.Size, w, size)
		}
	}
	q, err := getPics(typ, rs, k)
	if err != nil {
		return fmt.Errorf("what was stored can't be extracted: %v", err)
	}
	again, err := q.bytes()
	if (err != nil) != tooBig {
		return fmt.Errorf("what was stored can't be saved: %v", err)
	}
	irregular := false
	for i := range want {
		if typ == 2 && halvedHeight(want[i].H, want[i].Data) != want[i].H {
			irregular = true
			want[i].H = halvedHeight(want[i].H, want[i].Data)
		}
	}
	if irregular {
		// The height in a DIB header counts the mask: this file isn't regular. Compilers write that height in groups.
		r.Label("irregular DIB height")
		if tooBig {
			return nil
		}
		if err := checkPics(q, want); err != nil {
			return fmt.Errorf("what was stored is saved differently: %v", err)
		}
	} else if !bytes.Equal(again, saved) {
		return fmt.Errorf("what was stored is saved differently: %s", diffBytes(again, saved))
	}
	if rs.Count() != len(want)+1 {
		return fmt.Errorf("%d resources for %d images", rs.Count(), len(want))
	}
	var obj bytes.Buffer
	if err := rs.WriteObject(&obj, winres.ArchAMD64); err != nil && len(want) < 60000 {
		return fmt.Errorf("what was stored can't be written to an object: %v", err)
	}
	return nil
}

// BadGroup is a set that holds a possibly malformed group, and some of the images it mentions.
type BadGroup struct {
	Typ  int        `json:"typ"`
	G    []GroupDef `json:"g"`
	Muts []Mut      `json:"muts"`
	Raw  []byte     `json:"raw,omitempty"` // instead of G
	Imgs []BadImg   `json:"imgs"`
	Cnt  int        `json:"cnt,omitempty"` // repeats the group's entries
	K    Ident      `json:"k"`
	L    uint16     `json:"l,omitempty"`
	EXE  bool       `json:"exe,omitempty"` // goes through an executable
	Out  Ident      `json:"out"`
}

// GroupDef is an entry of a group.
type GroupDef struct {
	W    uint16 `json:"w"`
	H    uint16 `json:"h"`
	Pl   uint16 `json:"pl"`
	Bits uint16 `json:"bits"`
	Size uint32 `json:"size"`
	ID   uint16 `json:"id"`
}

// BadImg is an image resource.
type BadImg struct {
	ID Ident  `json:"id"`
	L  uint16 `json:"l,omitempty"`
	D  Blob   `json:"d"`
}

func (c BadGroup) group() []byte {
	b := make([]byte, 6)
	le.PutUint16(b[2:], uint16(c.Typ))
	n := 0
	for r := 0; r <= c.Cnt; r++ {
		for _, g := range c.G {
			e := make([]byte, 14)
			if c.Typ == 1 {
				e[0], e[1], e[2], e[3] = byte(g.W), byte(g.H), byte(g.W>>8), byte(g.H>>8)
			} else {
				le.PutUint16(e, g.W)
				le.PutUint16(e[2:], g.H)
			}
			le.PutUint16(e[4:], g.Pl)
			le.PutUint16(e[6:], g.Bits)
			le.PutUint32(e[8:], g.Size)
			le.PutUint16(e[12:], g.ID)
			b = append(b, e...)
			n++
		}
	}
	le.PutUint16(b[4:], uint16(n))
	if c.Raw != nil {
		b = append([]byte{}, c.Raw...)
	}
	for _, m := range c.Muts {
		switch m.Where {
		case "hdr":
			m.Size = 2
			m.apply(b, 2*(m.I%3), len(b))
		case "entry":
			if len(b) >= 20 {
				m.apply(b, 6+14*(m.I%((len(b)-6)/14))+m.Off%14, len(b))
			}
		default:
			b = m.cutting(b)
		}
	}
	return b
}

func genBadGroup(t *rapid.T) BadGroup {
	c := BadGroup{Typ: rapid.IntRange(1, 2).Draw(t, "typ"), K: genIdent(t, resPool), L: genLang(t), G: []GroupDef{}, Muts: []Mut{}, Imgs: []BadImg{}, Out: genIdent(t, resPool)}
	dims := rapid.OneOf(rapid.SampledFrom([]uint16{16, 32, 256, 48, 255, 257, 0, 1, 64, 0x100, 0xFFFF}), rapid.Uint16Range(0, 300))
	for i, n := 0, rapid.IntRange(0, 6).Draw(t, "n"); i < n; i++ {
		g := GroupDef{W: dims.Draw(t, "w"), Pl: uint16(rapid.IntRange(0, 2).Draw(t, "pl")), Bits: genBits(t), ID: uint16(rapid.IntRange(1, 8).Draw(t, "id"))}
		g.H = g.W
		if rapid.IntRange(0, 4).Draw(t, "rect") == 0 {
			g.H = dims.Draw(t, "h")
		}
		g.Size = uint32(rapid.IntRange(0, 300).Draw(t, "size"))
		c.G = append(c.G, g)
	}
	for i, n := 0, rapid.IntRange(0, 10).Draw(t, "nimgs"); i < n; i++ {
		im := BadImg{ID: Ident{ID: uint16(i + 1)}, L: genLang(t), D: genBlob(t, 100)}
		if rapid.IntRange(0, 5).Draw(t, "other") == 0 {
			im.ID = rapid.SampledFrom([]Ident{{ID: 1}, {ID: 2}, {ID: 0xFFF}, {Name: "1"}, {Name: "X"}}).Draw(t, "imgid")
		}
		if rapid.IntRange(0, 6).Draw(t, "tiny") == 0 {
			im.D = genBlobN(t, rapid.IntRange(0, 5).Draw(t, "len"))
		}
		c.Imgs = append(c.Imgs, im)
	}
	if k := rapid.IntRange(0, 300).Draw(t, "many"); k == 137 && len(c.G) > 0 {
		c.Cnt = 0xFFFF/len(c.G) - 1
	} else if k > 290 {
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "nmut"); i < n; i++ {
		m := Mut{Where: rapid.SampledFrom([]string{"entry", "entry", "hdr", "other"}).Draw(t, "kind")}
		if m.Where == "other" {
			m = genCut(t, 90)
		} else {
			m.I, m.Off = rapid.IntRange(0, 5).Draw(t, "i"), rapid.IntRange(0, 13).Draw(t, "off")
			m.Size = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "size")
			m.Op, m.V = genVal(t)
		}
		c.Muts = append(c.Muts, m)
	}
	c.EXE = rapid.IntRange(0, 3).Draw(t, "exe") == 0
	return c
}

// looseGroup reads whatever a group describes: its entries may be followed by anything.
func looseGroup(typ int, m Model, g []byte) ([]Entry, bool) {
	if len(g) < 6 {
		return nil, false
	}
	n := 6 + 14*int(le.Uint16(g[4:]))
	if n > len(g) {
		return nil, false
	}
	_, it := groupTypes(typ)
	ge, err := parseGroup(typ, g[:n])
	if err != nil {
		return nil, false
	}
	var out []Entry
	images := map[uint16][]byte{}
	for _, e := range ge {
		d, ok := images[e.ID]
		if !ok {
			if d, ok = m.imageOf(it, e.ID); !ok {
				return nil, false
			}
			images[e.ID] = d
		}
		x := e.Entry
		x.Data = d
		if typ == 2 {
			if len(d) < 4 {
				return nil, false
			}
			x.X, x.Y, x.Data = le.Uint16(d), le.Uint16(d[2:]), d[4:]
			x.H = halvedHeight(x.H, x.Data)
		}
		out = append(out, x)
	}
	orderEntries(out)
	return out, true
}

func runBadGroup(c BadGroup, r *Rec) error {
	gt, it := groupTypes(c.Typ)
	g := c.group()
	rs := &winres.ResourceSet{}
	m := Model{}
	set := func(k Key, d []byte) error {
		m[k] = append([]byte{}, d...)
		return rs.Set(k.T.w(), k.R.w(), k.L, append([]byte{}, d...))
	}
	for _, im := range c.Imgs {
		if err := set(Key{it, im.ID, im.L}, im.D.bytes()); err != nil {
			return err
		}
	}
	if err := set(Key{gt, c.K, c.L}, g); err != nil {
		return err
	}
	if c.EXE {
		var b bytes.Buffer
		if err := rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil))); err != nil {
			return fmt.Errorf("patching: %v", err)
		}
		var err error
		if rs, err = winres.LoadFromEXE(bytes.NewReader(b.Bytes())); err != nil {
			return fmt.Errorf("loading: %v", err)
		}
		r.Label("through an executable")
	}
	if len(c.Muts) > 0 || c.Raw != nil || c.Cnt > 0 {
		r.NonTrivial()
	}
	want, ok := looseGroup(c.Typ, m, g)
	for i := 0; i < 2; i++ {
		var p pics
		var err error
		alloc := allocDelta(func() {
			if i == 0 {
				p, err = getPics(c.Typ, rs, c.K)
			} else {
				p, err = getPicsLang(c.Typ, rs, c.K, c.L)
			}
		})
		if max := uint64(1<<20 + 2000*len(g)); alloc > max {
			return fmt.Errorf("extracting from a group of %d bytes allocated %d bytes", len(g), alloc)
		}
		if err != nil {
			r.Label("refused")
			continue
		}
		r.Label("extracted")
		if !ok {
			return fmt.Errorf("the group is malformed, but it was extracted")
		}
		// A cursor extracted from a set may have any data
		if err := usable(p, want, c.Out, c.L, c.Typ == 1, r); err != nil {
			return err
		}
	}
	if err := sameItems(walkItems(rs), m.items()); err != nil {
		return fmt.Errorf("the set was modified: %v", err)
	}
	// Other group names don't exist
	if p, err := getPics(3-c.Typ, rs, c.K); err == nil {
		return fmt.Errorf("extracted the wrong kind of group: %v", p)
	}
	return nil
}

func init() {
	reg("C21", "file", "at least one mutation was applied", 24000, 1000000, genBadIconFile, runBadIconFile)
	reg("C21", "group", "the group was mutated, or has thousands of entries", 24000, 1000000, genBadGroup, runBadGroup)
}
