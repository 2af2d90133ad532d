package main

// C10, C12: icons and cursors stored in a resource set.
// C11: ICO and CUR files.

import (
	"bytes"
	"fmt"
	"io"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// ImgOp is an operation on a set that contains icons (or cursors).
type ImgOp struct {
	O  string   `json:"o"`
	K  Ident    `json:"k"`
	L  uint16   `json:"l,omitempty"`
	I  *IcoFile `json:"i,omitempty"`
	C  *CurFile `json:"c,omitempty"`
	ID uint16   `json:"id,omitempty"`
	D  Blob     `json:"d"`
	K2 Ident    `json:"k2"`
	L2 uint16   `json:"l2,omitempty"`
}

// ImgHistory is a history on icons (Typ 1) or cursors (Typ 2).
type ImgHistory struct {
	Typ int     `json:"typ"`
	Ops []ImgOp `json:"ops"`
}

var imgOps = []string{"store", "store", "store", "store", "store", "copy", "copy", "del", "delimg", "delimg", "set", "set", "raw", "exe", "single", "get", "restore"}

func genImgHistory(typ int) func(t *rapid.T) ImgHistory {
	return func(t *rapid.T) ImgHistory {
		h := ImgHistory{Typ: typ, Ops: []ImgOp{}}
		keys := []Ident{{ID: 1}, {ID: 2}, {Name: "A"}, {Name: "B"}}
		if rapid.IntRange(0, 5).Draw(t, "anykey") == 0 {
			keys = append(keys, genIdent(t, resPool))
		}
		langs := []uint16{0, 0x409, 0x40C, genLang(t)}
		for i, n := 0, rapid.IntRange(1, 12).Draw(t, "nops"); i < n; i++ {
			op := ImgOp{
				O:  rapid.SampledFrom(imgOps).Draw(t, "op"),
				K:  rapid.SampledFrom(keys).Draw(t, "key"),
				L:  rapid.SampledFrom(langs).Draw(t, "lang"),
				K2: rapid.SampledFrom(keys).Draw(t, "key2"),
				L2: rapid.SampledFrom(langs).Draw(t, "lang2"),
			}
			switch op.O {
			case "store":
				max := rapid.SampledFrom([]int{5, 5, 5, 5, 5, 5, 5, 5, 5, 20, 40}).Draw(t, "maximg")
				if typ == 1 {
					f := genIcoFile(t, max, 60)
					op.I = &f
				} else {
					f := genCurFile(t, max, 60)
					op.C = &f
				}
			case "set", "delimg":
				op.ID = rapid.OneOf(rapid.Uint16Range(1, 12), rapid.Uint16Range(1, 12), rapid.Uint16Range(1, 12), rapid.SampledFrom([]uint16{100, 255, 256, 1000, 0x7FFC, 0x7FFF, 0x8000, 0x8001, 0xFE00, 65530, 65535})).Draw(t, "id")
				op.D = genBlob(t, 60)
				op.D.N += 4
			case "raw":
				op.D = genBlob(t, 60)
			}
			h.Ops = append(h.Ops, op)
		}
		return h
	}
}

// pics is an icon or a cursor.
type pics struct {
	ic *winres.Icon
	cu *winres.Cursor
}

func loadPics(typ int, b []byte) (p pics, err error) {
	if typ == 1 {
		p.ic, err = winres.LoadICO(bytes.NewReader(b))
	} else {
		p.cu, err = winres.LoadCUR(bytes.NewReader(b))
	}
	return
}

func (p pics) save(w io.Writer) error {
	if p.ic != nil {
		return p.ic.SaveICO(w)
	}
	return p.cu.SaveCUR(w)
}

func (p pics) bytes() ([]byte, error) {
	var b bytes.Buffer
	err := p.save(&b)
	return b.Bytes(), err
}

func (p pics) typ() int {
	if p.ic != nil {
		return 1
	}
	return 2
}

func (p pics) store(rs *winres.ResourceSet, k Ident, lang uint16) error {
	switch {
	case p.ic != nil && lang == 0:
		return rs.SetIcon(k.w(), p.ic)
	case p.ic != nil:
		return rs.SetIconTranslation(k.w(), lang, p.ic)
	case lang == 0:
		return rs.SetCursor(k.w(), p.cu)
	}
	return rs.SetCursorTranslation(k.w(), lang, p.cu)
}

func getPics(typ int, rs *winres.ResourceSet, k Ident) (p pics, err error) {
	if typ == 1 {
		p.ic, err = rs.GetIcon(k.w())
	} else {
		p.cu, err = rs.GetCursor(k.w())
	}
	return
}

func getPicsLang(typ int, rs *winres.ResourceSet, k Ident, lang uint16) (p pics, err error) {
	if typ == 1 {
		p.ic, err = rs.GetIconTranslation(k.w(), lang)
	} else {
		p.cu, err = rs.GetCursorTranslation(k.w(), lang)
	}
	return
}

// groupTypes gives the type of groups and of images.
func groupTypes(typ int) (Ident, Ident) {
	if typ == 1 {
		return Ident{ID: 14}, Ident{ID: 3}
	}
	return Ident{ID: 12}, Ident{ID: 1}
}

// imageOf finds what Windows takes for an image number: its lowest language.
func (m Model) imageOf(it Ident, id uint16) (d []byte, ok bool) {
	lang := -1
	for k, v := range m {
		if k.T == it && k.R == (Ident{ID: id}) && (lang < 0 || int(k.L) < lang) {
			lang, d, ok = int(k.L), v, true
		}
	}
	return
}

// halvedHeight gives the height of a cursor from that of its group entry: resource compilers write the height of the DIB
// header there, which counts the mask.
func halvedHeight(h int, data []byte) int {
	if len(data) >= 16 && h%2 == 0 && le.Uint32(data[8:]) == uint32(h) {
		if hs := le.Uint32(data); hs == 40 || hs == 108 || hs == 124 {
			return h / 2
		}
	}
	return h
}

// expectPics tells what extracting a group must give, or that it must fail.
func expectPics(typ int, m Model, g []byte) ([]Entry, bool) {
	_, it := groupTypes(typ)
	ge, err := parseGroup(typ, g)
	if err != nil {
		return nil, false
	}
	var out []Entry
	for _, e := range ge {
		d, ok := m.imageOf(it, e.ID)
		if !ok {
			return nil, false
		}
		x := e.Entry
		x.Data = d
		if typ == 2 {
			if len(d) < 4 {
				return nil, false
			}
			x.X, x.Y = le.Uint16(d), le.Uint16(d[2:])
			x.Data = d[4:]
			x.H = halvedHeight(x.H, x.Data)
		}
		out = append(out, x)
	}
	orderEntries(out)
	return out, true
}

// checkPics compares an icon or a cursor with what it must contain, through its file form.
func checkPics(p pics, want []Entry) error {
	typ := p.typ()
	b, err := p.bytes()
	if err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	got, err := parseIconFile(typ, b)
	if err != nil {
		return fmt.Errorf("saved file: %v", err)
	}
	if typ == 2 {
		// Depth isn't stored in CUR files: it is a part of the images.
		got, want = append([]Entry{}, got...), append([]Entry{}, want...)
		for i := range got {
			got[i].Planes, got[i].Bits = 0, 0
		}
		for i := range want {
			want[i].Planes, want[i].Bits = 0, 0
		}
	}
	return sameEntries(got, want)
}

func runImgHistory(h ImgHistory, r *Rec) error {
	typ := h.Typ
	gt, it := groupTypes(typ)
	rs := &winres.ResourceSet{}
	m := Model{}
	last := 0 // highest image number seen in this set
	stored, shared := 0, false
	var prev pics
	var prevWant []Entry

	store := func(p pics, k Ident, lang uint16, want []Entry) error {
		err := p.store(rs, k, lang)
		if err != nil {
			if last+len(want) <= 0xFFFF {
				return fmt.Errorf("storing %d images: %v", len(want), err)
			}
			r.Label("no image number left")
			return nil
		}
		gk := Key{gt, k, lang}
		g := rs.Get(gt.w(), k.w(), lang)
		if g == nil {
			return fmt.Errorf("no group resource %v", gk)
		}
		ge, err := parseGroup(typ, g)
		if err != nil {
			return err
		}
		if len(ge) != len(want) {
			return fmt.Errorf("the group has %d images, want %d", len(ge), len(want))
		}
		mine := map[uint16]bool{}
		used := map[Ident]bool{}
		for k := range m {
			if k.T == it {
				used[k.R] = true
			}
		}
		for i, e := range ge {
			id := Ident{ID: e.ID}
			if e.ID == 0 || mine[e.ID] || used[id] {
				return fmt.Errorf("image number %d of image %d is null or was already in use", e.ID, i)
			}
			mine[e.ID] = true
			d := rs.Get(it.w(), winres.ID(e.ID), 0)
			if d == nil {
				return fmt.Errorf("no image number %d", e.ID)
			}
			w := want[i]
			res := w.Data
			if typ == 2 {
				res = append(append([]byte{byte(w.X), byte(w.X >> 8), byte(w.Y), byte(w.Y >> 8)}), w.Data...)
			}
			if int(e.Size) != len(res) {
				return fmt.Errorf("image %d: the group declares %d bytes, want %d", i, e.Size, len(res))
			}
			if !bytes.Equal(d, res) {
				return fmt.Errorf("image %d: %s", i, diffBytes(d, res))
			}
			x, y := e.Entry, w
			x.Data, y.Data, x.X, x.Y, y.X, y.Y = nil, nil, 0, 0, 0, 0
			if x.String() != y.String() {
				return fmt.Errorf("image %d: the group declares %v, want %v", i, x, y)
			}
			m[Key{it, id, 0}] = append([]byte{}, res...)
			if int(e.ID) > last {
				last = int(e.ID)
			}
		}
		m[gk] = append([]byte{}, g...)
		stored++
		return nil
	}

	for i, op := range h.Ops {
		fail := func(err error) error {
			return fmt.Errorf("operation %d (%s %v %#x): %v", i, op.O, op.K, op.L, err)
		}
		switch op.O {
		case "store":
			var b []byte
			var want []Entry
			if typ == 1 {
				b, want = op.I.build(), op.I.entries()
			} else {
				b, want = op.C.build(), op.C.entries()
			}
			p, err := loadPics(typ, b)
			if err != nil {
				return fail(err)
			}
			if err := store(p, op.K, op.L, want); err != nil {
				return fail(err)
			}
			prev, prevWant = p, want
		case "restore": // the same object is stored again
			if prev == (pics{}) {
				break
			}
			r.Label("same object stored again")
			if err := store(prev, op.K, op.L, prevWant); err != nil {
				return fail(err)
			}
		case "copy":
			g, ok := m[Key{gt, op.K, op.L}]
			if !ok {
				break
			}
			want, ok := expectPics(typ, m, g)
			p, err := getPicsLang(typ, rs, op.K, op.L)
			if ok != (err == nil) {
				return fail(fmt.Errorf("extraction: error %v, want success: %v", err, ok))
			}
			if !ok {
				break
			}
			r.Label("stored from an extracted one")
			if err := store(p, op.K2, op.L2, want); err != nil {
				return fail(err)
			}
		case "del":
			if err := rs.Set(gt.w(), op.K.w(), op.L, nil); err != nil {
				return fail(err)
			}
			delete(m, Key{gt, op.K, op.L})
		case "delimg":
			if err := rs.Set(it.w(), winres.ID(op.ID), op.L, nil); err != nil {
				return fail(err)
			}
			delete(m, Key{it, Ident{ID: op.ID}, op.L})
		case "set":
			if err := rs.Set(it.w(), winres.ID(op.ID), op.L, op.D.bytes()); err != nil {
				return fail(err)
			}
			if _, ok := m.imageOf(it, op.ID); ok && op.L != 0 {
				shared = true
				r.Label("image translated")
			}
			m[Key{it, Ident{ID: op.ID}, op.L}] = op.D.bytes()
			if int(op.ID) > last {
				last = int(op.ID)
			}
		case "raw":
			k := Key{Ident{ID: 10}, op.K, op.L}
			if err := rs.Set(k.T.w(), k.R.w(), k.L, op.D.bytes()); err != nil {
				return fail(err)
			}
			m[k] = op.D.bytes()
		case "exe", "single":
			var b bytes.Buffer
			if err := rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil))); err != nil {
				return fail(err)
			}
			var err error
			if op.O == "exe" {
				rs, err = winres.LoadFromEXE(bytes.NewReader(b.Bytes()))
			} else {
				rs, err = winres.LoadFromEXESingleType(bytes.NewReader(b.Bytes()), gt.w())
				for k := range m {
					if k.T != gt && k.T != it {
						delete(m, k)
					}
				}
			}
			if err != nil {
				return fail(err)
			}
			// Groups whose images are missing would now get those of the next icons: leave them out.
			for k, g := range m {
				if k.T != gt {
					continue
				}
				if _, ok := expectPics(typ, m, g); !ok {
					delete(m, k)
					rs.Set(k.T.w(), k.R.w(), k.L, nil)
				}
			}
			last = 0
			for k := range m {
				if k.T == it && int(k.R.ID) > last {
					last = int(k.R.ID)
				}
			}
			r.Label("went through an executable")
		}

		// Everything in the set is as expected
		if err := sameItems(walkItems(rs), m.items()); err != nil {
			return fail(err)
		}
		// and so is every group
		lowest := map[Ident]int{}
		for k := range m {
			if k.T == gt {
				if l, ok := lowest[k.R]; !ok || int(k.L) < l {
					lowest[k.R] = int(k.L)
				}
			}
		}
		for _, k := range m.keys() {
			if k.T != gt {
				continue
			}
			want, ok := expectPics(typ, m, m[k])
			check := func(p pics, err error) error {
				if ok != (err == nil) {
					return fmt.Errorf("extracting %v: error %v, want success: %v", k, err, ok)
				}
				if !ok {
					r.Label("image missing")
					return nil
				}
				if err := checkPics(p, want); err != nil {
					return fmt.Errorf("extracting %v: %v", k, err)
				}
				return nil
			}
			if err := check(getPicsLang(typ, rs, k.R, k.L)); err != nil {
				return fail(err)
			}
			if lowest[k.R] == int(k.L) {
				if err := check(getPics(typ, rs, k.R)); err != nil {
					return fail(fmt.Errorf("without a language: %v", err))
				}
			}
		}
		if _, ok := lowest[op.K]; !ok {
			if _, err := getPics(typ, rs, op.K); err == nil {
				return fail(fmt.Errorf("extracted an image that doesn't exist"))
			}
		}
	}
	r.LabelIf(len(m) > 0 && shared, "translated images in the set")
	if stored >= 2 {
		r.NonTrivial()
	}
	return nil
}

// C11

// IconFileCase is an ICO or a CUR file.
type IconFileCase struct {
	I *IcoFile `json:"i,omitempty"`
	C *CurFile `json:"c,omitempty"`
	K Ident    `json:"k"`
	L uint16   `json:"l,omitempty"`
}

func genIconFileCase(typ int) func(t *rapid.T) IconFileCase {
	return func(t *rapid.T) IconFileCase {
		c := IconFileCase{K: genIdent(t, resPool), L: genLang(t)}
		max := rapid.SampledFrom([]int{3, 6, 12, 40}).Draw(t, "max")
		if typ == 1 {
			f := genIcoFile(t, max, 3000)
			c.I = &f
		} else {
			f := genCurFile(t, max, 3000)
			c.C = &f
		}
		return c
	}
}

// enlargeImgs adds many images to a file, or makes some of them large.
func enlargeImgs(t *rapid.T, ic *IcoFile, cu *CurFile) {
	n := 0
	if rapid.Bool().Draw(t, "manyimgs") {
		n = rapid.OneOf(rapid.SampledFrom([]int{255, 256, 257, 511, 1024}), rapid.IntRange(40, 700)).Draw(t, "nmore")
	}
	sizes := []int{}
	for i, k := 0, rapid.IntRange(1, 3).Draw(t, "nlarge"); n == 0 && i < k; i++ {
		sizes = append(sizes, rapid.OneOf(rapid.SampledFrom([]int{65535, 65536, 65537, 270376, 1 << 20}), rapid.IntRange(30000, 300000), rapid.IntRange(300000, 2000000)).Draw(t, "largeimg"))
	}
	at := rapid.IntRange(0, 1000).Draw(t, "at")
	if ic != nil {
		if len(ic.Imgs) == 0 {
			ic.Imgs = append(ic.Imgs, IcoImg{W: 16, H: 16, Planes: 1, Bits: 32})
		}
		for i := 0; i < n; i++ {
			x := ic.Imgs[i%len(ic.Imgs)]
			x.W, x.D = uint8(i*13), Blob{N: 1 + i*7%50, S: uint32(i)}
			ic.Imgs = append(ic.Imgs, x)
		}
		for i, k := range sizes {
			ic.Imgs[(at+i)%len(ic.Imgs)].D.N += k
		}
		return
	}
	if len(cu.Imgs) == 0 {
		cu.Imgs = append(cu.Imgs, CurImg{W: 16, H: 16, Hdr: 40, Planes: 1, Bits: 32})
	}
	for i := 0; i < n; i++ {
		x := cu.Imgs[i%len(cu.Imgs)]
		x.W, x.X, x.Y = uint8(i*13), uint16(i), uint16(i*251)
		if x.Hdr != 0 {
			x.D = Blob{N: 1 + i*7%50, S: uint32(i)}
		}
		cu.Imgs = append(cu.Imgs, x)
	}
	for i, k := range sizes {
		cu.Imgs[(at+i)%len(cu.Imgs)].D.N += k
	}
}

func genLargeIconFile(typ int) func(t *rapid.T) IconFileCase {
	return func(t *rapid.T) IconFileCase {
		c := genIconFileCase(typ)(t)
		enlargeImgs(t, c.I, c.C)
		return c
	}
}

// genLargeImgHistory draws histories with large images, groups of many images or many groups.
func genLargeImgHistory(typ int) func(t *rapid.T) ImgHistory {
	return func(t *rapid.T) ImgHistory {
		h := genImgHistory(typ)(t)
		file := func() (*IcoFile, *CurFile) {
			if typ == 1 {
				f := genIcoFile(t, 4, 60)
				return &f, nil
			}
			f := genCurFile(t, 4, 60)
			return nil, &f
		}
		if rapid.IntRange(0, 2).Draw(t, "manygroups") == 0 {
			ic, cu := file()
			n := rapid.OneOf(rapid.SampledFrom([]int{255, 256, 257}), rapid.IntRange(50, 400)).Draw(t, "ngroups")
			var more []ImgOp
			for i := 0; i < n; i++ {
				more = append(more, ImgOp{O: "store", K: Ident{ID: uint16(i + 3)}, L: uint16(i % 5), I: ic, C: cu})
			}
			h.Ops = append(more, h.Ops...)
			return h
		}
		at := rapid.IntRange(0, len(h.Ops)).Draw(t, "where")
		op := ImgOp{O: "store", K: Ident{ID: 1}, L: 0x409}
		op.I, op.C = file()
		enlargeImgs(t, op.I, op.C)
		h.Ops = append(h.Ops[:at:at], append([]ImgOp{op}, h.Ops[at:]...)...)
		return h
	}
}

func runIconFile(c IconFileCase, r *Rec) error {
	typ, n := 1, 0
	var file []byte
	var want []Entry
	var lay FileLayout
	if c.I != nil {
		file, want, lay, n = c.I.build(), c.I.entries(), c.I.Lay, len(c.I.Imgs)
	} else {
		typ = 2
		file, want, lay, n = c.C.build(), c.C.entries(), c.C.Lay, len(c.C.Imgs)
	}
	sorted := true
	for i := 1; i < n; i++ {
		if c.I != nil && c.I.Imgs[i-1].W != c.I.Imgs[i].W || c.C != nil && c.C.Imgs[i-1].W != c.C.Imgs[i].W {
			sorted = false
		}
	}
	r.LabelIf(len(lay.Order) > 0, "data in another order")
	r.LabelIf(lay.Share, "shared data")
	r.LabelIf(n == 0, "no image")
	if n > 1 && !sorted {
		r.NonTrivial()
	}
	original := append([]byte{}, file...)
	p, err := loadPics(typ, file)
	if err != nil {
		return fmt.Errorf("loading a valid file: %v", err)
	}
	if !bytes.Equal(file, original) {
		return fmt.Errorf("the source was modified")
	}
	saved, err := p.bytes()
	if err != nil {
		return fmt.Errorf("saving: %v", err)
	}
	got, err := parseIconFile(typ, saved)
	if err != nil {
		return fmt.Errorf("saved file: %v", err)
	}
	if err := sameEntries(got, want); err != nil {
		return fmt.Errorf("saved file: %v", err)
	}
	again := func(what string, p pics) error {
		b, err := p.bytes()
		if err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		if !bytes.Equal(b, saved) {
			return fmt.Errorf("%s: the file differs: %s", what, diffBytes(b, saved))
		}
		return nil
	}
	if err := again("saving again", p); err != nil {
		return err
	}
	q, err := loadPics(typ, saved)
	if err != nil {
		return fmt.Errorf("loading a saved file: %v", err)
	}
	if err := again("loading and saving a saved file", q); err != nil {
		return err
	}
	// Through a set, stored before being saved
	for i, src := range [][]byte{file, saved} {
		p, err := loadPics(typ, src)
		if err != nil {
			return err
		}
		rs := &winres.ResourceSet{}
		if err := p.store(rs, c.K, c.L); err != nil {
			return fmt.Errorf("storing: %v", err)
		}
		if err := again("after being stored", p); err != nil {
			return err
		}
		gt, _ := groupTypes(typ)
		g, err := parseGroup(typ, rs.Get(gt.w(), c.K.w(), c.L))
		if err != nil {
			return err
		}
		if len(g) != len(want) {
			return fmt.Errorf("the group has %d images, want %d", len(g), len(want))
		}
		for i, e := range g {
			if e.W != want[i].W || e.H != want[i].H {
				return fmt.Errorf("image %d is %dx%d in the group, want %dx%d", i, e.W, e.H, want[i].W, want[i].H)
			}
		}
		q, err := getPics(typ, rs, c.K)
		if err != nil {
			return fmt.Errorf("extracting: %v", err)
		}
		if err := again(fmt.Sprintf("going through a set (%d)", i), q); err != nil {
			return err
		}
		if q, err = getPicsLang(typ, rs, c.K, c.L); err != nil {
			return fmt.Errorf("extracting: %v", err)
		}
		if err := again("going through a set, with a language", q); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	reg("C10", "history", "at least two icons are stored", 24000, 500000, genImgHistory(1), runImgHistory)
	reg("C12", "history", "at least two cursors are stored", 24000, 500000, genImgHistory(2), runImgHistory)
	reg("C10", "large", "at least two icons are stored", 16, 5000, genLargeImgHistory(1), runImgHistory)
	reg("C12", "large", "at least two cursors are stored", 16, 5000, genLargeImgHistory(2), runImgHistory)
	reg("C11", "large-ico", "at least two images of different sizes", 200, 8000, genLargeIconFile(1), runIconFile)
	reg("C11", "large-cur", "at least two images of different sizes", 200, 8000, genLargeIconFile(2), runIconFile)
	reg("C11", "ico", "at least two images of different sizes", 24000, 500000, genIconFileCase(1), runIconFile)
	reg("C11", "cur", "at least two images of different sizes", 24000, 500000, genIconFileCase(2), runIconFile)
}
