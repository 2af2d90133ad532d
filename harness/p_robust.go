package main

// C20: malformed executables.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// Mut is a mutation of a byte string.
type Mut struct {
	Where string `json:"w"`            // which kind of location
	I     int    `json:"i,omitempty"`  // index (section, directory)
	Off   int    `json:"o,omitempty"`  // offset or field number
	Size  int    `json:"sz,omitempty"` // bytes written
	Op    int    `json:"op,omitempty"` // 0: set, 1: add, 2: xor, 3: set to a size of interest plus V
	V     uint32 `json:"v"`
}

var interesting = []uint32{0, 1, 2, 3, 7, 0x10, 0x28, 0x7F, 0x80, 0xFF, 0x100, 0x1FF, 0x200, 0x400, 0x1000, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0x10000, 0x10001,
	0x1000000, 0x7FFFFFFF, 0x80000000, 0x80000010, 0xFFFFF000, 0xFFFFFE00, 0xFFFFFFFE, 0xFFFFFFFF}

func genVal(t *rapid.T) (op int, v uint32) {
	switch rapid.IntRange(0, 5).Draw(t, "valclass") {
	case 0, 1:
		return 0, rapid.SampledFrom(interesting).Draw(t, "val")
	case 2:
		return 1, uint32(rapid.IntRange(-64, 64).Draw(t, "delta"))
	case 3:
		return 2, 1 << uint(rapid.IntRange(0, 31).Draw(t, "bit"))
	case 4:
		return 3, uint32(rapid.IntRange(-32, 16).Draw(t, "around"))
	default:
		return 0, rapid.Uint32().Draw(t, "val")
	}
}

// apply writes a value at off; base is the size of interest.
func (m Mut) apply(b []byte, off, base int) {
	size := m.Size
	if size != 1 && size != 2 {
		size = 4
	}
	if off < 0 || off+size > len(b) {
		return
	}
	var old uint32
	for i := 0; i < size; i++ {
		old |= uint32(b[off+i]) << (8 * i)
	}
	v := m.V
	switch m.Op {
	case 1:
		v = old + m.V
	case 2:
		v = old ^ m.V
	case 3:
		v = uint32(base) + m.V
	}
	for i := 0; i < size; i++ {
		b[off+i] = byte(v >> (8 * i))
	}
}

// cutting applies mutations of any byte string: bytes, truncation, removal, insertion.
func (m Mut) cutting(b []byte) []byte {
	at := 0
	if len(b) > 0 {
		at = m.Off % (len(b) + 1)
	}
	switch m.Where {
	case "byte":
		m.apply(b, at, len(b))
	case "trunc":
		return b[:at]
	case "cut":
		end := at + int(m.V%64) + 1
		if end > len(b) {
			end = len(b)
		}
		return append(b[:at:at], b[end:]...)
	case "ins":
		n := int(m.V % 64)
		return append(append(b[:at:at], make([]byte, n)...), b[at:]...)
	}
	return b
}

func genCut(t *rapid.T, span int) Mut {
	m := Mut{Where: rapid.SampledFrom([]string{"byte", "byte", "byte", "trunc", "cut", "ins"}).Draw(t, "where"), Off: rapid.IntRange(0, span).Draw(t, "off")}
	m.Size = rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "size")
	m.Op, m.V = genVal(t)
	return m
}

// BadPE is an image with mutations.
type BadPE struct {
	PE   *PESpec   `json:"pe,omitempty"`
	Muts []Mut     `json:"muts"`
	Raw  []byte    `json:"raw,omitempty"` // instead of PE
	Bomb []int     `json:"bomb,omitempty"`
	Res  []Res     `json:"res"`
	Type Ident     `json:"type"`
	Opts PatchOpts `json:"opts"`
}

// hdrFields are offsets from the PE signature (or from the start of the file for the first one) and sizes.
var hdrFields = [][2]int{{0x3C, 4}, {4, 2}, {6, 2}, {12, 4}, {16, 4}, {20, 2}, {24, 2}, {24 + 32, 4}, {24 + 36, 4}, {24 + 56, 4}, {24 + 60, 4}, {24 + 64, 4}, {24 + 8, 4}, {24 + 92, 4}, {24 + 108, 4}}
var secFields = []int{8, 12, 16, 20, 36}

func (c BadPE) build() []byte {
	if c.PE == nil {
		return append([]byte{}, c.Raw...)
	}
	var b []byte
	if len(c.Bomb) == 5 {
		b = c.bomb()
	} else {
		b = c.PE.build()
	}
	v, err := parsePE(b)
	if err != nil {
		return b
	}
	ri := v.rsrcIndex()
	for _, m := range c.Muts {
		switch m.Where {
		case "hdr":
			f := hdrFields[m.I%len(hdrFields)]
			off := v.peOff + f[0]
			if m.I%len(hdrFields) == 0 {
				off = f[0]
			}
			m.Size = f[1]
			m.apply(b, off, len(b))
		case "dir":
			m.Size = 4
			m.apply(b, v.optStart+len(v.opt)+8*(m.I%8)+4*(m.Off%2), len(b))
		case "sec":
			m.Size = 4
			base := len(b)
			s := v.secs[m.I%len(v.secs)]
			if m.Off%len(secFields) == 2 {
				base = len(b) - s.ptr
			}
			m.apply(b, v.optStart+len(v.opt)+8*len(v.dirs)+40*(m.I%len(v.secs))+secFields[m.Off%len(secFields)], base)
		case "magic": // one of the bytes that identify a PE image
			off := [...]int{0, 1, v.peOff, v.peOff + 1, v.peOff + 2, v.peOff + 3, v.optStart, v.optStart + 1}[m.I%8]
			m.Size = 1
			m.apply(b, off, len(b))
		case "secdup": // makes two sections agree on an address, a file pointer or a size
			if len(v.secs) > 1 {
				h := v.optStart + len(v.opt) + 8*len(v.dirs)
				f := secFields[m.Off%4]
				i, j := m.I%len(v.secs), int(m.V)%len(v.secs)
				if h+40*len(v.secs) <= len(b) {
					copy(b[h+40*i+f:h+40*i+f+4], b[h+40*j+f:h+40*j+f+4])
				}
			}
		case "node": // a field of the tree
			if ri >= 0 && v.secs[ri].ptr < len(b) {
				mutateNode(b[v.secs[ri].ptr:min(len(b), v.secs[ri].ptr+v.secs[ri].size)], v.secs[ri].va, m)
			}
		case "tree":
			if ri >= 0 && v.secs[ri].ptr < len(b) {
				base := v.secs[ri].size
				if m.I%2 == 1 {
					base += v.secs[ri].va
				}
				n := base
				if len(b)-v.secs[ri].ptr < n {
					n = len(b) - v.secs[ri].ptr
				}
				if n > 8 {
					m.apply(b[v.secs[ri].ptr:], m.Off%n&^1, base)
				}
			}
		default:
			b = m.cutting(b)
		}
	}
	return b
}

// treeField is a field of a resource directory.
type treeField struct {
	kind, off, size int // kinds: number of names, of IDs, identifier, offset of a subdirectory, of a data entry, address, size, name length
}

const treeKinds = 8

// treeFields finds the fields of a directory, as far as it makes sense.
func treeFields(sec []byte) []treeField {
	var out []treeField
	seen := map[int]bool{}
	var walk func(at, level int)
	walk = func(at, level int) {
		if at+16 > len(sec) || seen[at] || len(out) > 5000 {
			return
		}
		seen[at] = true
		out = append(out, treeField{0, at + 12, 2}, treeField{1, at + 14, 2})
		n := int(le.Uint16(sec[at+12:])) + int(le.Uint16(sec[at+14:]))
		for i := 0; i < n && at+24+8*i <= len(sec); i++ {
			e := at + 16 + 8*i
			id, off := le.Uint32(sec[e:]), le.Uint32(sec[e+4:])
			out = append(out, treeField{2, e, 4})
			if name := int(id &^ 0x80000000); id&0x80000000 != 0 && name+2 <= len(sec) {
				out = append(out, treeField{7, name, 2})
			}
			if level < 2 {
				out = append(out, treeField{3, e + 4, 4})
				walk(int(off&^0x80000000), level+1)
				continue
			}
			out = append(out, treeField{4, e + 4, 4})
			if d := int(off &^ 0x80000000); d+16 <= len(sec) {
				out = append(out, treeField{5, d, 4}, treeField{6, d + 4, 4})
			}
		}
	}
	walk(0, 0)
	return out
}

// mutateNode changes a field of the kind I among those that the tree has; Off chooses which.
func mutateNode(sec []byte, va int, m Mut) {
	var of []treeField
	for _, f := range treeFields(sec) {
		if f.kind == m.I%treeKinds {
			of = append(of, f)
		}
	}
	if len(of) == 0 {
		return
	}
	f := of[m.Off%len(of)]
	m.Size = f.size
	base := len(sec)
	switch f.kind {
	case 5:
		base += va
	case 6: // what remains in the section, or what makes the end wrap around
		at := int(le.Uint32(sec[f.off-4:])) - va
		base -= at
		if m.Op == 3 && m.V&1 != 0 {
			base = -at
		}
	case 7:
		base = (len(sec) - f.off - 2) / 2
	}
	m.apply(sec, f.off, base)
}

// genNodeMut makes a mutation of a field of the tree.
func genNodeMut(t *rapid.T) Mut {
	m := Mut{Where: "node", I: rapid.IntRange(0, treeKinds-1).Draw(t, "kind"), Off: rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 60)).Draw(t, "which")}
	m.Op, m.V = genVal(t)
	return m
}

// genBadTree mutates the resource directory of a sound image.
func genBadTree(t *rapid.T) BadPE {
	c := BadPE{PE: genPE(t, peGenOpts{small: true})}
	if len(c.PE.Rsrc) == 0 && hasRole(c.PE, "rsrc") >= 0 {
		c.PE.Rsrc = genResources(t, 5, 100)
	}
	for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nmut"); i < n; i++ {
		c.Muts = append(c.Muts, genNodeMut(t))
	}
	c.Type = genIdent(t, typePool)
	if len(c.PE.Rsrc) > 0 && rapid.Bool().Draw(t, "typethere") {
		c.Type = c.PE.Rsrc[0].T
	}
	c.Opts = genPatchOpts(t)
	return c
}

// bomb replaces the tree with directories that share subdirectories, names and data.
func (c BadPE) bomb() []byte {
	nt, nr, nl, nd, nn := c.Bomb[0], c.Bomb[1], c.Bomb[2], c.Bomb[3], c.Bomb[4]
	s := *c.PE
	s.Layout = TreeLayout{}
	dirs := 3*16 + 8*(nt+nr+nl)
	name := dirs + 16
	data := name + 2 + 2*nn
	tree := make([]byte, data+nd)
	dir := func(at, n int, next func(i int) uint32, id func(i int) uint32, names bool) {
		if names {
			le.PutUint16(tree[at+12:], uint16(n))
		} else {
			le.PutUint16(tree[at+14:], uint16(n))
		}
		for i := 0; i < n; i++ {
			le.PutUint32(tree[at+16+8*i:], id(i))
			le.PutUint32(tree[at+20+8*i:], next(i))
		}
	}
	at2 := 16 + 8*nt
	at3 := at2 + 16 + 8*nr
	num := func(i int) uint32 { return uint32(i + 1) }
	dir(0, nt, func(int) uint32 { return uint32(at2) | 0x80000000 }, num, false)
	if nn > 0 {
		dir(at2, nr, func(int) uint32 { return uint32(at3) | 0x80000000 }, func(int) uint32 { return uint32(name) | 0x80000000 }, true)
	} else {
		dir(at2, nr, func(int) uint32 { return uint32(at3) | 0x80000000 }, num, false)
	}
	dir(at3, nl, func(int) uint32 { return uint32(dirs) }, num, false)
	le.PutUint32(tree[dirs+4:], uint32(nd))
	le.PutUint16(tree[name:], uint16(nn))
	for i := 0; i < nn; i++ {
		le.PutUint16(tree[name+2+2*i:], 'n')
	}
	// carry it as the resource section of a plain image
	s.Secs = []SecSpec{{Name: ".text", Raw: Blob{N: 32}, Flags: 0x60000020}, {Name: ".rsrc", Role: "rsrc", Flags: 0x40000040}}
	s.Rsrc = nil
	s.RawOrder, s.Dirs, s.RsrcRDiff, s.RsrcVDiff = nil, nil, len(tree), len(tree)
	s.Unaligned, s.Sym, s.SigSize, s.RsrcDirSz = false, 0, 0, 0
	b := s.build()
	v, err := parsePE(b)
	if err != nil || v.rsrcIndex() < 0 {
		return b
	}
	sec := v.secs[v.rsrcIndex()]
	le.PutUint32(tree[dirs:], uint32(sec.va+data))
	copy(b[sec.ptr:sec.ptr+sec.size], tree)
	return b
}

func genBadPE(t *rapid.T) BadPE {
	var c BadPE
	switch rapid.IntRange(0, 19).Draw(t, "class") {
	case 0:
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 300).Draw(t, "raw")
		if rapid.Bool().Draw(t, "mz") {
			c.Raw = append([]byte("MZ"), c.Raw...)
		}
	default:
		c.PE = genPE(t, peGenOpts{allowSig: true, small: true})
		if rapid.IntRange(0, 9).Draw(t, "optpad") == 0 {
			c.PE.OptPad = rapid.SampledFrom([]int{1, 4, 8, 8, 16, 40, 80, 640}).Draw(t, "optpadn")
		}
		if rapid.IntRange(0, 9).Draw(t, "bomb") == 0 {
			for i, max := range []int{300, 300, 300, 40000, 9000} {
				n := rapid.IntRange(0, max).Draw(t, "bombn")
				if i == 4 && rapid.Bool().Draw(t, "nonames") {
					n = 0
				}
				c.Bomb = append(c.Bomb, n)
			}
			if rapid.IntRange(0, 9).Draw(t, "emptybomb") == 0 {
				// no languages
				n := rapid.IntRange(500, 2500).Draw(t, "bombn")
				c.Bomb = []int{n, n, 0, 0, 0}
			}
		}
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nmut"); i < n; i++ {
			m := Mut{Where: rapid.SampledFrom([]string{"hdr", "dir", "sec", "sec", "secdup", "tree", "tree", "node", "node", "cut", "magic"}).Draw(t, "where")}
			if m.Where == "cut" {
				m = genCut(t, 6000)
			} else {
				m.I = rapid.IntRange(0, 15).Draw(t, "idx")
				m.Off = rapid.OneOf(rapid.IntRange(0, 15), rapid.IntRange(0, 200), rapid.IntRange(0, 3000)).Draw(t, "off")
				m.Size = rapid.SampledFrom([]int{4, 4, 2}).Draw(t, "size")
				m.Op, m.V = genVal(t)
			}
			c.Muts = append(c.Muts, m)
		}
	}
	c.Res = genResources(t, 2, 3000)
	c.Type = genIdent(t, typePool)
	if c.PE != nil && len(c.PE.Rsrc) > 0 && rapid.Bool().Draw(t, "typethere") {
		c.Type = c.PE.Rsrc[0].T
	}
	c.Opts = genPatchOpts(t)
	return c
}

// guardedSrc is a source that can be written, which nobody should do.
type guardedSrc struct {
	*bytes.Reader
	writes int
}

func (g *guardedSrc) Write(p []byte) (int, error)               { g.writes++; return len(p), nil }
func (g *guardedSrc) WriteAt(p []byte, _ int64) (int, error)    { g.writes++; return len(p), nil }
func (g *guardedSrc) Truncate(int64) error                      { g.writes++; return nil }
func (g *guardedSrc) ReadFrom(r io.Reader) (n int64, err error) { g.writes++; return 0, nil }

var errTooMuch = errors.New("output limit of the harness")

// limitedDst fails when too much is written.
type limitedDst struct {
	bytes.Buffer
	max int
	hit bool
}

func (l *limitedDst) Write(p []byte) (int, error) {
	if l.Len()+len(p) > l.max {
		l.hit = true
		return 0, errTooMuch
	}
	return l.Buffer.Write(p)
}

// ReadFrom hides the one of bytes.Buffer.
func (l *limitedDst) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{l}, r)
}

// looseTree reads the resources of an image like any reader could: 1 ok, 0 malformed, -1 unspecified.
func looseTree(b []byte) (int, *Tree) {
	v, err := parsePE(b)
	if err != nil || len(v.dirs) <= dirResource {
		return -1, nil
	}
	d := v.dirs[dirResource]
	if d[0] == 0 {
		return -1, nil
	}
	i := v.rsrcIndex()
	if i < 0 {
		return 0, nil
	}
	for j := range v.secs {
		if j != i && uint32(v.secs[j].va) == d[0] {
			return -1, nil
		}
	}
	s := v.secs[i]
	if !s.inFile() {
		return -1, nil
	}
	n := 0
	tr, err := parseTree(s.data, treeOpts{addr: func(_ int, rva uint32) (int, error) {
		if n++; n > len(s.data)/8 {
			return 0, errTooMuch
		}
		return int(rva) - s.va, nil
	}})
	if err == errTooMuch {
		return 0, nil
	}
	if err != nil {
		return 0, nil
	}
	seen := map[Key]bool{}
	for _, it := range tr.Items {
		if seen[it.Key] {
			return -1, nil
		}
		seen[it.Key] = true
	}
	return 1, tr
}

// notPE tells why bytes are not a PE image, from its signatures and what its headers need.
func notPE(b []byte) string {
	if len(b) < 0x40 || string(b[:2]) != "MZ" {
		return "no DOS header"
	}
	p := int(le.Uint32(b[0x3C:]))
	if p+24 > len(b) || string(b[p:p+4]) != "PE\x00\x00" {
		return "no PE signature"
	}
	n, opt := int(le.Uint16(b[p+6:])), int(le.Uint16(b[p+20:]))
	if p+24+opt+40*n > len(b) {
		return "headers exceed the file"
	}
	if opt < 96 {
		return "the optional header is too short"
	}
	if m := le.Uint16(b[p+24:]); m != 0x10B && m != 0x20B {
		return "neither PE32 nor PE32+"
	}
	return ""
}

// runBadPE decides what operations do with a malformed image, and that they agree.
func runBadPE(c BadPE, r *Rec) error {
	b := c.build()
	orig := append([]byte{}, b...)
	if len(c.Muts) > 0 || len(c.Bomb) > 0 {
		r.NonTrivial()
	}
	src := &guardedSrc{Reader: bytes.NewReader(b)}

	// Query
	signed, serr := winres.IsSignedEXE(src)
	if serr != nil && signed {
		return fmt.Errorf("IsSignedEXE returned true with error %v", serr)
	}

	why := notPE(orig)
	if why != "" {
		r.Label("not an image")
		if serr == nil {
			return fmt.Errorf("IsSignedEXE accepts what is not an image: %s", why)
		}
	}

	// Load
	var (
		rs   *winres.ResourceSet
		lerr error
	)
	alloc := allocDelta(func() { rs, lerr = winres.LoadFromEXE(src) })
	if max := uint64(8<<20 + 1000*len(b)); alloc > max {
		return fmt.Errorf("loading %d bytes allocated %d bytes, more than %d", len(b), alloc, max)
	}
	var items []Item
	if why != "" && lerr == nil {
		return fmt.Errorf("LoadFromEXE accepts what is not an image: %s", why)
	}
	if lerr == nil {
		r.Label("loads")
		if rs == nil {
			return fmt.Errorf("LoadFromEXE returned nil without error")
		}
		items = walkItems(rs)
		if len(items) != rs.Count() {
			return fmt.Errorf("Count is %d, walk gives %d", rs.Count(), len(items))
		}
	} else {
		r.Label("refused by load")
		if lerr != winres.ErrNoResources && rs != nil {
			return fmt.Errorf("LoadFromEXE returned a set with error %v", lerr)
		}
		if lerr == winres.ErrNoResources && (rs == nil || rs.Count() != 0) {
			return fmt.Errorf("LoadFromEXE should return an empty set with %v", lerr)
		}
	}
	switch kind, tr := looseTree(orig); {
	case kind == 0 && lerr == nil:
		return fmt.Errorf("the resource tree is malformed, but it was loaded (%d resources)", len(items))
	case kind == 1 && lerr == nil:
		r.Label("loads, compared")
		m := Model{}
		for _, it := range tr.Items {
			m[it.Key] = it.D
		}
		if err := sameItems(items, m.items()); err != nil {
			return fmt.Errorf("loaded altered resources: %v", err)
		}
	}

	// Load one type
	alloc = allocDelta(func() { rs, lerr = winres.LoadFromEXESingleType(src, c.Type.w()) })
	if max := uint64(8<<20 + 1000*len(b)); alloc > max {
		return fmt.Errorf("loading type %v from %d bytes allocated %d bytes, more than %d", c.Type, len(b), alloc, max)
	}
	if why != "" && lerr == nil {
		return fmt.Errorf("LoadFromEXESingleType accepts what is not an image: %s", why)
	}
	if lerr == nil {
		one := walkItems(rs)
		for _, it := range one {
			if it.T != c.Type && !(c.Type.ID == 14 && it.T == Ident{ID: 3}) && !(c.Type.ID == 12 && it.T == Ident{ID: 1}) {
				return fmt.Errorf("loading type %v gave %v", c.Type, it.Key)
			}
		}
	}

	// Patch
	set, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	m := modelOf(c.Res)
	in, _ := parsePE(orig)
	limit := 2*len(b) + treeSize(m) + 0x40000
	dst := &limitedDst{max: limit}
	var perr error
	alloc = allocDelta(func() { perr = c.Opts.patch(set, dst, src) })
	if dst.hit {
		return fmt.Errorf("patching %d bytes with %d bytes of resources wrote more than %d bytes", len(b), treeSize(m), limit)
	}
	if max := uint64(8<<20 + 100*limit); alloc > max {
		return fmt.Errorf("patching %d bytes allocated %d bytes, more than %d", len(b), alloc, max)
	}
	if src.writes > 0 || !bytes.Equal(b, orig) {
		return fmt.Errorf("the source was written to")
	}
	if perr != nil {
		r.Label("refused by patch")
		if dst.Len() > 0 {
			return fmt.Errorf("patching failed (%v) after writing %d bytes", perr, dst.Len())
		}
		return nil
	}
	r.Label("patched")
	if why != "" {
		return fmt.Errorf("WriteToEXE accepts what is not an image: %s", why)
	}
	if in == nil {
		if _, err := parsePE(orig); err != nil && strings.Contains(err.Error(), "exceeds the file") {
			return fmt.Errorf("patched a truncated image: %v", err)
		}
	}
	if serr != nil {
		return fmt.Errorf("patched although IsSignedEXE fails: %v", serr)
	}
	if signed && c.Opts.Auth != 1 && c.Opts.Auth != 2 {
		return fmt.Errorf("patched although it is signed")
	}
	if in == nil || in.sectAlign() == 0 || !in.regular() {
		return nil
	}
	r.Label("patched, regular sections")
	rs, err = winres.LoadFromEXE(bytes.NewReader(dst.Bytes()))
	if err != nil {
		return fmt.Errorf("patching was accepted, but the result can't be loaded: %v", err)
	}
	if err := sameItems(walkItems(rs), m.items()); err != nil {
		return fmt.Errorf("patching was accepted, but the result doesn't hold the set: %v", err)
	}
	return nil
}

func init() {
	reg("C20", "tree", "at least one mutation was applied", 20000, 2000000, genBadTree, runBadPE)
	reg("C20", "mutated", "at least one mutation was applied", 20000, 2000000, genBadPE, runBadPE)
}
