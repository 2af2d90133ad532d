package main

// Independent PE image builder and reader.

import (
	"bytes"
	"fmt"
	"sort"

	"pgregory.net/rapid"
)

const (
	dirExport, dirImport, dirResource, dirException, dirSecurity, dirReloc, dirGlobalPtr, dirBound = 0, 1, 2, 3, 4, 5, 8, 11

	scnInit   = 0x40
	scnUninit = 0x80
)

// SecSpec describes a section of a generated image.
type SecSpec struct {
	Name  string `json:"name"`
	Role  string `json:"role,omitempty"` // rsrc, reloc, bss, empty or nothing
	Raw   Blob   `json:"raw"`
	VAdd  int    `json:"vadd,omitempty"` // virtual size minus length of content
	Gap   int    `json:"gap,omitempty"`  // pages skipped before the section
	Ptr   uint32 `json:"ptr,omitempty"`  // raw pointer of a bss section
	RawSz uint32 `json:"rsz,omitempty"`  // raw size of a bss section
	V0    bool   `json:"v0,omitempty"`   // the virtual size is left to zero, which means the raw size
	Unal  bool   `json:"unal,omitempty"` // the raw size is not rounded
	Flags uint32 `json:"flags"`
}

// DirSpec is a data directory designating a range of a section.
type DirSpec struct {
	Index int `json:"i"`
	Sec   int `json:"sec"`
	Off   int `json:"off"`
	Size  int `json:"size"`
}

// PESpec describes a well-formed image.
type PESpec struct {
	Plus      bool       `json:"plus,omitempty"`
	Stub      Blob       `json:"stub"`          // content of the stub after the e_lfanew field, minimum length
	Room      int        `json:"room"`          // exact room after section headers, or -1
	HdrGap    int        `json:"gap,omitempty"` // additional file alignment units before the first section
	TightSoH  bool       `json:"soh,omitempty"` // SizeOfHeaders does not include the gap
	Opt       Blob       `json:"opt"`           // filler for optional header fields
	NumDirs   int        `json:"ndirs"`
	FileAlign int        `json:"fa"`
	SectAlign int        `json:"sa"`
	Secs      []SecSpec  `json:"secs"`
	RawOrder  []int      `json:"raworder,omitempty"` // sort keys of sections in the file, if not address order
	Unaligned bool       `json:"unal,omitempty"`     // the last section's raw size is not rounded
	Dirs      []DirSpec  `json:"dirs,omitempty"`
	Rsrc      []Res      `json:"rsrc,omitempty"`
	Layout    TreeLayout `json:"layout"`
	RsrcVDiff int        `json:"rsrcv,omitempty"` // added to the virtual size of the resource section
	RsrcRDiff int        `json:"rsrcr,omitempty"` // bytes of slack at the end of the resource section
	RsrcDirSz int        `json:"rsrcdirsz,omitempty"`
	Overlay   Blob       `json:"ovl"`
	Sym       int        `json:"sym,omitempty"`      // number of COFF symbols, -1: only strings
	SymAt     int        `json:"symat,omitempty"`    // offset in the overlay; -1: in the last section
	SigSize   int        `json:"sig,omitempty"`      // size of the signature
	SigTail   int        `json:"sigtail,omitempty"`  // bytes after the signature
	SigOver   int        `json:"sigover,omitempty"`  // bytes of the signature that are missing at the end of the file
	OptPad    int        `json:"optpad,omitempty"`   // bytes after the data directories in the optional header
	SigIn     int        `json:"sigin,omitempty"`    // the certificate directory designates this much of the end of sections, and what follows
	SigEmpty  bool       `json:"sigempty,omitempty"` // the certificate directory has an offset but no size
	HdrOrder  []int      `json:"hdrorder,omitempty"` // sort keys of section headers, if not address order
	CheckSum  int        `json:"sum,omitempty"`      // 0: zero, 1: correct, 2: wrong
	FHdr      Blob       `json:"fhdr"`
	HdrFill   Blob       `json:"hdrfill"`          // content of the room after section headers, if its size is not null
	HdrDir    int        `json:"hdrdir,omitempty"` // index of a directory that designates a part of this room, usually bound imports
	HdrDirOff int        `json:"hdrdiroff,omitempty"`
	HdrDirSz  int        `json:"hdrdirsz,omitempty"`
}

func roundUp(n, a int) int { return (n + a - 1) / a * a }

func hasRole(s *PESpec, role string) int {
	for i := range s.Secs {
		if s.Secs[i].Role == role {
			return i
		}
	}
	return -1
}

// build produces the image.
func (s *PESpec) build() []byte {
	n := len(s.Secs)
	optSize := 96
	if s.Plus {
		optSize = 112
	}
	optSize += 8*s.NumDirs + s.OptPad
	stubLen := 0x40 + s.Stub.N
	hdrLen := func() int { return stubLen + 4 + 20 + optSize + 40*n }
	if s.Room >= 0 {
		for (hdrLen()+s.Room)%s.FileAlign != 0 {
			stubLen++
		}
	}
	room := s.Room
	if room < 0 {
		room = 0
	}
	soh := roundUp(hdrLen(), s.FileAlign)
	firstRaw := roundUp(hdrLen()+room, s.FileAlign) + s.HdrGap*s.FileAlign
	if !s.TightSoH {
		soh = firstRaw
	}

	type sec struct {
		va, vs, ptr, size int
		data              []byte
	}
	secs := make([]sec, n)
	va := roundUp(firstRaw, s.SectAlign)
	rsrcLen := 0
	for i := range s.Secs {
		sp := &s.Secs[i]
		va += sp.Gap * s.SectAlign
		secs[i].va = va
		switch sp.Role {
		case "bss", "empty":
			secs[i].vs = sp.VAdd
		case "rsrc":
			tree := encodeTree(modelOf(s.Rsrc).items(), uint32(va), s.Layout)
			rsrcLen = len(tree)
			secs[i].data = append(tree, make([]byte, s.RsrcRDiff)...)
			secs[i].vs = len(tree) + s.RsrcVDiff
		default:
			secs[i].data = sp.Raw.bytes()
			secs[i].vs = len(secs[i].data) + sp.VAdd
		}
		if secs[i].vs < 1 {
			secs[i].vs = 1
		}
		if sp.V0 && len(secs[i].data) > 0 {
			secs[i].vs = roundUp(len(secs[i].data), s.FileAlign)
		}
		va += roundUp(secs[i].vs, s.SectAlign)
	}
	sizeOfImage := va

	order := make([]int, n)
	for i := range order {
		order[i] = i
	}
	if len(s.RawOrder) > 0 {
		sort.SliceStable(order, func(a, b int) bool {
			return s.RawOrder[order[a]%len(s.RawOrder)] < s.RawOrder[order[b]%len(s.RawOrder)]
		})
	}
	ptr := firstRaw
	lastRaw := -1
	for _, i := range order {
		if r := s.Secs[i].Role; r == "bss" || r == "empty" {
			continue
		}
		secs[i].ptr = ptr
		secs[i].size = roundUp(len(secs[i].data), s.FileAlign)
		ptr += secs[i].size
		if s.Secs[i].Unal && len(secs[i].data) > 0 {
			secs[i].size = len(secs[i].data)
		}
		lastRaw = i
	}
	if s.Unaligned && lastRaw >= 0 && len(secs[lastRaw].data) > 0 {
		secs[lastRaw].size = len(secs[lastRaw].data)
		ptr = secs[lastRaw].ptr + secs[lastRaw].size
	}
	dataEnd := ptr

	// Overlay
	overlay := s.Overlay.bytes()
	symPtr, nsyms := 0, 0
	if s.Sym != 0 {
		nsyms = max(s.Sym, 0)
		tab := Blob{N: nsyms * 18, K: 4, S: 7}.bytes()
		tab = append(tab, 8, 0, 0, 0, 's', 't', 'r', 0)
		if s.SymAt < 0 && lastRaw >= 0 && s.Secs[lastRaw].Role == "" && len(secs[lastRaw].data) >= len(tab) {
			copy(secs[lastRaw].data, tab)
			symPtr = secs[lastRaw].ptr
		} else {
			at := s.SymAt
			if at < 0 {
				at = 0
			}
			for len(overlay) < at+len(tab) {
				overlay = append(overlay, 0x33)
			}
			copy(overlay[at:], tab)
			symPtr = dataEnd + at
		}
	}
	sigPtr := 0
	if s.SigSize > 0 {
		for (dataEnd+len(overlay))%8 != 0 {
			overlay = append(overlay, 0)
		}
		sigPtr = dataEnd + len(overlay)
		overlay = append(overlay, Blob{N: s.SigSize, K: 2, S: 0x51}.bytes()...)
		overlay = append(overlay, Blob{N: s.SigTail, K: 4, S: 3}.bytes()...)
	}

	out := make([]byte, dataEnd, dataEnd+len(overlay))
	copy(out[0x40:stubLen], Blob{N: stubLen - 0x40, K: s.Stub.K, S: s.Stub.S}.bytes())
	copy(out, Blob{N: 0x3C, K: 4, S: 9}.bytes())
	copy(out, "MZ")
	le.PutUint32(out[0x3C:], uint32(stubLen))
	h := out[stubLen:]
	copy(h, "PE\x00\x00")
	h = h[4:]
	copy(h[:20], Blob{N: 20, K: s.FHdr.K, S: s.FHdr.S}.bytes())
	if s.Plus {
		le.PutUint16(h, 0x8664)
	} else {
		le.PutUint16(h, 0x14C)
	}
	le.PutUint16(h[2:], uint16(n))
	le.PutUint32(h[8:], uint32(symPtr))
	le.PutUint32(h[12:], uint32(nsyms))
	le.PutUint16(h[16:], uint16(optSize))
	o := h[20:]
	copy(o[:optSize-8*s.NumDirs-s.OptPad], Blob{N: optSize - 8*s.NumDirs - s.OptPad, K: s.Opt.K, S: s.Opt.S}.bytes())
	d := o[96:]
	if s.Plus {
		le.PutUint16(o, 0x20B)
		le.PutUint32(o[108:], uint32(s.NumDirs))
		d = o[112:]
	} else {
		le.PutUint16(o, 0x10B)
		le.PutUint32(o[92:], uint32(s.NumDirs))
	}
	initData := 0
	for i := range secs {
		if s.Secs[i].Flags&scnInit != 0 {
			initData += secs[i].size
		}
	}
	le.PutUint32(o[8:], uint32(initData))
	le.PutUint32(o[32:], uint32(s.SectAlign))
	le.PutUint32(o[36:], uint32(s.FileAlign))
	le.PutUint32(o[56:], uint32(sizeOfImage))
	le.PutUint32(o[60:], uint32(soh))
	le.PutUint32(o[64:], 0)
	setDir := func(i, va, size int) {
		le.PutUint32(d[8*i:], uint32(va))
		le.PutUint32(d[8*i+4:], uint32(size))
	}
	for _, ds := range s.Dirs {
		sc := secs[ds.Sec]
		setDir(ds.Index, sc.va+ds.Off, ds.Size)
	}
	for i := range s.Secs {
		switch s.Secs[i].Role {
		case "rsrc":
			sz := rsrcLen
			if s.RsrcDirSz > 0 {
				sz = s.RsrcDirSz
			}
			setDir(dirResource, secs[i].va, sz)
		case "reloc":
			setDir(dirReloc, secs[i].va, secs[i].vs)
		}
	}
	if s.HdrFill.N > 0 {
		copy(out[hdrLen():firstRaw], Blob{N: firstRaw - hdrLen(), K: s.HdrFill.K, S: s.HdrFill.S}.bytes())
	}
	if at := hdrLen() + s.HdrDirOff; s.HdrDir > 0 && s.HdrDir < s.NumDirs && at < firstRaw {
		setDir(s.HdrDir, at, min(s.HdrDirSz, firstRaw-at))
	}
	if sigPtr > 0 {
		setDir(dirSecurity, sigPtr, s.SigSize+s.SigOver)
	} else if s.SigIn > 0 {
		end := firstRaw // of sections, which may precede dataEnd
		for i := range secs {
			end = max(end, secs[i].ptr+secs[i].size)
		}
		in := min(s.SigIn, end-1)
		setDir(dirSecurity, end-in, dataEnd+len(overlay)-end+in)
	} else if s.SigEmpty {
		setDir(dirSecurity, dataEnd+len(overlay), 0)
	}
	hdrPos := make([]int, n) // of each section
	for i := range hdrPos {
		order[i] = i
	}
	if len(s.HdrOrder) > 0 {
		sort.SliceStable(order, func(a, b int) bool {
			return s.HdrOrder[order[a]%len(s.HdrOrder)] < s.HdrOrder[order[b]%len(s.HdrOrder)]
		})
	}
	for pos, i := range order {
		hdrPos[i] = pos
	}
	sh := o[optSize:]
	for i := range secs {
		b := sh[40*hdrPos[i]:]
		copy(b[:8], s.Secs[i].Name)
		if !s.Secs[i].V0 || len(secs[i].data) == 0 {
			le.PutUint32(b[8:], uint32(secs[i].vs))
		}
		le.PutUint32(b[12:], uint32(secs[i].va))
		le.PutUint32(b[16:], uint32(secs[i].size))
		le.PutUint32(b[20:], uint32(secs[i].ptr))
		le.PutUint32(b[36:], s.Secs[i].Flags)
		if s.Secs[i].Role == "bss" {
			le.PutUint32(b[20:], s.Secs[i].Ptr)
			le.PutUint32(b[16:], s.Secs[i].RawSz)
		}
		copy(out[secs[i].ptr:], secs[i].data)
		if secs[i].ptr > 0 {
			// make section padding recognisable
			for j := secs[i].ptr + len(secs[i].data); j < secs[i].ptr+secs[i].size; j++ {
				out[j] = 0xCC
			}
		}
	}
	out = append(out, overlay...)
	switch s.CheckSum {
	case 1:
		le.PutUint32(o[64:], peSum(out, stubLen+4+20+64))
	case 2:
		le.PutUint32(o[64:], 0xDEAD)
	}
	// o aliases out's old array if append reallocated: write again
	copy(out[stubLen+4+20+64:], o[64:68])
	return out
}

// peSum is the PE checksum algorithm: 16-bit one's complement sum of the file with
// the checksum field taken as zero, plus the file length.
func peSum(b []byte, field int) uint32 {
	var sum uint64
	at := func(i int) uint64 {
		if i >= len(b) || (i >= field && i < field+4) {
			return 0
		}
		return uint64(b[i])
	}
	for i := 0; i < len(b); i += 2 {
		sum += at(i) | at(i+1)<<8
	}
	for sum > 0xFFFF {
		sum = sum&0xFFFF + sum>>16
	}
	return uint32(sum) + uint32(len(b))
}

// PEView is a decoded image.
type PEView struct {
	raw      []byte
	peOff    int
	fileHdr  []byte
	opt      []byte // optional header without directories
	plus     bool
	dirs     [][2]uint32
	secs     []SecView
	hdrEnd   int
	optStart int
	optPad   int // bytes of the optional header after the directories
}

// SecView is a section header.
type SecView struct {
	hdr               []byte
	name              string
	vs, va, size, ptr int
	flags             uint32
	data              []byte
}

// memSize is the size in memory: a null virtual size means the raw size.
func (s SecView) memSize() int {
	if s.vs == 0 {
		return s.size
	}
	return s.vs
}

func (s SecView) inFile() bool { return s.flags&scnUninit == 0 && s.size > 0 }

func (v *PEView) u32(off int) int { return int(le.Uint32(v.opt[off:])) }
func (v *PEView) sectAlign() int  { return v.u32(32) }
func (v *PEView) fileAlign() int  { return v.u32(36) }

func parsePE(b []byte) (*PEView, error) {
	v := &PEView{raw: b}
	if len(b) < 0x40 || b[0] != 'M' || b[1] != 'Z' {
		return nil, fmt.Errorf("no MZ header")
	}
	v.peOff = int(le.Uint32(b[0x3C:]))
	if v.peOff+24 > len(b) || string(b[v.peOff:v.peOff+4]) != "PE\x00\x00" {
		return nil, fmt.Errorf("no PE signature at %#x", v.peOff)
	}
	v.fileHdr = b[v.peOff+4 : v.peOff+24]
	n := int(le.Uint16(v.fileHdr[2:]))
	osz := int(le.Uint16(v.fileHdr[16:]))
	v.optStart = v.peOff + 24
	if v.optStart+osz+40*n > len(b) || osz < 96 {
		return nil, fmt.Errorf("headers exceed the file")
	}
	fixed := 96
	switch le.Uint16(b[v.optStart:]) {
	case 0x10B:
	case 0x20B:
		v.plus = true
		fixed = 112
	default:
		return nil, fmt.Errorf("unknown optional header magic")
	}
	if osz < fixed {
		return nil, fmt.Errorf("optional header is too short")
	}
	v.opt = b[v.optStart : v.optStart+fixed]
	nd := int(le.Uint32(v.opt[fixed-4:]))
	v.optPad = osz - fixed - 8*nd
	if nd > osz || v.optPad < 0 {
		return nil, fmt.Errorf("%d directories do not fit in an optional header of %d bytes", nd, osz)
	}
	for i := 0; i < nd; i++ {
		p := b[v.optStart+fixed+8*i:]
		v.dirs = append(v.dirs, [2]uint32{le.Uint32(p), le.Uint32(p[4:])})
	}
	for i := 0; i < n; i++ {
		h := b[v.optStart+osz+40*i : v.optStart+osz+40*i+40]
		s := SecView{
			hdr: h, name: string(bytes.TrimRight(h[:8], "\x00")),
			vs: int(le.Uint32(h[8:])), va: int(le.Uint32(h[12:])), size: int(le.Uint32(h[16:])), ptr: int(le.Uint32(h[20:])),
			flags: le.Uint32(h[36:]),
		}
		if s.inFile() {
			if s.ptr+s.size > len(b) {
				return nil, fmt.Errorf("section %d (%s) at %#x..%#x exceeds the file (%#x bytes)", i, s.name, s.ptr, s.ptr+s.size, len(b))
			}
			s.data = b[s.ptr : s.ptr+s.size]
		}
		v.secs = append(v.secs, s)
	}
	v.hdrEnd = v.optStart + osz + 40*n
	return v, nil
}

// rawEnd is the end of the last section in the file: the overlay starts there.
func (v *PEView) rawEnd() int {
	end := 0
	for _, s := range v.secs {
		if s.inFile() && s.ptr+s.size > end {
			end = s.ptr + s.size
		}
	}
	return end
}

func (v *PEView) firstRaw() int {
	p := len(v.raw)
	for _, s := range v.secs {
		if s.inFile() && s.ptr < p {
			p = s.ptr
		}
	}
	return p
}

func (v *PEView) rsrcIndex() int {
	d := v.dirs[dirResource]
	if d[0] == 0 && d[1] == 0 {
		return -1
	}
	for i, s := range v.secs {
		if uint32(s.va) == d[0] {
			return i
		}
	}
	return -1
}

// resources reads the resource tree of an image, strictly.
func (v *PEView) resources() (*Tree, error) {
	i := v.rsrcIndex()
	if i < 0 {
		return nil, fmt.Errorf("no section starts at the resource directory's address %#x", v.dirs[dirResource][0])
	}
	s := v.secs[i]
	return parseTree(s.data, treeOpts{strictOrder: true, addr: func(_ int, rva uint32) (int, error) {
		if int(rva) < s.va || int(rva) > s.va+s.memSize() {
			return 0, fmt.Errorf("address %#x is outside of the resource section %#x..%#x", rva, s.va, s.va+s.memSize())
		}
		return int(rva) - s.va, nil
	}})
}

// Generator

var typicalDirs = []int{0, 1, 3, 6, 8, 9, 10, 12, 13, 14, 15}

type peGenOpts struct {
	allowSig   bool
	rsrc       int // 0: any, 1: must have resources, -1: must not
	small      bool
	noOdd      bool // only the most regular layouts
	alwaysRoom bool
	lastRsrc   bool // the resource section, if any, is the last one (relocations aside)
}

func genPE(t *rapid.T, o peGenOpts) *PESpec {
	s := &PESpec{Room: -1, Sym: 0}
	s.Plus = rapid.Bool().Draw(t, "plus")
	switch rapid.IntRange(0, 10).Draw(t, "align") {
	case 10:
		s.FileAlign, s.SectAlign = 0x200, 0x1000
		switch rapid.IntRange(0, 7).Draw(t, "highalign") {
		case 0:
			s.FileAlign, s.SectAlign = 0x10000, 0x10000
		case 1:
			s.FileAlign, s.SectAlign = 0x8000, 0x10000
		case 2:
			s.FileAlign, s.SectAlign = 0x2000, 0x4000
		case 3:
			s.FileAlign, s.SectAlign = 0x200, 0x100000
		}
	case 0:
		a := rapid.SampledFrom([]int{0x10, 0x20, 0x80}).Draw(t, "low")
		s.FileAlign, s.SectAlign = a, a
	case 1:
		s.FileAlign, s.SectAlign = 0x1000, 0x1000
	case 2:
		s.FileAlign, s.SectAlign = 0x200, 0x2000
	case 3:
		s.FileAlign, s.SectAlign = 0x400, 0x1000
	default:
		s.FileAlign, s.SectAlign = 0x200, 0x1000
	}
	s.NumDirs = rapid.SampledFrom([]int{16, 16, 16, 16, 6, 7, 10, 15}).Draw(t, "ndirs")
	stub := rapid.SampledFrom([]int{0, 0x40, 0x80, 0xA8, 0xB8, 0xC0, 1, 3, 77}).Draw(t, "stub")
	if rapid.IntRange(0, 99).Draw(t, "longstub") == 37 {
		stub = rapid.SampledFrom([]int{0x100, 0x1000, 0xFFC0, 0xFFBF, 0x10000, 0x10005, 0x20040}).Draw(t, "stublen")
	}
	s.Stub = genBlobN(t, stub)
	s.Opt = genBlobN(t, 0)
	s.FHdr = genBlobN(t, 0)
	n := rapid.IntRange(1, 5).Draw(t, "nsec")
	for i := 0; i < n; i++ {
		sec := SecSpec{Name: rapid.SampledFrom([]string{".text", ".rdata", ".data", ".pdata", "12345678", "", ".idata"}).Draw(t, "secname")}
		kind := rapid.IntRange(0, 9).Draw(t, "seckind")
		switch {
		case kind == 0 && !o.noOdd:
			sec.Role = "bss"
			sec.Flags = 0xC0000080
			sec.VAdd = rapid.IntRange(1, 3*s.SectAlign).Draw(t, "bss")
			sec.Ptr = rapid.SampledFrom([]uint32{0, 0, 0x200, 0x400, 0x10000}).Draw(t, "bssptr")
			sec.RawSz = rapid.SampledFrom([]uint32{0, 0, uint32(s.FileAlign), uint32(roundUp(sec.VAdd, s.FileAlign))}).Draw(t, "bssraw")
		case kind == 1 && !o.noOdd:
			sec.Role = "empty"
			sec.Flags = 0xC0000040
			sec.VAdd = rapid.IntRange(1, 3*s.SectAlign).Draw(t, "bss")
		default:
			max := 0x2400
			if o.small {
				max = 0x300
			}
			sec.Flags = rapid.SampledFrom([]uint32{0x60000020, 0x40000040, 0xC0000040, 0x42000040}).Draw(t, "secflags")
			sec.Raw = genBlobN(t, rapid.OneOf(rapid.IntRange(1, 300), rapid.IntRange(1, max), rapid.SampledFrom([]int{0x200, 0x400, 0x1000})).Draw(t, "secraw"))
			switch rapid.IntRange(0, 4).Draw(t, "vadd") {
			case 0:
				sec.VAdd = rapid.IntRange(0, 3*s.SectAlign).Draw(t, "vaddn")
			case 1:
				sec.VAdd = roundUp(sec.Raw.N, s.FileAlign) - sec.Raw.N // virtual size includes padding
			}
		}
		s.Secs = append(s.Secs, sec)
	}
	if hasFile := func() bool {
		for _, x := range s.Secs {
			if x.Role == "" {
				return true
			}
		}
		return false
	}(); !hasFile {
		s.Secs[0] = SecSpec{Name: ".text", Raw: genBlobN(t, 0x123), Flags: 0x60000020}
	}
	insert := func(i int, x SecSpec) {
		s.Secs = append(s.Secs, SecSpec{})
		copy(s.Secs[i+1:], s.Secs[i:])
		s.Secs[i] = x
	}
	if rapid.IntRange(0, 2).Draw(t, "reloc") > 0 {
		r := SecSpec{Name: ".reloc", Role: "reloc", Raw: genBlobN(t, rapid.IntRange(8, 0x700).Draw(t, "relocsize")), Flags: 0x42000040}
		if rapid.IntRange(0, 3).Draw(t, "relocpos") > 0 {
			s.Secs = append(s.Secs, r)
		} else {
			insert(rapid.IntRange(0, len(s.Secs)).Draw(t, "relocat"), r)
		}
	}
	hasRsrc := o.rsrc == 1 || (o.rsrc == 0 && rapid.IntRange(0, 2).Draw(t, "rsrc") > 0)
	if hasRsrc {
		max := 6
		if o.small {
			max = 3
		}
		s.Rsrc = genResources(t, max, 3000)
		s.Layout = genLayout(t)
		r := SecSpec{Name: rapid.SampledFrom([]string{".rsrc", ".rsrc", ".rsrc", "rsrc", ".data"}).Draw(t, "rsrcname"), Role: "rsrc", Flags: 0x40000040}
		at := len(s.Secs)
		switch rapid.IntRange(0, 3).Draw(t, "rsrcpos") {
		case 0, 1: // just before a final relocation section, or last
			if k := hasRole(s, "reloc"); k == len(s.Secs)-1 {
				at = k
			}
		case 2:
		default:
			if !o.lastRsrc {
				at = rapid.IntRange(0, len(s.Secs)).Draw(t, "rsrcat")
			}
		}
		insert(at, r)
		switch rapid.IntRange(0, 5).Draw(t, "rsrcsize") {
		case 0:
			s.RsrcRDiff = rapid.IntRange(0, 0x3000).Draw(t, "rsrcslack")
		case 1:
			s.RsrcVDiff = rapid.IntRange(0, 0x3000).Draw(t, "rsrcvirt")
		case 2:
			s.RsrcRDiff = rapid.IntRange(0, 0x1400).Draw(t, "rsrcslack")
			s.RsrcVDiff = s.RsrcRDiff
		}
		switch rapid.IntRange(0, 9).Draw(t, "rsrcdirsize") {
		case 0: // some linkers only count directories
			s.RsrcDirSz = rapid.IntRange(1, 0x60).Draw(t, "rsrcdirsz")
		case 1:
			s.RsrcDirSz = rapid.IntRange(1, 0x2000).Draw(t, "rsrcdirsz")
		}
	}
	if !o.noOdd && rapid.IntRange(0, 9).Draw(t, "v0") == 0 {
		all := rapid.Bool().Draw(t, "v0all")
		at := rapid.IntRange(0, len(s.Secs)-1).Draw(t, "v0at")
		for i := range s.Secs {
			s.Secs[i].V0 = all || i == at
		}
	}
	if !o.noOdd && rapid.IntRange(0, 7).Draw(t, "raworder") == 0 {
		for range s.Secs {
			s.RawOrder = append(s.RawOrder, rapid.IntRange(0, 9).Draw(t, "rawkey"))
		}
	}
	if !o.noOdd && len(s.Secs) > 1 && rapid.IntRange(0, 11).Draw(t, "hdrorder") == 0 {
		for range s.Secs {
			s.HdrOrder = append(s.HdrOrder, rapid.IntRange(0, 9).Draw(t, "hdrkey"))
		}
	}
	if !o.noOdd && rapid.IntRange(0, 9).Draw(t, "unal") == 0 {
		all := rapid.Bool().Draw(t, "unalall")
		at := rapid.IntRange(0, len(s.Secs)-1).Draw(t, "unalat")
		for i := range s.Secs {
			s.Secs[i].Unal = all || i == at || (s.Secs[i].Role == "rsrc" && at%2 == 0)
		}
	}
	s.Unaligned = !o.noOdd && rapid.IntRange(0, 5).Draw(t, "unaligned") == 0
	if !o.noOdd && rapid.IntRange(0, 9).Draw(t, "vagap") == 0 {
		sec := &s.Secs[rapid.IntRange(0, len(s.Secs)-1).Draw(t, "vagapat")]
		sec.Gap = rapid.IntRange(1, 3).Draw(t, "vagapn")
		if rapid.IntRange(0, 5).Draw(t, "highva") == 0 {
			// around limits of signed or smaller integers
			high := rapid.SampledFrom([]int{0x1000000, 0x7FF00000, 0x80000000, 0xC0000000}).Draw(t, "va")
			sec.Gap = max(1, high/s.SectAlign-rapid.IntRange(0, 12).Draw(t, "vabefore"))
		}
	}
	for i, nd := 0, rapid.IntRange(0, 4).Draw(t, "ndir"); i < nd; i++ {
		d := DirSpec{Index: rapid.SampledFrom(typicalDirs).Draw(t, "dir"), Sec: rapid.IntRange(0, len(s.Secs)-1).Draw(t, "dirsec")}
		sp := s.Secs[d.Sec]
		if d.Index >= s.NumDirs || sp.Role == "rsrc" || sp.Role == "bss" || sp.Role == "empty" {
			continue
		}
		d.Off = rapid.IntRange(0, sp.Raw.N-1).Draw(t, "diroff")
		d.Size = rapid.IntRange(1, 100).Draw(t, "dirsize")
		if d.Index == dirGlobalPtr {
			d.Size = 0
		}
		s.Dirs = append(s.Dirs, d)
	}
	switch rapid.IntRange(0, 5).Draw(t, "overlay") {
	case 0, 1, 2:
	case 3:
		s.Overlay = genBlobN(t, rapid.IntRange(1, 30).Draw(t, "ovl"))
	default:
		s.Overlay = genBlobN(t, rapid.IntRange(1, 0x900).Draw(t, "ovl"))
	}
	if rapid.IntRange(0, 59).Draw(t, "big") == 0 {
		// more than usual copy buffers
		for i := range s.Secs {
			if s.Secs[i].Role == "" {
				s.Secs[i].Raw.N = rapid.IntRange(30000, 150000).Draw(t, "bigraw")
				break
			}
		}
		s.Overlay.N = rapid.IntRange(0, 100000).Draw(t, "bigovl")
	}
	if rapid.IntRange(0, 3).Draw(t, "sym") == 0 {
		s.Sym = rapid.IntRange(-1, 6).Draw(t, "nsym")
		s.SymAt = rapid.IntRange(-1, 40).Draw(t, "symat")
	}
	if o.allowSig && rapid.IntRange(0, 2).Draw(t, "sig") == 0 {
		s.SigSize = 8 * rapid.IntRange(1, 80).Draw(t, "sigsize")
		if rapid.IntRange(0, 3).Draw(t, "sigtail") == 0 {
			s.SigTail = rapid.IntRange(1, 60).Draw(t, "sigtailn")
		} else if rapid.IntRange(0, 7).Draw(t, "sigover") == 0 {
			s.SigOver = rapid.OneOf(rapid.IntRange(1, 8), rapid.IntRange(1, 2000)).Draw(t, "sigovern")
		}
	}
	if o.allowSig && s.SigSize == 0 && rapid.IntRange(0, 11).Draw(t, "sigempty") == 0 {
		s.SigEmpty = true
	}
	if o.allowSig && s.SigSize == 0 && !s.SigEmpty && rapid.IntRange(0, 19).Draw(t, "sigin") == 0 {
		s.SigIn = rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 3000)).Draw(t, "siginn")
	}
	if rapid.IntRange(0, 5).Draw(t, "hdrfill") == 0 {
		s.HdrFill = genBlobN(t, 1)
		if rapid.IntRange(0, 3).Draw(t, "hdrdir") > 0 {
			s.HdrDir = rapid.SampledFrom([]int{dirBound, dirBound, dirBound, dirBound, dirBound, 6, 1, 10, 12, 13, 14}).Draw(t, "hdrdirindex")
			if o.alwaysRoom {
				s.HdrDir = dirBound
			}
			s.HdrDirOff = rapid.SampledFrom([]int{0, 8, 16, 38, 39, 40, 41, 48}).Draw(t, "hdrdiroff")
			s.HdrDirSz = rapid.IntRange(1, 90).Draw(t, "hdrdirsz")
		}
	}
	s.CheckSum = rapid.SampledFrom([]int{0, 1, 2}).Draw(t, "sum")
	switch {
	case o.alwaysRoom:
		s.Room = rapid.IntRange(40, 200).Draw(t, "room")
	default:
		switch rapid.IntRange(0, 7).Draw(t, "roomclass") {
		case 0:
			s.Room = rapid.IntRange(0, 100).Draw(t, "room")
		case 1:
			s.Room = rapid.SampledFrom([]int{39, 40, 41, 0, 80}).Draw(t, "room")
		case 2, 3:
			s.Room = rapid.IntRange(40, 300).Draw(t, "room")
		}
	}
	if rapid.IntRange(0, 5).Draw(t, "hdrgap") == 0 {
		s.HdrGap = rapid.IntRange(1, 3).Draw(t, "hdrgapn")
		if s.FileAlign < 0x1000 && rapid.IntRange(0, 9).Draw(t, "hdrgapbig") == 0 {
			s.HdrGap = rapid.IntRange(1, 0x20000/s.FileAlign).Draw(t, "hdrgapn")
		}
		s.TightSoH = rapid.Bool().Draw(t, "tightsoh")
		if s.TightSoH && s.Room < 0 && rapid.IntRange(0, 3).Draw(t, "fullsoh") == 0 {
			s.Room = rapid.IntRange(0, 39).Draw(t, "sohroom") // one more section header will not fit in SizeOfHeaders
		}
	}
	return s
}

// enlarge makes an image out of the ordinary by the number or size of its parts.
func enlarge(t *rapid.T, s *PESpec) {
	size := func(l string) int {
		return rapid.OneOf(rapid.SampledFrom([]int{65535, 65536, 65537, 1 << 20, 1<<20 + 1}), rapid.IntRange(60000, 300000), rapid.IntRange(300000, 3000000)).Draw(t, l)
	}
	what := rapid.IntRange(0, 5).Draw(t, "enlarge")
	if what <= 2 {
		n := rapid.OneOf(rapid.SampledFrom([]int{14, 15, 16, 31, 32, 94, 95, 96, 97, 127, 255}), rapid.IntRange(6, 130)).Draw(t, "nmore")
		at := rapid.IntRange(0, len(s.Secs)).Draw(t, "moreat")
		more := make([]SecSpec, n)
		for i := range more {
			more[i] = SecSpec{Name: fmt.Sprintf("s%d", i), Raw: Blob{N: 1 + i*37%700, S: uint32(i)}, Flags: 0x40000040}
		}
		for i := range s.Dirs {
			if s.Dirs[i].Sec >= at {
				s.Dirs[i].Sec += n
			}
		}
		s.Secs = append(s.Secs[:at:at], append(more, s.Secs[at:]...)...)
	}
	if what >= 2 {
		for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nlarge"); i < n; i++ {
			sec := &s.Secs[rapid.IntRange(0, len(s.Secs)-1).Draw(t, "largeat")]
			switch {
			case sec.Role == "" || sec.Role == "reloc":
				sec.Raw.N += size("largeraw")
			case sec.Role == "bss" && sec.RawSz == 0 || sec.Role == "empty":
				sec.VAdd += 16 * size("largebss")
			case sec.Role == "rsrc":
				s.RsrcRDiff += size("largersrc")
			}
		}
	}
	switch rapid.IntRange(0, 3).Draw(t, "largeovl") {
	case 0:
		s.Overlay = genBlobN(t, size("ovl"))
	case 1:
		if s.SigSize > 0 {
			s.SigSize = roundUp(size("sig"), 8)
		}
	}
	if len(s.Rsrc) > 0 && rapid.Bool().Draw(t, "largetree") {
		s.Rsrc = genLargeRes(t)
	}
}

func genLayout(t *rapid.T) TreeLayout {
	var l TreeLayout
	if rapid.Bool().Draw(t, "canonical") {
		return l
	}
	for i, no := 0, rapid.IntRange(0, 12).Draw(t, "norder"); i < no; i++ {
		l.Order = append(l.Order, uint16(rapid.IntRange(0, 1000).Draw(t, "order")))
	}
	l.Gap = rapid.IntRange(0, 9).Draw(t, "lgap")
	l.DataAlign = rapid.SampledFrom([]int{4, 1, 8, 16}).Draw(t, "dalign")
	l.ShareData = rapid.IntRange(0, 3).Draw(t, "share") == 0
	l.ShareEnt = rapid.IntRange(0, 5).Draw(t, "shareent") == 0
	l.Stamp = rapid.Uint32().Draw(t, "stamp")
	l.Tail = rapid.IntRange(0, 40).Draw(t, "tail")
	return l
}
