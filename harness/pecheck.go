package main

// Oracles over (image, patched image): what must survive, and what makes an image valid.

import (
	"bytes"
	"fmt"
	"sort"

	"github.com/tc-hib/winres"
)

// patchOpts are WriteToEXE options of a case.
type PatchOpts struct {
	Force bool `json:"force,omitempty"`
	Auth  int  `json:"auth,omitempty"`  // 0: default, 1: remove, 2: ignore, 3: explicit ErrorIfSigned
	Prior int  `json:"prior,omitempty"` // another handling given before, which Auth replaces
}

func (o PatchOpts) String() string {
	return fmt.Sprintf("force=%v auth=%d prior=%d", o.Force, o.Auth, o.Prior)
}

// patch calls WriteToEXE with the options of the case.
func (o PatchOpts) patch(rs *winres.ResourceSet, dst interface{ Write([]byte) (int, error) }, src interface {
	Read([]byte) (int, error)
	Seek(int64, int) (int64, error)
}) error {
	force := winres.ForceCheckSum()
	auth := winres.WithAuthenticode(winres.ErrorIfSigned)
	switch o.Auth {
	case 1:
		auth = winres.WithAuthenticode(winres.RemoveSignature)
	case 2:
		auth = winres.WithAuthenticode(winres.IgnoreSignature)
	}
	prior := winres.WithAuthenticode(winres.ErrorIfSigned)
	switch o.Prior {
	case 1:
		prior = winres.WithAuthenticode(winres.RemoveSignature)
	case 2:
		prior = winres.WithAuthenticode(winres.IgnoreSignature)
	}
	switch {
	case o.Auth != 0 && o.Prior != 0 && o.Force:
		return rs.WriteToEXE(dst, src, prior, force, auth)
	case o.Auth != 0 && o.Prior != 0:
		return rs.WriteToEXE(dst, src, prior, auth)
	case o.Force && o.Auth != 0:
		return rs.WriteToEXE(dst, src, auth, force)
	case o.Force:
		return rs.WriteToEXE(dst, src, force)
	case o.Auth != 0:
		return rs.WriteToEXE(dst, src, auth)
	}
	return rs.WriteToEXE(dst, src)
}

// rsrcPlace says where the resource section of an image is.
type rsrcPlace int

const (
	placeNone   rsrcPlace = iota // there is none
	placeLast                    // last in memory, or followed by the relocation section only
	placeMiddle                  // something else follows
)

func (v *PEView) memEnd(i int) int { return roundUp(v.secs[i].va+v.secs[i].memSize(), v.sectAlign()) }

func (v *PEView) virtEnd() int {
	e := 0
	for i := range v.secs {
		if x := v.memEnd(i); x > e {
			e = x
		}
	}
	return e
}

func (v *PEView) place() rsrcPlace {
	i := v.rsrcIndex()
	if i < 0 {
		return placeNone
	}
	end := v.memEnd(i)
	if end >= v.virtEnd() {
		return placeLast
	}
	for j, s := range v.secs {
		if uint32(s.va) == v.dirs[dirReloc][0] && s.va == end && v.memEnd(j) >= v.virtEnd() {
			return placeLast
		}
	}
	return placeMiddle
}

// inNewHeader tells if a directory designates something that one more section header would overwrite.
func (v *PEView) inNewHeader(i int) bool {
	lo, hi := int(v.dirs[i][0]), int(v.dirs[i][0])+int(v.dirs[i][1])
	return i != dirSecurity && lo > 0 && lo < hi && lo < v.hdrEnd+40 && hi > v.hdrEnd
}

// room is what is left between the section headers and the first section.
func (v *PEView) room() int { return v.firstRaw() - v.hdrEnd }

// enoughRoom tells if one more section header fits without overwriting anything.
func (v *PEView) enoughRoom() bool {
	for i := range v.dirs {
		if i != dirBound && v.inNewHeader(i) {
			return false
		}
	}
	return v.room() >= 40
}

func (v *PEView) signed() bool {
	return len(v.dirs) > dirSecurity && v.dirs[dirSecurity][0] > 0
}

func (v *PEView) sigAtEnd() bool {
	return v.signed() && int(v.dirs[dirSecurity][0])+int(v.dirs[dirSecurity][1]) == len(v.raw)
}

// sigInside tells if what the certificate directory designates can't be a signature, because it overlaps sections.
func (v *PEView) sigInside() bool { return v.signed() && int(v.dirs[dirSecurity][0]) < v.rawEnd() }

// sigCut tells if the end of the signature is missing.
func (v *PEView) sigCut() bool {
	return v.signed() && int(v.dirs[dirSecurity][0])+int(v.dirs[dirSecurity][1]) > len(v.raw)
}

// sigKept tells if got is acceptable after the sections although the signature had to be removed:
// what isn't a complete signature may be kept, and what is left of it may be removed.
func (v *PEView) sigKept(got []byte) bool {
	if v.sigInside() {
		return bytes.Equal(got, v.raw[v.rawEnd():])
	}
	return v.sigCut() && bytes.Equal(got, v.raw[v.rawEnd():max(v.rawEnd(), min(len(v.raw), int(v.dirs[dirSecurity][0])))])
}

// expectRefusal says whether patching must be refused: 1 yes, 0 no, -1 either.
func expectRefusal(in *PEView, rsrcLen int, o PatchOpts) (int, string) {
	if in.signed() && o.Auth != 1 && o.Auth != 2 {
		return 1, "signed"
	}
	enough := in.enoughRoom()
	switch in.place() {
	case placeNone:
		if !enough {
			return 1, "no room for a section header"
		}
	case placeMiddle:
		if !enough {
			s := in.secs[in.rsrcIndex()]
			if rsrcLen > roundUp(s.size, in.fileAlign()) || rsrcLen > roundUp(s.memSize(), in.sectAlign()) {
				return 1, "no room for a section header"
			}
			return -1, "in place or no room"
		}
	}
	return 0, ""
}

// preserved checks that everything that is not a resource survived a patch.
func preserved(in, out *PEView, o PatchOpts) error {
	if !bytes.Equal(in.raw[:in.peOff+4], out.raw[:min(out.peOff+4, len(out.raw))]) {
		return fmt.Errorf("DOS stub changed: %s", diffBytes(out.raw[:out.peOff+4], in.raw[:in.peOff+4]))
	}
	// file header
	for i := 0; i < 20; i++ {
		if i == 2 || i == 3 || (i >= 8 && i < 12) {
			continue
		}
		if in.fileHdr[i] != out.fileHdr[i] {
			return fmt.Errorf("file header byte %d changed from %#x to %#x", i, in.fileHdr[i], out.fileHdr[i])
		}
	}
	// optional header
	if in.plus != out.plus || len(in.dirs) != len(out.dirs) || in.optPad != out.optPad {
		return fmt.Errorf("optional header shape changed")
	}
	newSec := len(out.secs) - len(in.secs)
	for i := range in.opt {
		if (i >= 8 && i < 12) || (i >= 56 && i < 60) || (i >= 64 && i < 68) {
			continue
		}
		if i >= 60 && i < 64 && newSec == 1 && out.hdrEnd > in.u32(60) {
			continue // headers grew beyond their declared size
		}
		if in.opt[i] != out.opt[i] {
			return fmt.Errorf("optional header byte %d changed from %#x to %#x", i, in.opt[i], out.opt[i])
		}
	}
	place := in.place()
	ri := in.rsrcIndex()
	switch {
	case place == placeNone && newSec != 1:
		return fmt.Errorf("%d sections became %d, want one more", len(in.secs), len(out.secs))
	case place == placeLast && newSec != 0:
		return fmt.Errorf("%d sections became %d, want the same number", len(in.secs), len(out.secs))
	case newSec != 0 && newSec != 1:
		return fmt.Errorf("%d sections became %d", len(in.secs), len(out.secs))
	}
	// sections
	for i, a := range in.secs {
		b := out.secs[i]
		if i == ri {
			if b.flags != a.flags {
				return fmt.Errorf("flags of the resource section changed from %#x to %#x", a.flags, b.flags)
			}
			if b.va != a.va {
				return fmt.Errorf("old resource section moved from %#x to %#x", a.va, b.va)
			}
			continue
		}
		if !bytes.Equal(a.hdr[:8], b.hdr[:8]) {
			return fmt.Errorf("name of section %d changed from %q to %q", i, a.hdr[:8], b.hdr[:8])
		}
		if a.vs != b.vs || !bytes.Equal(a.hdr[24:40], b.hdr[24:40]) {
			return fmt.Errorf("header of section %d (%s) changed: size %#x/%#x, rest % x/% x", i, a.name, a.vs, b.vs, a.hdr[24:40], b.hdr[24:40])
		}
		if a.size != b.size {
			return fmt.Errorf("raw size of section %d (%s) changed from %#x to %#x", i, a.name, a.size, b.size)
		}
		if !bytes.Equal(a.data, b.data) {
			return fmt.Errorf("content of section %d (%s) changed: %s", i, a.name, diffBytes(b.data, a.data))
		}
		if a.va != b.va {
			isReloc := uint32(a.va) == in.dirs[dirReloc][0]
			if !(isReloc && place == placeLast && ri >= 0 && a.va == in.memEnd(ri)) {
				return fmt.Errorf("section %d (%s) moved in memory from %#x to %#x", i, a.name, a.va, b.va)
			}
		}
	}
	// directories
	for i := range in.dirs {
		a, b := in.dirs[i], out.dirs[i]
		switch i {
		case dirResource:
			continue
		case dirSecurity:
			continue // see signaturePreserved
		}
		if a[0] == 0 {
			if a != b {
				return fmt.Errorf("empty data directory %d became %#x", i, b)
			}
			continue
		}
		if i == dirBound && newSec == 1 && in.inNewHeader(i) {
			// Bound imports are optional, but they must not designate a section header.
			if b != [2]uint32{} {
				return fmt.Errorf("bound imports were overwritten, but their directory is %#x", b)
			}
			continue
		}
		if a[1] != b[1] {
			return fmt.Errorf("size of data directory %d changed from %#x to %#x", i, a[1], b[1])
		}
		found := false
		for j, s := range in.secs {
			ext := s.memSize()
			if s.size > ext {
				ext = s.size
			}
			if int(a[0]) >= s.va && int(a[0]) < s.va+ext && j != ri {
				found = true
				if want := out.secs[j].va + int(a[0]) - s.va; want != int(b[0]) {
					return fmt.Errorf("data directory %d designated offset %#x of section %s (%#x), now points to %#x instead of %#x", i, int(a[0])-s.va, s.name, a[0], b[0], want)
				}
				break
			}
		}
		if !found && a[0] != b[0] {
			return fmt.Errorf("data directory %d changed from %#x to %#x", i, a, b)
		}
	}
	// what lies between headers and sections
	if lo, hi := in.hdrEnd+40*newSec, in.firstRaw(); lo < hi {
		if out.firstRaw() != hi {
			return fmt.Errorf("the first section's data moved from %#x to %#x in the file", hi, out.firstRaw())
		}
		if !bytes.Equal(in.raw[lo:hi], out.raw[lo:hi]) {
			return fmt.Errorf("data between headers and sections changed: %s", diffBytes(out.raw[lo:hi], in.raw[lo:hi]))
		}
	}
	// symbol table
	sp, op := int(le.Uint32(in.fileHdr[8:])), int(le.Uint32(out.fileHdr[8:]))
	if sp == 0 {
		if op != 0 {
			return fmt.Errorf("symbol table pointer became %#x", op)
		}
	} else {
		n := int(le.Uint32(in.fileHdr[12:]))*18 + 8
		if sp+n <= len(in.raw) {
			if op+n > len(out.raw) || !bytes.Equal(in.raw[sp:sp+n], out.raw[op:op+n]) {
				return fmt.Errorf("symbol table pointer %#x became %#x, which does not designate the symbol table any more", sp, op)
			}
		}
	}
	// what follows the sections
	want := in.raw[in.rawEnd():]
	if o.Auth == 1 && in.sigAtEnd() {
		cut := int(in.dirs[dirSecurity][0])
		want = in.raw[in.rawEnd():max(cut, in.rawEnd())]
	}
	got := out.raw[min(out.rawEnd(), len(out.raw)):]
	// Something that isn't a signature may be kept
	if !bytes.Equal(got, want) && !(o.Auth == 1 && in.sigKept(got)) {
		return fmt.Errorf("data following the sections changed: %s", diffBytes(got, want))
	}
	return signaturePreserved(in, out, o)
}

func signaturePreserved(in, out *PEView, o PatchOpts) error {
	a, b := in.dirs[dirSecurity], out.dirs[dirSecurity]
	switch {
	case a[0] == 0:
		if a != b {
			return fmt.Errorf("certificate directory of an unsigned image became %#x", b)
		}
	case o.Auth == 1:
		if b != [2]uint32{} {
			return fmt.Errorf("certificate directory is %#x after removing the signature", b)
		}
	case o.Auth == 2:
		if a[1] != b[1] {
			return fmt.Errorf("size of the signature changed from %#x to %#x", a[1], b[1])
		}
		if in.sigInside() {
			break
		}
		ae, be := int(a[0])+int(a[1]), int(b[0])+int(b[1])
		if in.sigCut() && ae-len(in.raw) == be-len(out.raw) {
			ae, be = len(in.raw), len(out.raw)
		}
		if be > len(out.raw) || ae > len(in.raw) || !bytes.Equal(in.raw[a[0]:ae], out.raw[b[0]:be]) {
			return fmt.Errorf("certificate directory %#x became %#x, which does not designate the signature", a, b)
		}
	default:
		return fmt.Errorf("a signed image was patched without an option")
	}
	return nil
}

// byAddress returns the indices of sections in the order of addresses.
func (v *PEView) byAddress() []int {
	order := make([]int, len(v.secs))
	for i := range order {
		order[i] = i
	}
	sort.SliceStable(order, func(a, b int) bool { return v.secs[order[a]].va < v.secs[order[b]].va })
	return order
}

// regular tells whether the sections of an image are disjoint and ordered, so that nothing is ambiguous.
func (v *PEView) regular() bool {
	var spans []span
	end := 1
	for _, i := range v.byAddress() {
		s := v.secs[i]
		if s.va < end || s.memSize() == 0 {
			return false
		}
		if end = v.memEnd(i); end <= s.va {
			return false
		}
		if s.inFile() {
			spans = append(spans, span{s.ptr, s.ptr + s.size, ""})
		}
	}
	return disjoint(spans) == nil
}

// validImage checks the structure of a patched image.
func validImage(in, out *PEView, want Model) error {
	sa, fa := out.sectAlign(), out.fileAlign()
	soh := out.u32(60)
	if out.hdrEnd > soh {
		return fmt.Errorf("headers end at %#x, after the declared %#x", out.hdrEnd, soh)
	}
	if soh != in.u32(60) && soh%fa != 0 {
		return fmt.Errorf("the declared size of headers became %#x, which is not rounded to %#x", soh, fa)
	}
	if out.room() < 0 {
		return fmt.Errorf("headers end at %#x, after the first section's data at %#x", out.hdrEnd, out.firstRaw())
	}
	// memory
	// Section headers are usually in the order of addresses, but this is about memory.
	adjacent := true
	order := in.byAddress()
	for i := 1; i < len(order); i++ {
		adjacent = adjacent && in.memEnd(order[i-1]) == in.secs[order[i]].va
	}
	end := roundUp(soh, sa)
	first := true
	for _, i := range out.byAddress() {
		s := out.secs[i]
		if s.va%sa != 0 {
			return fmt.Errorf("section %d (%s) at %#x is not aligned in memory", i, s.name, s.va)
		}
		if s.va < end {
			return fmt.Errorf("section %d (%s) at %#x overlaps or precedes what ends at %#x in memory", i, s.name, s.va, end)
		}
		if adjacent && !first && s.va != end {
			return fmt.Errorf("section %d (%s) at %#x is not adjacent to the previous one any more, which ends at %#x", i, s.name, s.va, end)
		}
		if s.memSize() == 0 {
			return fmt.Errorf("section %d (%s) is empty", i, s.name)
		}
		first = false
		end = out.memEnd(i)
	}
	if soi := out.u32(56); soi != end {
		return fmt.Errorf("declared image size is %#x, want %#x", soi, end)
	}
	// file
	ri := out.rsrcIndex()
	spans := []span{{0, soh, "headers"}}
	for i, s := range out.secs {
		if !s.inFile() {
			continue
		}
		if s.ptr%fa != 0 {
			return fmt.Errorf("section %d (%s) at %#x is not aligned in the file", i, s.name, s.ptr)
		}
		if i == ri && s.size%fa != 0 {
			return fmt.Errorf("raw size %#x of the resource section is not rounded", s.size)
		}
		spans = append(spans, span{s.ptr, s.ptr + s.size, fmt.Sprintf("section %d (%s)", i, s.name)})
	}
	if err := disjoint(spans); err != nil {
		return fmt.Errorf("in the file, %v", err)
	}
	// resources
	d := out.dirs[dirResource]
	n := 0
	for _, s := range out.secs {
		if uint32(s.va) == d[0] {
			n++
		}
	}
	if n != 1 {
		return fmt.Errorf("%d sections start at the resource directory's address %#x", n, d[0])
	}
	rs := out.secs[ri]
	if !rs.inFile() || rs.flags&0x40000040 != 0x40000040 {
		return fmt.Errorf("the resource section is not readable initialised data: flags %#x", rs.flags)
	}
	if int(d[1]) > rs.memSize() || int(d[1]) > rs.size {
		return fmt.Errorf("resource directory size %#x exceeds its section (%#x in memory, %#x in the file)", d[1], rs.memSize(), rs.size)
	}
	tr, err := out.resources()
	if err != nil {
		return fmt.Errorf("resource tree: %v", err)
	}
	for _, sp := range tr.Spans {
		if sp.hi > int(d[1]) {
			return fmt.Errorf("%s ends at %#x, beyond the declared size of resources %#x", sp.what, sp.hi, d[1])
		}
	}
	if err := disjoint(tr.Spans); err != nil {
		return fmt.Errorf("resource tree: %v", err)
	}
	if err := sameItems(tr.Items, want.items()); err != nil {
		return fmt.Errorf("resource tree: %v", err)
	}
	return nil
}

// treeSize is the length of the tree the library writes for a model: the minimum
// layout with data aligned to 8 bytes. It is only used to predict refusals.
func treeSize(m Model) int {
	types, ress, names := map[Ident]bool{}, map[[2]Ident]bool{}, map[string]bool{}
	data := 0
	for k, v := range m {
		types[k.T] = true
		ress[[2]Ident{k.T, k.R}] = true
		for _, n := range []string{k.T.Name, k.R.Name} {
			if n != "" {
				names[n] = true
			}
		}
		data += roundUp(len(v), 8)
	}
	n := 16 + 8*len(types) + 16*len(types) + 8*len(ress) + 16*len(ress) + 8*len(m) + 16*len(m)
	ns := 0
	for s := range names {
		ns += 2 + 2*u16len(s)
	}
	return n + roundUp(ns, 8) + data
}
