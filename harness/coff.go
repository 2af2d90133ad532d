package main

// Independent COFF object reader.

import (
	"fmt"

	"github.com/tc-hib/winres"
)

type coffView struct {
	tree   *Tree
	sec    []byte
	relocs int
}

var coffMachine = map[winres.Arch]uint16{"386": 0x14C, "amd64": 0x8664, "arm": 0x1C4, "arm64": 0xAA64}

// image-relative ("no base") 32-bit relocation types
var coffReloc = map[winres.Arch]uint16{"386": 7, "amd64": 3, "arm": 2, "arm64": 2}

func parseCOFF(b []byte, arch winres.Arch) (*coffView, error) {
	if len(b) < 60 {
		return nil, fmt.Errorf("object is only %d bytes long", len(b))
	}
	if m := le.Uint16(b); m != coffMachine[arch] {
		return nil, fmt.Errorf("machine %#x, want %#x", m, coffMachine[arch])
	}
	if n := le.Uint16(b[2:]); n != 1 {
		return nil, fmt.Errorf("%d sections", n)
	}
	if v := le.Uint16(b[16:]); v != 0 {
		return nil, fmt.Errorf("optional header of %d bytes", v)
	}
	symPtr, nsym := int(le.Uint32(b[8:])), int(le.Uint32(b[12:]))
	s := b[20:60]
	if string(s[:8]) != ".rsrc\x00\x00\x00" {
		return nil, fmt.Errorf("section name %q", s[:8])
	}
	if le.Uint32(s[8:]) != 0 || le.Uint32(s[12:]) != 0 {
		return nil, fmt.Errorf("virtual size and address of an object's section must be zero")
	}
	size, ptr := int(le.Uint32(s[16:])), int(le.Uint32(s[20:]))
	relPtr := int(le.Uint32(s[24:]))
	nrel := int(le.Uint16(s[32:]))
	flags := le.Uint32(s[36:])
	if le.Uint32(s[28:]) != 0 || le.Uint16(s[34:]) != 0 {
		return nil, fmt.Errorf("line numbers present")
	}
	if flags != 0x40000040 {
		return nil, fmt.Errorf("section flags %#x", flags)
	}
	if ptr < 60 || ptr+size > len(b) {
		return nil, fmt.Errorf("section data at %#x..%#x, file is %#x bytes", ptr, ptr+size, len(b))
	}
	if relPtr+10*nrel > len(b) {
		return nil, fmt.Errorf("relocations at %#x..%#x, file is %#x bytes", relPtr, relPtr+10*nrel, len(b))
	}
	if nsym != 1 || symPtr+18*nsym+4 > len(b) {
		return nil, fmt.Errorf("%d symbols at %#x, file is %#x bytes", nsym, symPtr, len(b))
	}
	sy := b[symPtr : symPtr+18]
	if string(sy[:8]) != ".rsrc\x00\x00\x00" || le.Uint32(sy[8:]) != 0 || le.Uint16(sy[12:]) != 1 || le.Uint16(sy[14:]) != 0 || sy[16] != 3 || sy[17] != 0 {
		return nil, fmt.Errorf("bad section symbol % x", sy)
	}
	strPtr := symPtr + 18*nsym
	if l := int(le.Uint32(b[strPtr:])); l != 4 || strPtr+4 != len(b) {
		return nil, fmt.Errorf("string table of %d bytes at %#x, file is %#x bytes", l, strPtr, len(b))
	}
	if err := disjoint([]span{{0, 60, "headers"}, {ptr, ptr + size, "section data"}, {relPtr, relPtr + 10*nrel, "relocations"}, {symPtr, len(b), "symbols"}}); err != nil {
		return nil, err
	}
	if size+10*nrel+60+22 != len(b) {
		return nil, fmt.Errorf("parts do not add up to the file's %d bytes", len(b))
	}
	sec := b[ptr : ptr+size]
	relocAt := map[int]int{}
	for i := 0; i < nrel; i++ {
		r := b[relPtr+10*i:]
		va := int(le.Uint32(r))
		if le.Uint32(r[4:]) != 0 {
			return nil, fmt.Errorf("relocation %d refers to symbol %d", i, le.Uint32(r[4:]))
		}
		if ty := le.Uint16(r[8:]); ty != coffReloc[arch] {
			return nil, fmt.Errorf("relocation %d has type %#x, want %#x", i, ty, coffReloc[arch])
		}
		relocAt[va]++
	}
	tr, err := parseTree(sec, treeOpts{strictOrder: true, addr: func(f int, v uint32) (int, error) {
		if relocAt[f] != 1 {
			return 0, fmt.Errorf("%d relocations at its address field %#x", relocAt[f], f)
		}
		return int(v), nil
	}})
	if err != nil {
		return nil, err
	}
	if nrel != len(tr.Items) {
		return nil, fmt.Errorf("%d relocations for %d resources", nrel, len(tr.Items))
	}
	return &coffView{tree: tr, sec: sec, relocs: nrel}, nil
}
