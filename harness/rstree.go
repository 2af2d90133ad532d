package main

// Independent reader and writer of the .rsrc directory tree, from the PE/COFF specification.

import (
	"encoding/binary"
	"fmt"
	"sort"
	"unicode/utf16"
)

var le = binary.LittleEndian

type span struct {
	lo, hi int
	what   string
}

// Tree is a decoded resource tree.
type Tree struct {
	Items     []Item
	Spans     []span // records and data, without padding
	RVAFields []int  // offset of every data entry's address field, in order
	Dirs      int
}

type treeOpts struct {
	strictOrder bool // directories must be sorted, names first
	addr        func(fieldOffset int, v uint32) (int, error)
}

func parseTree(sec []byte, o treeOpts) (*Tree, error) {
	tr := &Tree{}
	need := func(off, n int, what string) error {
		if off < 0 || n < 0 || off+n > len(sec) {
			return fmt.Errorf("%s at %#x..%#x is outside of the section (%#x bytes)", what, off, off+n, len(sec))
		}
		return nil
	}
	nameSpans := map[int]bool{}
	type ent struct {
		id  Ident
		off uint32
	}
	readDir := func(off int, what string) ([]ent, error) {
		if err := need(off, 16, what); err != nil {
			return nil, err
		}
		nn, ni := int(le.Uint16(sec[off+12:])), int(le.Uint16(sec[off+14:]))
		if err := need(off+16, (nn+ni)*8, what); err != nil {
			return nil, err
		}
		if o.strictOrder && off > 0 && nn+ni == 0 {
			return nil, fmt.Errorf("%s is empty", what)
		}
		if f := le.Uint32(sec[off:]); f != 0 && o.strictOrder {
			return nil, fmt.Errorf("%s: reserved flags are %#x", what, f)
		}
		tr.Spans = append(tr.Spans, span{off, off + 16 + (nn+ni)*8, what})
		tr.Dirs++
		var out []ent
		for i := 0; i < nn+ni; i++ {
			id, target := le.Uint32(sec[off+16+i*8:]), le.Uint32(sec[off+20+i*8:])
			var e ent
			e.off = target
			isName := id&0x80000000 != 0
			if o.strictOrder && isName != (i < nn) {
				return nil, fmt.Errorf("%s: entry %d of %d names and %d numbers has wrong kind", what, i, nn, ni)
			}
			if isName {
				no := int(id & 0x7FFFFFFF)
				if err := need(no, 2, "name"); err != nil {
					return nil, err
				}
				l := int(le.Uint16(sec[no:]))
				if err := need(no+2, l*2, "name"); err != nil {
					return nil, err
				}
				u := make([]uint16, l)
				for j := range u {
					u[j] = le.Uint16(sec[no+2+j*2:])
				}
				e.id = Ident{Name: string(utf16.Decode(u))}
				if l == 0 && o.strictOrder {
					return nil, fmt.Errorf("%s: empty name", what)
				}
				if !nameSpans[no] {
					nameSpans[no] = true
					tr.Spans = append(tr.Spans, span{no, no + 2 + l*2, "name " + e.id.String()})
				}
			} else {
				if id > 0xFFFF {
					return nil, fmt.Errorf("%s: number %#x is too big", what, id)
				}
				e.id = Ident{ID: uint16(id)}
			}
			if o.strictOrder && i > 0 && !out[i-1].id.less(e.id) {
				return nil, fmt.Errorf("%s: entries %v and %v are not in ascending order", what, out[i-1].id, e.id)
			}
			out = append(out, e)
		}
		return out, nil
	}
	sub := func(e ent, what string) (int, error) {
		if e.off&0x80000000 == 0 {
			return 0, fmt.Errorf("%s %v: not a subdirectory", what, e.id)
		}
		return int(e.off & 0x7FFFFFFF), nil
	}
	types, err := readDir(0, "root directory")
	if err != nil {
		return nil, err
	}
	for _, te := range types {
		off, err := sub(te, "type")
		if err != nil {
			return nil, err
		}
		ress, err := readDir(off, fmt.Sprintf("directory of type %v", te.id))
		if err != nil {
			return nil, err
		}
		for _, re := range ress {
			off, err := sub(re, "resource")
			if err != nil {
				return nil, err
			}
			langs, err := readDir(off, fmt.Sprintf("directory of resource %v/%v", te.id, re.id))
			if err != nil {
				return nil, err
			}
			for _, ln := range langs {
				if ln.off&0x80000000 != 0 || ln.id.Name != "" {
					return nil, fmt.Errorf("language entry of %v/%v is not a leaf", te.id, re.id)
				}
				k := Key{te.id, re.id, ln.id.ID}
				ks := k.String()
				eo := int(ln.off)
				if err := need(eo, 16, "data entry of "+ks); err != nil {
					return nil, err
				}
				tr.Spans = append(tr.Spans, span{eo, eo + 16, "data entry of " + ks})
				tr.RVAFields = append(tr.RVAFields, eo)
				// Code page: none, or one that Windows could have (the smallest is 37)
				if cp, f := le.Uint32(sec[eo+8:]), le.Uint32(sec[eo+12:]); o.strictOrder && (f != 0 || cp != 0 && (cp < 37 || cp > 65001)) {
					return nil, fmt.Errorf("data entry of %s: code page %d, reserved field %#x", ks, cp, f)
				}
				size := int(le.Uint32(sec[eo+4:]))
				do, err := o.addr(eo, le.Uint32(sec[eo:]))
				if err != nil {
					return nil, fmt.Errorf("data of %s: %v", ks, err)
				}
				if err := need(do, size, "data of "+ks); err != nil {
					return nil, err
				}
				tr.Spans = append(tr.Spans, span{do, do + size, "data of " + ks})
				tr.Items = append(tr.Items, Item{k, sec[do : do+size : do+size]})
			}
		}
	}
	return tr, nil
}

// disjoint checks that no two spans overlap.
func disjoint(sp []span) error {
	s := append([]span{}, sp...)
	sort.SliceStable(s, func(i, j int) bool { return s[i].lo < s[j].lo })
	end, what := -1, ""
	for _, x := range s {
		if x.lo == x.hi {
			continue
		}
		if x.lo < end {
			return fmt.Errorf("%s at %#x..%#x overlaps %s, which ends at %#x", x.what, x.lo, x.hi, what, end)
		}
		end, what = x.hi, x.what
	}
	return nil
}

// TreeLayout describes how a foreign tool could have laid a tree out.
type TreeLayout struct {
	Order     []uint16 `json:"order,omitempty"` // sort keys of chunks, used cyclically; empty: canonical order
	Gap       int      `json:"gap,omitempty"`   // bytes of junk between chunks
	DataAlign int      `json:"align,omitempty"`
	ShareData bool     `json:"share,omitempty"` // equal data stored once
	ShareEnt  bool     `json:"shent,omitempty"` // equal data described once
	Stamp     uint32   `json:"stamp,omitempty"` // timestamp, versions, code page: ignored by readers
	Tail      int      `json:"tail,omitempty"`  // junk at the end
}

type chunk struct {
	data  []byte
	align int
	off   int
	key   uint32
	fix   []fixup
}

type fixup struct {
	at   int
	to   *chunk
	flag uint32
	rva  bool
}

// encodeTree lays out a tree for a section at address va.
func encodeTree(items []Item, va uint32, lay TreeLayout) []byte {
	var chunks []*chunk
	add := func(data []byte, align int) *chunk {
		c := &chunk{data: data, align: align}
		chunks = append(chunks, c)
		return c
	}
	names := map[string]*chunk{}
	var order []*chunk
	nameChunk := func(s string) *chunk {
		if c := names[s]; c != nil {
			return c
		}
		u := utf16.Encode([]rune(s))
		b := make([]byte, 2+2*len(u))
		le.PutUint16(b, uint16(len(u)))
		for i, v := range u {
			le.PutUint16(b[2+2*i:], v)
		}
		c := &chunk{data: b, align: 2}
		names[s] = c
		order = append(order, c)
		return c
	}
	dir := func(ids []Ident) *chunk {
		b := make([]byte, 16+8*len(ids))
		le.PutUint32(b[4:], lay.Stamp)
		le.PutUint32(b[8:], lay.Stamp*7)
		c := add(b, 4)
		nn := 0
		for i, id := range ids {
			if id.Name != "" {
				nn++
				c.fix = append(c.fix, fixup{at: 16 + 8*i, to: nameChunk(id.Name), flag: 0x80000000})
			} else {
				le.PutUint32(b[16+8*i:], uint32(id.ID))
			}
		}
		le.PutUint16(b[12:], uint16(nn))
		le.PutUint16(b[14:], uint16(len(ids)-nn))
		return c
	}
	// group
	type rnode struct {
		id    Ident
		items []Item
	}
	type tnode struct {
		id  Ident
		res []*rnode
	}
	var tns []*tnode
	for _, it := range items {
		if len(tns) == 0 || tns[len(tns)-1].id != it.T {
			tns = append(tns, &tnode{id: it.T})
		}
		tn := tns[len(tns)-1]
		if len(tn.res) == 0 || tn.res[len(tn.res)-1].id != it.R {
			tn.res = append(tn.res, &rnode{id: it.R})
		}
		rn := tn.res[len(tn.res)-1]
		rn.items = append(rn.items, it)
	}
	var ids []Ident
	for _, tn := range tns {
		ids = append(ids, tn.id)
	}
	root := dir(ids)
	var datas []*chunk
	shared := map[string]*chunk{}
	sharedEnt := map[string]*chunk{}
	dalign := lay.DataAlign
	if dalign == 0 {
		dalign = 4
	}
	for i, tn := range tns {
		ids = nil
		for _, rn := range tn.res {
			ids = append(ids, rn.id)
		}
		td := dir(ids)
		root.fix = append(root.fix, fixup{at: 20 + 8*i, to: td, flag: 0x80000000})
		for j, rn := range tn.res {
			ids = nil
			for _, it := range rn.items {
				ids = append(ids, Ident{ID: it.L})
			}
			rd := dir(ids)
			td.fix = append(td.fix, fixup{at: 20 + 8*j, to: rd, flag: 0x80000000})
			for k, it := range rn.items {
				if de := sharedEnt[string(it.D)]; de != nil && lay.ShareEnt {
					rd.fix = append(rd.fix, fixup{at: 20 + 8*k, to: de})
					continue
				}
				b := make([]byte, 16)
				le.PutUint32(b[4:], uint32(len(it.D)))
				le.PutUint32(b[8:], lay.Stamp&0xFFFF)
				de := add(b, 4)
				sharedEnt[string(it.D)] = de
				rd.fix = append(rd.fix, fixup{at: 20 + 8*k, to: de})
				dc := shared[string(it.D)]
				if dc == nil || !lay.ShareData {
					dc = &chunk{data: it.D, align: dalign}
					shared[string(it.D)] = dc
					datas = append(datas, dc)
				}
				de.fix = append(de.fix, fixup{at: 0, to: dc, rva: true})
			}
		}
	}
	chunks = append(chunks, order...)
	chunks = append(chunks, datas...)
	if len(lay.Order) > 0 {
		for i, c := range chunks {
			c.key = uint32(lay.Order[i%len(lay.Order)])
		}
		rest := chunks[1:]
		sort.SliceStable(rest, func(i, j int) bool { return rest[i].key < rest[j].key })
	}
	var out []byte
	pad := func(n int) {
		for i := 0; i < n; i++ {
			out = append(out, 0xA5)
		}
	}
	for i, c := range chunks {
		if i > 0 {
			pad(lay.Gap)
		}
		for len(out)%c.align != 0 {
			pad(1)
		}
		c.off = len(out)
		out = append(out, c.data...)
	}
	pad(lay.Tail)
	for _, c := range chunks {
		for _, f := range c.fix {
			v := uint32(f.to.off) | f.flag
			if f.rva {
				v = uint32(f.to.off) + va
			}
			le.PutUint32(out[c.off+f.at:], v)
		}
	}
	return out
}
