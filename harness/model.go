package main

// Serialisable building blocks of cases, and the reference model of a resource set.

import (
	"bytes"
	"fmt"
	"sort"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// Blob stands for a byte string, described by length, kind and salt so that cases stay small.
type Blob struct {
	N int    `json:"n"`
	K int    `json:"k,omitempty"`
	S uint32 `json:"s,omitempty"`
}

func (b Blob) bytes() []byte {
	d := make([]byte, b.N)
	switch b.K {
	case 0: // pseudo-random
		x := b.S*2654435761 + 0x9E3779B9
		for i := range d {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			d[i] = byte(x >> 11)
		}
	case 1:
		for i := range d {
			d[i] = 0xFF
		}
	case 2:
		for i := range d {
			d[i] = byte(uint32(i) + b.S)
		}
	case 3: // zeroes
	case 4:
		for i := range d {
			d[i] = byte('a' + (uint32(i)+b.S)%26)
		}
	}
	return d
}

func genBlobN(t *rapid.T, n int) Blob {
	return Blob{N: n, K: rapid.SampledFrom([]int{0, 0, 0, 2, 1, 3, 4}).Draw(t, "kind"), S: uint32(rapid.IntRange(0, 1000).Draw(t, "salt"))}
}

// genSize draws sizes with a bias towards small ones, alignment boundaries and a few larger ones.
func genSize(t *rapid.T, max int) int {
	var n int
	switch rapid.IntRange(0, 9).Draw(t, "sizeclass") {
	case 0, 1, 2, 3:
		n = rapid.IntRange(0, 40).Draw(t, "size")
	case 4, 5:
		n = rapid.SampledFrom([]int{0x100, 0x200, 0x400, 0x1000, 0x2000, 0x3000}).Draw(t, "boundary") + rapid.IntRange(-20, 20).Draw(t, "delta")
	case 6, 7, 8:
		n = rapid.IntRange(0, 600).Draw(t, "size")
	default:
		n = rapid.IntRange(0, 20000).Draw(t, "size")
	}
	if n > max {
		n = max
	}
	if n < 0 {
		n = 0
	}
	return n
}

func genBlob(t *rapid.T, max int) Blob { return genBlobN(t, genSize(t, max)) }

// Ident is an identifier: a name if Name is not empty, else a number.
type Ident struct {
	ID   uint16 `json:"id,omitempty"`
	Name string `json:"name,omitempty"`
}

func (i Ident) w() winres.Identifier {
	if i.Name != "" {
		return winres.Name(i.Name)
	}
	if id, ok := rtConstants[i.ID]; ok {
		return id
	}
	return winres.ID(i.ID)
}

// rtConstants are the exported type identifiers, indexed by the numbers Windows gives to these types.
// Going through them makes a wrong constant visible wherever a type is looked for by its number.
var rtConstants = map[uint16]winres.ID{
	1: winres.RT_CURSOR, 2: winres.RT_BITMAP, 3: winres.RT_ICON, 4: winres.RT_MENU, 5: winres.RT_DIALOG, 6: winres.RT_STRING,
	7: winres.RT_FONTDIR, 8: winres.RT_FONT, 9: winres.RT_ACCELERATOR, 10: winres.RT_RCDATA, 11: winres.RT_MESSAGETABLE,
	12: winres.RT_GROUP_CURSOR, 14: winres.RT_GROUP_ICON, 16: winres.RT_VERSION, 19: winres.RT_PLUGPLAY, 20: winres.RT_VXD,
	21: winres.RT_ANICURSOR, 22: winres.RT_ANIICON, 23: winres.RT_HTML, 24: winres.RT_MANIFEST,
}

func (i Ident) String() string {
	if len(i.Name) > 100 {
		return fmt.Sprintf("%q... (%d bytes)", i.Name[:60], len(i.Name))
	}
	if i.Name != "" {
		return fmt.Sprintf("%q", i.Name)
	}
	return fmt.Sprint(i.ID)
}

func (i Ident) less(j Ident) bool {
	switch {
	case i.Name != "" && j.Name != "":
		return i.Name < j.Name
	case i.Name != "":
		return true
	case j.Name != "":
		return false
	}
	return i.ID < j.ID
}

func identOf(w winres.Identifier) Ident {
	switch w := w.(type) {
	case winres.ID:
		return Ident{ID: uint16(w)}
	case winres.Name:
		return Ident{Name: string(w)}
	}
	return Ident{Name: fmt.Sprintf("\x00unexpected %T", w)}
}

// Key is the key of a resource.
type Key struct {
	T Ident  `json:"t"`
	R Ident  `json:"r"`
	L uint16 `json:"l,omitempty"`
}

func (k Key) String() string { return fmt.Sprintf("(%v,%v,%#x)", k.T, k.R, k.L) }

func (k Key) less(o Key) bool {
	if k.T != o.T {
		return k.T.less(o.T)
	}
	if k.R != o.R {
		return k.R.less(o.R)
	}
	return k.L < o.L
}

// Model is the reference: a plain map.
type Model map[Key][]byte

func (m Model) keys() []Key {
	ks := make([]Key, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i].less(ks[j]) })
	return ks
}

func (m Model) clone() Model {
	c := make(Model, len(m))
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (m Model) size() int {
	n := 0
	for _, v := range m {
		n += len(v)
	}
	return n
}

// Item is one resource in order.
type Item struct {
	Key
	D []byte
}

func (m Model) items() []Item {
	var out []Item
	for _, k := range m.keys() {
		out = append(out, Item{k, m[k]})
	}
	return out
}

func sameItems(got, want []Item) error {
	for i := 0; i < len(got) || i < len(want); i++ {
		switch {
		case i >= len(got):
			return fmt.Errorf("missing %v (item %d of %d, got %d items)", want[i].Key, i, len(want), len(got))
		case i >= len(want):
			return fmt.Errorf("unexpected %v (item %d, want %d items)", got[i].Key, i, len(want))
		case got[i].Key != want[i].Key:
			return fmt.Errorf("item %d is %v, want %v", i, got[i].Key, want[i].Key)
		case !bytes.Equal(got[i].D, want[i].D):
			return fmt.Errorf("data of %v differs: %s", got[i].Key, diffBytes(got[i].D, want[i].D))
		}
	}
	return nil
}

func diffBytes(got, want []byte) string {
	n := len(got)
	if len(want) < n {
		n = len(want)
	}
	for i := 0; i < n; i++ {
		if got[i] != want[i] {
			lo, hi := i-8, i+24
			if lo < 0 {
				lo = 0
			}
			cut := func(b []byte) []byte {
				h := hi
				if h > len(b) {
					h = len(b)
				}
				return b[lo:h]
			}
			return fmt.Sprintf("length %d want %d, first difference at %#x: got % x want % x (from %#x)", len(got), len(want), i, cut(got), cut(want), lo)
		}
	}
	return fmt.Sprintf("length %d want %d, common prefix equal", len(got), len(want))
}

// walkItems reads a whole set through Walk.
func walkItems(rs *winres.ResourceSet) []Item {
	var out []Item
	rs.Walk(func(t, r winres.Identifier, l uint16, d []byte) bool {
		out = append(out, Item{Key{identOf(t), identOf(r), l}, d})
		return true
	})
	return out
}

// Res is a resource of a case.
type Res struct {
	Key
	D Blob `json:"d"`
}

func modelOf(rs []Res) Model {
	m := Model{}
	for _, r := range rs {
		m[r.Key] = r.D.bytes()
	}
	return m
}

func buildSet(rs []Res) (*winres.ResourceSet, error) {
	s := &winres.ResourceSet{}
	for _, r := range rs {
		if err := s.Set(r.T.w(), r.R.w(), r.L, r.D.bytes()); err != nil {
			return nil, fmt.Errorf("Set%v: %v", r.Key, err)
		}
	}
	return s, nil
}

func setFromModel(m Model) (*winres.ResourceSet, error) {
	s := &winres.ResourceSet{}
	for _, k := range m.keys() {
		if err := s.Set(k.T.w(), k.R.w(), k.L, append([]byte{}, m[k]...)); err != nil {
			return nil, fmt.Errorf("Set%v: %v", k, err)
		}
	}
	return s, nil
}

// Generators of identifiers

var (
	typePool = []Ident{{ID: 10}, {ID: 3}, {ID: 14}, {ID: 1}, {ID: 12}, {ID: 16}, {ID: 24}, {ID: 2}, {ID: 65535}, {Name: "A"}, {Name: "a"}, {Name: "AB"}, {Name: "B"}, {Name: "10"}, {Name: "é"}}
	resPool  = []Ident{{ID: 1}, {ID: 2}, {ID: 3}, {ID: 10}, {ID: 256}, {ID: 65535}, {Name: "A"}, {Name: "a"}, {Name: "AB"}, {Name: "B"}, {Name: "APPICON"}, {Name: "1"}}
	langPool = []uint16{0, 0x409, 0x407, 1, 0x40C, 0xFFFF, 0x1409, 0x100}
)

// genRune avoids NUL, surrogates, and the range U+E000..U+FFFF where UTF-16 and
// code point orders disagree.
func genRune(t *rapid.T) rune {
	switch rapid.IntRange(0, 9).Draw(t, "runeclass") {
	case 0, 1, 2, 3, 4:
		return rune(rapid.IntRange('A', 'z').Draw(t, "rune"))
	case 5, 6:
		return rune(rapid.IntRange(1, 0x7F).Draw(t, "rune"))
	case 7:
		return rune(rapid.IntRange(0x80, 0x7FF).Draw(t, "rune"))
	case 8:
		return rune(rapid.IntRange(0x800, 0xD7FF).Draw(t, "rune"))
	default:
		return rune(rapid.IntRange(0x10000, 0x10FFFF).Draw(t, "rune"))
	}
}

func genString(t *rapid.T, min, max int) string {
	n := rapid.IntRange(min, max).Draw(t, "len")
	var sb strings.Builder
	for i := 0; i < n; i++ {
		sb.WriteRune(genRune(t))
	}
	return sb.String()
}

func genIdent(t *rapid.T, pool []Ident) Ident {
	switch rapid.IntRange(0, 9).Draw(t, "identclass") {
	case 0, 1, 2, 3, 4, 5:
		return rapid.SampledFrom(pool).Draw(t, "pool")
	case 6, 7:
		return Ident{ID: uint16(rapid.IntRange(1, 65535).Draw(t, "id"))}
	case 8:
		return Ident{Name: genString(t, 1, 6)}
	default:
		return Ident{Name: genString(t, 1, 60)}
	}
}

func genLang(t *rapid.T) uint16 {
	if rapid.IntRange(0, 9).Draw(t, "langclass") < 8 {
		return rapid.SampledFrom(langPool).Draw(t, "lang")
	}
	return uint16(rapid.IntRange(0, 65535).Draw(t, "lang"))
}

func genKey(t *rapid.T) Key {
	typ := genIdent(t, typePool)
	if rapid.IntRange(0, 15).Draw(t, "standard") == 7 {
		typ = Ident{ID: uint16(rapid.IntRange(1, 24).Draw(t, "type"))}
	}
	return Key{typ, genIdent(t, resPool), genLang(t)}
}

// genResources draws a list of resources with distinct keys, clustered enough to share types and names.
func genResources(t *rapid.T, max, maxData int) []Res {
	n := rapid.IntRange(0, max).Draw(t, "nres")
	var out []Res
	seen := map[Key]bool{}
	for i := 0; i < n; i++ {
		k := genKey(t)
		if len(out) > 0 {
			prev := out[rapid.IntRange(0, len(out)-1).Draw(t, "near")]
			switch rapid.IntRange(0, 3).Draw(t, "share") {
			case 0: // unrelated
			case 1, 2: // same type
				k.T = prev.T
			case 3: // same resource, other language
				k.T, k.R = prev.T, prev.R
			}
		}
		if seen[k] {
			continue
		}
		seen[k] = true
		out = append(out, Res{k, genBlob(t, maxData)})
	}
	return out
}

// genHugeRes draws resources which take more than 16 MB, so that offsets need their fourth byte.
func genHugeRes(t *rapid.T) []Res {
	out := genResources(t, 6, 300)
	for i, n := 0, rapid.IntRange(1, 2).Draw(t, "nhuge"); i < n; i++ {
		out = append(out, Res{genKey(t), genBlobN(t, rapid.OneOf(rapid.SampledFrom([]int{1<<24 - 1, 1 << 24, 1<<24 + 1}), rapid.IntRange(16_500_000, 18_500_000)).Draw(t, "huge"))})
	}
	return dedupe(append(out, genResources(t, 6, 300)...))
}

// genLargeRes draws sets with hundreds of entries in a directory, long names, or much data.
func genLargeRes(t *rapid.T) []Res {
	var out []Res
	switch rapid.IntRange(0, 4).Draw(t, "large") {
	case 4: // the same data in every language
		d := genBlobN(t, rapid.IntRange(0, 20).Draw(t, "same"))
		ks := make([]Key, rapid.IntRange(1, 3).Draw(t, "nres"))
		for i := range ks {
			ks[i] = genKey(t)
		}
		for i, n := 0, rapid.IntRange(1, 1200).Draw(t, "n"); i < n; i++ {
			k := ks[i%len(ks)]
			k.L = uint16(i)
			out = append(out, Res{k, d})
		}
	case 0, 1:
		n := rapid.OneOf(rapid.SampledFrom([]int{255, 256, 257, 511, 512, 1023, 1024, 1025}), rapid.IntRange(100, 1500)).Draw(t, "n")
		c := BigCase{N: n, T: 1, R: 1, Size: rapid.SampledFrom([]int{1, 2, 9, 40}).Draw(t, "size"), Name: rapid.SampledFrom([]int{0, 1, 4, 8}).Draw(t, "names")}
		switch rapid.IntRange(0, 3).Draw(t, "level") {
		case 0: // many languages
		case 1:
			c.T = n
		case 2:
			c.R = n
		default:
			c.T, c.R = rapid.IntRange(1, 40).Draw(t, "types"), rapid.IntRange(1, 40).Draw(t, "resources")
		}
		out = c.resources()
	case 2:
		out = genResources(t, 4, 300)
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nlong"); i < n; i++ {
			units := rapid.OneOf(rapid.SampledFrom([]int{255, 256, 4095, 4096, 32767, 32768, 65535}), rapid.IntRange(100, 3000), rapid.IntRange(100, 65535)).Draw(t, "units")
			id := Ident{Name: LongName{Runes: rapid.SampledFrom([]string{"abcdefg", "é", "水木", "x\U0001F600y"}).Draw(t, "runes"), Units: units}.name()}
			r := Res{genKey(t), genBlob(t, 300)}
			if rapid.Bool().Draw(t, "istype") {
				r.T = id
			} else {
				r.R = id
			}
			out = append(out, r)
		}
	default:
		out = append(genResources(t, 5, 300), Res{genKey(t), Blob{}})
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nbig"); i < n; i++ {
			out[rapid.IntRange(0, len(out)-1).Draw(t, "bigat")].D = genBlobN(t, rapid.OneOf(
				rapid.SampledFrom([]int{65535, 65536, 65537, 1 << 20, 1<<20 + 3}), rapid.IntRange(60000, 3000000)).Draw(t, "bigdata"))
		}
	}
	return dedupe(out)
}

func u16len(s string) int { return len(utf16.Encode([]rune(s))) }
