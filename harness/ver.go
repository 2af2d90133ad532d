package main

// Version information: serialisable specifications, the reference model, an independent
// strict reader and an independent writer of VS_VERSIONINFO.
// https://learn.microsoft.com/windows/win32/menurc/vs-versioninfo

import (
	"encoding/json"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"
	"unicode/utf16"

	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// KV is a key and its value.
type KV struct {
	K string `json:"k"`
	V string `json:"v"`
}

// VerLang is a table of strings.
type VerLang struct {
	L  uint16 `json:"l"`
	KV []KV   `json:"kv"`
}

// VerSpec describes version information.
type VerSpec struct {
	F     [4]uint16 `json:"f"`
	P     [4]uint16 `json:"p"`
	Flags int       `json:"flags,omitempty"` // bits: debug, prerelease, patched, private, special
	Type  int       `json:"type,omitempty"`
	Time  *VerTime  `json:"time,omitempty"`
	Langs []VerLang `json:"langs"`
	Empty []uint16  `json:"empty,omitempty"` // languages whose table has no string, as a JSON document may have
	Fill  int       `json:"fill,omitempty"`  // pad a value of the last language so that the binary form is within Fill-1 bytes of the limit
}

// VerTime is a time stamp.
type VerTime struct {
	Sec  int64 `json:"s"` // since 1601
	Nano int64 `json:"n"`
	Zone int   `json:"z"` // seconds east of UTC
}

const secTo1970 = 11644473600

func (v *VerTime) time() time.Time {
	if v == nil {
		return time.Time{}
	}
	return time.Unix(v.Sec-secTo1970, v.Nano).In(time.FixedZone("", v.Zone))
}

// VerModel is the reference model of version information.
type VerModel struct {
	F, P  [4]uint16
	Flags int
	Type  int
	Time  time.Time
	T     map[uint16]map[string]string
}

func (s VerSpec) model() VerModel {
	m := VerModel{F: s.F, P: s.P, Flags: s.Flags, Type: s.Type, Time: s.Time.time(), T: map[uint16]map[string]string{}}
	for _, l := range s.Langs {
		for _, kv := range l.KV {
			if m.T[l.L] == nil {
				m.T[l.L] = map[string]string{}
			}
			m.T[l.L][kv.K] = kv.V
		}
	}
	for _, l := range s.Empty {
		if m.T[l] == nil {
			m.T[l] = map[string]string{}
		}
	}
	return m
}

// filledLangs lists languages that have strings.
func (m VerModel) filledLangs() []uint16 {
	var out []uint16
	for _, l := range m.langs() {
		if len(m.T[l]) > 0 {
			out = append(out, l)
		}
	}
	return out
}

func (m VerModel) clone() VerModel {
	t := map[uint16]map[string]string{}
	for l, st := range m.T {
		t[l] = map[string]string{}
		for k, v := range st {
			t[l][k] = v
		}
	}
	m.T = t
	return m
}

func (m VerModel) langs() []uint16 {
	var out []uint16
	for l := range m.T {
		out = append(out, l)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func setFixed(vi *version.Info, m VerModel) {
	vi.FileVersion, vi.ProductVersion = m.F, m.P
	vi.Flags.Debug = m.Flags&1 != 0
	vi.Flags.Prerelease = m.Flags&2 != 0
	vi.Flags.Patched = m.Flags&4 != 0
	vi.Flags.PrivateBuild = m.Flags&8 != 0
	vi.Flags.SpecialBuild = m.Flags&16 != 0
	switch m.Type {
	case 0:
		vi.Type = version.App
	case 1:
		vi.Type = version.DLL
	default:
		vi.Type = version.Unknown
	}
	vi.Timestamp = m.Time
}

func (s VerSpec) info() (*version.Info, error) {
	vi := &version.Info{}
	if len(s.Empty) > 0 {
		var f []string
		for _, l := range s.Empty {
			f = append(f, fmt.Sprintf(`"%04X":{}`, l))
		}
		if err := json.Unmarshal([]byte(`{"info":{`+strings.Join(f, ",")+`}}`), vi); err != nil {
			return nil, err
		}
	}
	setFixed(vi, s.model())
	for _, l := range s.Langs {
		for _, kv := range l.KV {
			if err := vi.Set(l.L, keyArg(kv.K), kv.V); err != nil {
				return nil, fmt.Errorf("Set(%#x, %q): %v", l.L, kv.K, err)
			}
		}
	}
	return vi, nil
}

// observe reads version information through its public fields and methods.
func observeInfo(vi *version.Info) VerModel {
	m := VerModel{F: vi.FileVersion, P: vi.ProductVersion, Time: vi.Timestamp, T: map[uint16]map[string]string{}}
	for i, b := range []bool{vi.Flags.Debug, vi.Flags.Prerelease, vi.Flags.Patched, vi.Flags.PrivateBuild, vi.Flags.SpecialBuild} {
		if b {
			m.Flags |= 1 << i
		}
	}
	switch vi.Type {
	case version.App:
	case version.DLL:
		m.Type = 1
	default:
		m.Type = 2
	}
	for l, st := range vi.Table() {
		if st == nil {
			continue
		}
		m.T[l] = map[string]string{}
		for k, v := range *st {
			m.T[l][k] = v
		}
	}
	return m
}

func sameTables(got, want map[uint16]map[string]string) error {
	norm := func(t map[uint16]map[string]string) map[uint16]map[string]string {
		out := map[uint16]map[string]string{}
		for l, st := range t {
			if len(st) > 0 {
				out[l] = st
			}
		}
		return out
	}
	g, w := norm(got), norm(want)
	if reflect.DeepEqual(g, w) {
		return nil
	}
	for l, st := range w {
		for k, v := range st {
			if gv, ok := g[l][k]; !ok || gv != v {
				return fmt.Errorf("string %q of language %#x is %q (present: %v), want %q", cut(k), l, cut(gv), ok, cut(v))
			}
		}
	}
	for l, st := range g {
		for k := range st {
			if _, ok := w[l][k]; !ok {
				return fmt.Errorf("unexpected string %q of language %#x: %q", cut(k), l, cut(st[k]))
			}
		}
	}
	return fmt.Errorf("tables differ")
}

func cut(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// sameInfo compares; times may differ by less than prec.
func sameInfo(got, want VerModel, prec time.Duration) error {
	switch {
	case got.F != want.F:
		return fmt.Errorf("file version is %v, want %v", got.F, want.F)
	case got.P != want.P:
		return fmt.Errorf("product version is %v, want %v", got.P, want.P)
	case got.Flags != want.Flags:
		return fmt.Errorf("flags are %#x, want %#x", got.Flags, want.Flags)
	case got.Type != want.Type:
		return fmt.Errorf("type is %d, want %d", got.Type, want.Type)
	case got.Time.IsZero() != want.Time.IsZero():
		return fmt.Errorf("time is %v, want %v", got.Time, want.Time)
	}
	ds, dn := got.Time.Unix()-want.Time.Unix(), int64(got.Time.Nanosecond()-want.Time.Nanosecond())
	if ds < -1 || ds > 1 || ds*1e9+dn > int64(prec) || ds*1e9+dn < -int64(prec) {
		return fmt.Errorf("time is %v, want %v", got.Time, want.Time)
	}
	return sameTables(got.T, want.T)
}

// --- Independent reader ---

type vsNode struct {
	key      string
	typ      int
	value    []byte // exactly wValueLength bytes or units
	children []byte
	base     int // offset of children in the whole structure
	end      int
}

func align4(n int) int { return (n + 3) &^ 3 }

// readVSNode reads strictly the node at off.
func readVSNode(b []byte, off, limit int) (*vsNode, error) {
	if off%4 != 0 {
		return nil, fmt.Errorf("node at %#x isn't aligned", off)
	}
	if off+6 > limit {
		return nil, fmt.Errorf("node at %#x is truncated", off)
	}
	length, vlen, typ := int(le.Uint16(b[off:])), int(le.Uint16(b[off+2:])), int(le.Uint16(b[off+4:]))
	end := off + length
	if length < 6 || end > limit {
		return nil, fmt.Errorf("node at %#x has length %#x, %#x left", off, length, limit-off)
	}
	if typ > 1 {
		return nil, fmt.Errorf("node at %#x has type %d", off, typ)
	}
	n := &vsNode{typ: typ, end: end}
	var key []uint16
	p := off + 6
	for ; ; p += 2 {
		if p+2 > end {
			return nil, fmt.Errorf("key of the node at %#x is not terminated", off)
		}
		u := le.Uint16(b[p:])
		if u == 0 {
			p += 2
			break
		}
		key = append(key, u)
	}
	n.key = string(utf16.Decode(key))
	zero := func(to int) error {
		for ; p < to && p < end; p++ {
			if b[p] != 0 {
				return fmt.Errorf("padding at %#x is not null", p)
			}
		}
		return nil
	}
	if err := zero(align4(p)); err != nil {
		return nil, err
	}
	size := vlen
	if typ == 1 {
		size *= 2
	}
	if p+size > end {
		return nil, fmt.Errorf("value of node %q at %#x: %#x bytes from %#x, node ends at %#x", n.key, off, size, p, end)
	}
	n.value = b[p : p+size]
	p += size
	if p < end {
		if err := zero(align4(p)); err != nil {
			return nil, err
		}
	}
	n.base = p
	n.children = b[p:end]
	return n, nil
}

// each calls f for each child.
func (n *vsNode) each(b []byte, f func(*vsNode) error) error {
	for p := n.base; p < n.end; {
		c, err := readVSNode(b, p, n.end)
		if err != nil {
			return err
		}
		if err := f(c); err != nil {
			return err
		}
		p = c.end
		for ; p < align4(c.end) && p < n.end; p++ {
			if b[p] != 0 {
				return fmt.Errorf("padding at %#x is not null", p)
			}
		}
	}
	return nil
}

// parseVS reads a structure strictly, as Windows documents it.
func parseVS(b []byte) (VerModel, error) {
	m := VerModel{T: map[uint16]map[string]string{}}
	root, err := readVSNode(b, 0, len(b))
	if err != nil {
		return m, err
	}
	if root.end != len(b) || root.key != "VS_VERSION_INFO" || root.typ != 0 || len(root.value) != 52 {
		return m, fmt.Errorf("root: key %q, type %d, length %d of %d, value length %d", root.key, root.typ, root.end, len(b), len(root.value))
	}
	var w [13]uint32
	for i := range w {
		w[i] = le.Uint32(root.value[4*i:])
	}
	if w[0] != 0xFEEF04BD || w[1] != 0x10000 {
		return m, fmt.Errorf("fixed part: signature %#x, version %#x", w[0], w[1])
	}
	m.F = [4]uint16{uint16(w[2] >> 16), uint16(w[2]), uint16(w[3] >> 16), uint16(w[3])}
	m.P = [4]uint16{uint16(w[4] >> 16), uint16(w[4]), uint16(w[5] >> 16), uint16(w[5])}
	if w[6] != 0x3F || w[8] != 0x40004 {
		return m, fmt.Errorf("fixed part: mask %#x, OS %#x", w[6], w[8])
	}
	for i, bit := range []uint32{1, 2, 4, 8, 0x20} {
		if w[7]&bit != 0 {
			m.Flags |= 1 << i
			w[7] &^= bit
		}
	}
	if w[7] != 0 || w[9] > 2 || w[10] != 0 {
		return m, fmt.Errorf("fixed part: extra flags %#x, type %d, subtype %d", w[7], w[9], w[10])
	}
	m.Type = []int{2, 0, 1}[w[9]]
	if ft := uint64(w[11])<<32 | uint64(w[12]); ft != 0 {
		m.Time = time.Unix(int64(ft/1e7)-secTo1970, int64(ft%1e7)*100)
	}
	seen := map[string]int{}
	var langs []uint16
	err = root.each(b, func(c *vsNode) error {
		seen[c.key]++
		if len(c.value) != 0 || seen[c.key] > 1 {
			return fmt.Errorf("%q: value of %d bytes, occurrence %d", c.key, len(c.value), seen[c.key])
		}
		switch c.key {
		case "StringFileInfo":
			return c.each(b, func(st *vsNode) error {
				if len(st.key) != 8 || strings.ToLower(st.key[4:]) != "04b0" || len(st.value) != 0 {
					return fmt.Errorf("string table %q, value of %d bytes", st.key, len(st.value))
				}
				var l uint16
				for _, c := range strings.ToLower(st.key[:4]) {
					d := strings.IndexRune("0123456789abcdef", c)
					if d < 0 {
						return fmt.Errorf("string table %q", st.key)
					}
					l = l<<4 | uint16(d)
				}
				if m.T[l] != nil {
					return fmt.Errorf("string table %q occurs twice", st.key)
				}
				m.T[l] = map[string]string{}
				return st.each(b, func(s *vsNode) error {
					if s.typ != 1 || len(s.children) > 0 || s.key == "" {
						return fmt.Errorf("string %q: type %d, %d bytes after the value", s.key, s.typ, len(s.children))
					}
					if _, ok := m.T[l][s.key]; ok {
						return fmt.Errorf("string %q of language %#x occurs twice", s.key, l)
					}
					var u []uint16
					for i := 0; i < len(s.value); i += 2 {
						u = append(u, le.Uint16(s.value[i:]))
					}
					if len(u) == 0 || u[len(u)-1] != 0 {
						return fmt.Errorf("value of string %q is not terminated", s.key)
					}
					u = u[:len(u)-1]
					for _, x := range u {
						if x == 0 {
							return fmt.Errorf("value of string %q contains NUL", s.key)
						}
					}
					m.T[l][s.key] = string(utf16.Decode(u))
					return nil
				})
			})
		case "VarFileInfo":
			return c.each(b, func(v *vsNode) error {
				if v.key != "Translation" || v.typ != 0 || len(v.children) > 0 || len(v.value)%4 != 0 {
					return fmt.Errorf("var %q: type %d, %d bytes after the value of %d bytes", v.key, v.typ, len(v.children), len(v.value))
				}
				for i := 0; i < len(v.value); i += 4 {
					if cp := le.Uint16(v.value[i+2:]); cp != 1200 {
						return fmt.Errorf("translation has code page %d", cp)
					}
					langs = append(langs, le.Uint16(v.value[i:]))
				}
				return nil
			})
		}
		return fmt.Errorf("unknown child %q", c.key)
	})
	if err != nil {
		return m, err
	}
	if len(langs) != len(m.T) {
		return m, fmt.Errorf("translations %#x, string tables %#x", langs, m.langs())
	}
	for i, l := range langs {
		if m.T[l] == nil {
			return m, fmt.Errorf("translation %#x has no string table", l)
		}
		for _, o := range langs[:i] {
			if o == l {
				return m, fmt.Errorf("translation %#x occurs twice", l)
			}
		}
	}
	return m, nil
}

// --- Independent writer ---

// VSLayout is a way to write a structure.
type VSLayout struct {
	VarFirst  bool  `json:"varfirst,omitempty"`
	NoVar     bool  `json:"novar,omitempty"`
	Upper     bool  `json:"upper,omitempty"`
	PadLen    bool  `json:"padlen,omitempty"`    // lengths include the padding that follows
	Empty     int   `json:"empty,omitempty"`     // how empty values are written: 0 as a NUL, 1 nothing with key padding, 2 nothing, without padding
	Types     int   `json:"types,omitempty"`     // type given to StringFileInfo, tables and VarFileInfo
	Tail      int   `json:"tail,omitempty"`      // bytes after the structure
	Reverse   bool  `json:"reverse,omitempty"`   // order of strings and tables
	Tables    []int `json:"tables,omitempty"`    // StringFileInfo holding each table (two are possible)
	NoFixed   bool  `json:"nofixed,omitempty"`   // no fixed part
	FixedBits []int `json:"fixedbits,omitempty"` // other fields: version, mask, OS, subtype
	FixedTail int   `json:"fixedtail,omitempty"` // bytes of the fixed part beyond those that are known
	LastPad   bool  `json:"lastpad,omitempty"`   // the structure's own length is padded
	Nuls      int   `json:"nuls,omitempty"`      // terminators of values: 0 is one, 1 is none, N is N; 4 is one, followed by something else
}

type vsWriter struct {
	b  []byte
	l  VSLayout
	at []int // offsets of nodes
}

func (w *vsWriter) pad() {
	for len(w.b)%4 != 0 {
		w.b = append(w.b, 0)
	}
}

// node writes a node; value has been encoded already, vlen is its declared length.
func (w *vsWriter) node(key string, typ, vlen int, value []byte, noKeyPad bool, children func()) {
	w.pad()
	at := len(w.b)
	w.at = append(w.at, at)
	w.b = append(w.b, 0, 0, byte(vlen), byte(vlen>>8), byte(typ), 0)
	for _, u := range utf16.Encode([]rune(key + "\x00")) {
		w.b = append(w.b, byte(u), byte(u>>8))
	}
	if len(value) > 0 || !noKeyPad {
		w.pad()
	}
	w.b = append(w.b, value...)
	if children != nil {
		children()
	}
	if w.l.PadLen && (at > 0 || w.l.LastPad) {
		w.pad()
	}
	n := len(w.b) - at
	w.b[at], w.b[at+1] = byte(n), byte(n>>8)
	if n > 0xFFFF {
		w.b[at], w.b[at+1] = 0xFF, 0xFF
	}
}

func writeVS(m VerModel, l VSLayout) []byte {
	b, _ := writeVSNodes(m, l)
	return b
}

// writeVSNodes also returns the offsets of nodes.
func writeVSNodes(m VerModel, l VSLayout) ([]byte, []int) {
	w := &vsWriter{l: l}
	var fixed []byte
	if !l.NoFixed {
		var v [13]uint32
		v[0], v[1] = 0xFEEF04BD, 0x10000
		v[2], v[3] = uint32(m.F[0])<<16|uint32(m.F[1]), uint32(m.F[2])<<16|uint32(m.F[3])
		v[4], v[5] = uint32(m.P[0])<<16|uint32(m.P[1]), uint32(m.P[2])<<16|uint32(m.P[3])
		v[6], v[8] = 0x3F, 0x40004
		for i, bit := range []uint32{1, 2, 4, 8, 0x20} {
			if m.Flags&(1<<i) != 0 {
				v[7] |= bit
			}
		}
		v[9] = []uint32{1, 2, 0}[m.Type]
		if len(l.FixedBits) == 4 {
			v[1] = uint32(l.FixedBits[0])
			v[8] = uint32(l.FixedBits[1])
			v[10] = uint32(l.FixedBits[2])
			if m.Type == 2 {
				v[9] = []uint32{0, 3, 4, 5, 7}[l.FixedBits[3]%5]
			}
		}
		if !m.Time.IsZero() {
			ft := uint64(m.Time.Unix()+secTo1970)*1e7 + uint64(m.Time.Nanosecond()/100)
			v[11], v[12] = uint32(ft>>32), uint32(ft)
		}
		fixed = make([]byte, 52)
		for i, x := range v {
			le.PutUint32(fixed[4*i:], x)
		}
		fixed = append(fixed, Blob{N: l.FixedTail, K: 4, S: 1}.bytes()...)
	}
	langs := m.langs()
	if l.Reverse {
		for i, j := 0, len(langs)-1; i < j; i, j = i+1, j-1 {
			langs[i], langs[j] = langs[j], langs[i]
		}
	}
	sfi := func(part int) {
		w.node("StringFileInfo", l.Types, 0, nil, false, func() {
			for i, lang := range langs {
				in := 0
				if i < len(l.Tables) {
					in = l.Tables[i]
				}
				if part >= 0 && in != part {
					continue
				}
				key := fmt.Sprintf("%04x04b0", lang)
				if l.Upper {
					key = strings.ToUpper(key)
				}
				var ks []string
				for k := range m.T[lang] {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				if l.Reverse {
					sort.Sort(sort.Reverse(sort.StringSlice(ks)))
				}
				w.node(key, l.Types, 0, nil, false, func() {
					for _, k := range ks {
						v := m.T[lang][k]
						u := utf16.Encode([]rune(v + "\x00"))
						if v == "" && l.Empty > 0 {
							u = nil
						} else if l.Nuls == 1 && v != "" {
							u = u[:len(u)-1]
						} else if l.Nuls == 4 {
							u = append(u, 'x', 0x20, 'y', 0) // left over after the end of the text
						} else if l.Nuls > 1 {
							u = append(u, make([]uint16, l.Nuls-1)...)
						}
						var d []byte
						for _, x := range u {
							d = append(d, byte(x), byte(x>>8))
						}
						w.node(k, 1, len(u), d, l.Empty == 2, nil)
					}
				})
			}
		})
	}
	vfi := func() {
		if l.NoVar {
			return
		}
		w.node("VarFileInfo", l.Types, 0, nil, false, func() {
			var d []byte
			for _, lang := range langs {
				d = append(d, byte(lang), byte(lang>>8), 0xB0, 0x04)
			}
			w.node("Translation", 0, len(d), d, false, nil)
		})
	}
	w.node("VS_VERSION_INFO", 0, len(fixed), fixed, false, func() {
		if l.VarFirst {
			vfi()
		}
		if len(l.Tables) > 0 {
			sfi(0)
			sfi(1)
		} else if len(langs) > 0 || len(l.FixedBits) == 0 {
			sfi(-1)
		}
		if !l.VarFirst {
			vfi()
		}
	})
	return append(w.b, make([]byte, l.Tail)...), w.at
}

// sizeVS is the size of the usual binary form.
func sizeVS(m VerModel) int { return len(writeVS(m, VSLayout{})) }

// --- Generators ---

var stdKeys = []string{"Comments", "CompanyName", "FileDescription", "FileVersion", "InternalName", "LegalCopyright",
	"LegalTrademarks", "OriginalFilename", "PrivateBuild", "ProductName", "ProductVersion", "SpecialBuild"}

// keyConstants are the exported constants, indexed by the key that Windows looks for.
var keyConstants = map[string]string{
	"Comments": version.Comments, "CompanyName": version.CompanyName, "FileDescription": version.FileDescription, "FileVersion": version.FileVersion,
	"InternalName": version.InternalName, "LegalCopyright": version.LegalCopyright, "LegalTrademarks": version.LegalTrademarks,
	"OriginalFilename": version.OriginalFilename, "PrivateBuild": version.PrivateBuild, "ProductName": version.ProductName,
	"ProductVersion": version.ProductVersion, "SpecialBuild": version.SpecialBuild,
}

// keyArg is the key as a user would pass it to Set.
func keyArg(k string) string {
	if c, ok := keyConstants[k]; ok {
		return c
	}
	return k
}

func validText(s string) string {
	return strings.Map(func(r rune) rune {
		if r == 0 || r >= 0xD800 && r < 0xE000 {
			return -1
		}
		return r
	}, strings.ToValidUTF8(s, "?"))
}

var someRunes = []rune("aAzZ09 _-.\"'&<>\\/\t\n\r\x01\x1f\x7f\u0080\u00e9\u00df\u0416\u4e2d\u200b\u2028\ufeff\uffff\ufffd\U0001F600\U0010FFFF\U00010000")

func genVerText(t *rapid.T, max int) string {
	return rapid.OneOf(
		rapid.StringOfN(rapid.SampledFrom(someRunes), 0, max, -1),
		rapid.StringN(0, max, -1),
		rapid.StringOfN(rapid.RuneFrom([]rune("abcdefghijklmnopqrstuvwxyz ")), 0, max, -1),
	).Draw(t, "text")
}

func genVerKey(t *rapid.T) string {
	if rapid.IntRange(0, 2).Draw(t, "std") > 0 {
		return rapid.SampledFrom(stdKeys).Draw(t, "key")
	}
	if rapid.IntRange(0, 9).Draw(t, "structural") == 0 {
		return rapid.SampledFrom([]string{"VS_VERSION_INFO", "StringFileInfo", "VarFileInfo", "Translation", "040904b0", "key", "Key", "KEY"}).Draw(t, "key")
	}
	k := validText(genVerText(t, 12))
	if k == "" {
		k = "k"
	}
	return k
}

var someLangs = []uint16{0, 0, 0x409, 0x409, 0x40C, 0x407, 1, 9, 0x400, 0x408, 0x40A, 0x7F, 0x800, 0x7FFF, 0x8000, 0xFFFE, 0xFFFF, 0xABCD}

func genVerLang(t *rapid.T) uint16 {
	if rapid.IntRange(0, 4).Draw(t, "anylang") == 0 {
		return rapid.Uint16().Draw(t, "lang")
	}
	return rapid.SampledFrom(someLangs).Draw(t, "lang")
}

func genVerNumbers(t *rapid.T) [4]uint16 {
	var v [4]uint16
	if rapid.IntRange(0, 3).Draw(t, "zero version") == 0 {
		return v
	}
	for i := range v {
		v[i] = rapid.OneOf(rapid.SampledFrom([]uint16{0, 0, 1, 9, 10, 255, 256, 0x7FFF, 0x8000, 0xFFFF}), rapid.Uint16()).Draw(t, "part")
	}
	return v
}

// maxFileTime is the number of seconds a FILETIME holds.
const maxFileTime = (1<<64 - 1) / 10000000

func genVerTime(t *rapid.T, maxSec int64) *VerTime {
	v := &VerTime{}
	const day = 86400
	switch rapid.IntRange(0, 5).Draw(t, "timeclass") {
	case 0:
		return nil
	case 1, 2:
		v.Sec = secTo1970 + rapid.Int64Range(0, 4e9).Draw(t, "sec")
	case 3:
		v.Sec = rapid.Int64Range(1, maxSec-1).Draw(t, "sec")
	case 4: // boundaries: 1970, limits of UnixNano (1677, 2262), 32 and 63 bits, 1601
		v.Sec = rapid.SampledFrom([]int64{secTo1970, secTo1970 - 9223372036, secTo1970 + 9223372036, secTo1970 + 1<<31, 429, 430, 1 << 20, 922337203685, maxFileTime - 1, maxSec - 1}).Draw(t, "boundary") + rapid.Int64Range(-2, 2).Draw(t, "delta")
	default:
		v.Sec = secTo1970 - rapid.Int64Range(0, 1e10).Draw(t, "sec")
	}
	if v.Sec > maxSec-1 {
		v.Sec = maxSec - 1
	}
	if v.Sec < 1 {
		v.Sec = 1
	}
	v.Nano = rapid.OneOf(rapid.SampledFrom([]int64{0, 1, 99, 100, 150, 999999999, 999999900}), rapid.Int64Range(0, 999999999)).Draw(t, "nano")
	v.Zone = rapid.SampledFrom([]int{0, 0, 3600, -3600, 12600, -43200, 14 * 3600, 86340, -86340, 561, -30}).Draw(t, "zone")
	return v
}

type verGenOpts struct {
	maxLangs, maxKeys int
	fill, empty       bool
	maxSec            int64
}

func genVer(t *rapid.T, o verGenOpts) VerSpec {
	if o.maxSec == 0 {
		o.maxSec = maxFileTime
	}
	s := VerSpec{F: genVerNumbers(t), P: genVerNumbers(t), Flags: rapid.IntRange(0, 31).Draw(t, "flags"), Type: rapid.IntRange(0, 2).Draw(t, "type")}
	if rapid.IntRange(0, 2).Draw(t, "no flags") == 0 {
		s.Flags = 0
	}
	s.Time = genVerTime(t, o.maxSec)
	n := rapid.IntRange(0, o.maxLangs).Draw(t, "nlangs")
	for i := 0; i < n; i++ {
		l := VerLang{L: genVerLang(t)}
		for j, m := 0, rapid.IntRange(1, o.maxKeys).Draw(t, "nkeys"); j < m; j++ {
			max := 20
			if rapid.IntRange(0, 40).Draw(t, "long") == 0 {
				max = 3000
			}
			l.KV = append(l.KV, KV{genVerKey(t), validText(genVerText(t, max))})
		}
		s.Langs = append(s.Langs, l)
	}
	if rapid.IntRange(0, 149).Draw(t, "large") == 149 {
		s.enlarge(t)
	}
	if o.empty && rapid.IntRange(0, 4).Draw(t, "empty") == 0 {
		for i, n := 0, rapid.IntRange(1, 3).Draw(t, "nempty"); i < n; i++ {
			s.Empty = append(s.Empty, genVerLang(t))
		}
	}
	if o.fill && n > 0 && rapid.IntRange(0, 60).Draw(t, "fill") == 0 {
		s.Fill = rapid.IntRange(1, 4).Draw(t, "below")
	}
	return s.filled()
}

// enlarge adds many languages, many strings or a long string.
func (s *VerSpec) enlarge(t *rapid.T) {
	if len(s.Langs) == 0 {
		s.Langs = append(s.Langs, VerLang{L: genVerLang(t)})
	}
	switch n := rapid.OneOf(rapid.SampledFrom([]int{16, 17, 31, 32, 33, 64, 127, 128, 129, 255, 256, 257}), rapid.IntRange(10, 400)).Draw(t, "many"); rapid.IntRange(0, 3).Draw(t, "what") {
	case 0, 1:
		first := rapid.SampledFrom([]int{0, 1, 0x3F0, 0x409, 0xFF00}).Draw(t, "first")
		step := rapid.SampledFrom([]int{1, 1, 0x400, 0x101, 7919}).Draw(t, "step")
		for i := 0; i < n; i++ {
			s.Langs = append(s.Langs, VerLang{L: uint16(first + i*step), KV: []KV{{[]string{"k", "ProductName", "FileVersion"}[i%3], fmt.Sprint("v", i)}}})
		}
	case 2:
		l := &s.Langs[rapid.IntRange(0, len(s.Langs)-1).Draw(t, "at")]
		for i := 0; i < n; i++ {
			l.KV = append(l.KV, KV{fmt.Sprintf("k%d", i*7919%10007), fmt.Sprint("v", i)})
		}
	default:
		l := &s.Langs[rapid.IntRange(0, len(s.Langs)-1).Draw(t, "at")]
		units := rapid.OneOf(rapid.SampledFrom([]int{255, 256, 1023, 1024, 4095, 4096, 8191, 8192, 16383, 16384, 16385, 31000}), rapid.IntRange(200, 32000)).Draw(t, "units")
		x := LongName{Runes: rapid.SampledFrom([]string{"abcdefg", "é", "水木", "x\U0001F600y", "a\"\\\n"}).Draw(t, "runes"), Units: units}.name()
		kv := KV{"ProductName", x}
		if rapid.IntRange(0, 2).Draw(t, "longkey") == 0 {
			kv = KV{x, "v"}
		}
		l.KV = append(l.KV, kv)
	}
}

// filled makes the binary form reach the limit if the case says so; it never exceeds it.
func (s VerSpec) filled() VerSpec {
	if s.Fill == 0 {
		return s
	}
	last := &s.Langs[len(s.Langs)-1]
	last.KV = append(last.KV, KV{"\uffff fill", ""})
	n := 65535 - s.Fill + 1 - sizeVS(s.model())
	if n > 1 {
		last.KV[len(last.KV)-1].V = strings.Repeat("x", n/2)
		for v := &last.KV[len(last.KV)-1].V; sizeVS(s.model()) > 65535; {
			*v = (*v)[1:]
		}
	}
	s.Fill = 0
	return s
}
