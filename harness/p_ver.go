package main

// C15, C16, C17 (version information) and the version facets of C03.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

func labelVer(r *Rec, m VerModel) {
	n := 0
	for _, st := range m.T {
		n += len(st)
	}
	r.LabelIf(len(m.T) == 0, "no strings")
	r.LabelIf(len(m.filledLangs()) < len(m.T), "empty table")
	r.LabelIf(len(m.T) > 1, "several languages")
	r.LabelIf(m.Time.IsZero(), "no time")
	y := m.Time.Year()
	r.LabelIf(!m.Time.IsZero() && (y < 1678 || y > 2261), "time out of the range of UnixNano")
	if n >= 2 && (m.F != [4]uint16{} || m.P != [4]uint16{}) {
		r.NonTrivial()
	}
}

// --- C15 ---

func runVerBinary(s VerSpec, r *Rec) error {
	m := s.model()
	labelVer(r, m)
	if n := sizeVS(m); n > 65535 {
		return nil
	} else if n > 65500 {
		r.Label("binary form near 64 KB")
	}
	vi, err := s.info()
	if err != nil {
		return err
	}
	b := vi.Bytes()
	if err := sameInfo(observeInfo(vi), m, 0); err != nil {
		return fmt.Errorf("after Bytes: %v", err)
	}
	got, err := parseVS(b)
	if err != nil {
		return fmt.Errorf("binary form: %v", err)
	}
	if err := sameInfo(got, m, 99); err != nil {
		return fmt.Errorf("binary form: %v", err)
	}
	if !reflect.DeepEqual(got.langs(), m.langs()) {
		return fmt.Errorf("binary form has tables %#x, want %#x", got.langs(), m.langs())
	}
	orig := append([]byte{}, b...)
	back, err := version.FromBytes(b)
	if err != nil {
		return fmt.Errorf("FromBytes: %v", err)
	}
	if err := sameInfo(observeInfo(back), m, 99); err != nil {
		return fmt.Errorf("decoded: %v", err)
	}
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("FromBytes changed its input")
	}
	if again := back.Bytes(); !bytes.Equal(again, b) {
		return fmt.Errorf("encoding what was decoded differs: %s", diffBytes(again, b))
	}
	for i := range b { // the decoded value must not alias its input
		b[i] = 0xAA
	}
	if err := sameInfo(observeInfo(back), m, 99); err != nil {
		return fmt.Errorf("decoded, after its input was overwritten: %v", err)
	}
	return nil
}

// ForeignVer is version information in another layout.
type ForeignVer struct {
	V VerSpec  `json:"v"`
	L VSLayout `json:"l"`
}

func genVSLayout(t *rapid.T, nlangs int) VSLayout {
	b := func(n string) bool { return rapid.IntRange(0, 2).Draw(t, n) == 0 }
	l := VSLayout{VarFirst: b("varfirst"), NoVar: b("novar"), Upper: b("upper"), PadLen: b("padlen"), LastPad: b("lastpad"), Reverse: b("reverse"), NoFixed: rapid.IntRange(0, 9).Draw(t, "nofixed") == 0}
	if rapid.IntRange(0, 9).Draw(t, "fixedtail") == 0 {
		l.FixedTail = 4 * rapid.IntRange(1, 6).Draw(t, "fixedtailn")
	}
	l.Empty = rapid.IntRange(0, 2).Draw(t, "empty")
	l.Types = rapid.IntRange(0, 1).Draw(t, "types")
	l.Tail = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 4, 16, 100}).Draw(t, "tail")
	l.Nuls = rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2, 3, 4}).Draw(t, "nuls")
	if b("two blocks") {
		for i := 0; i < nlangs; i++ {
			l.Tables = append(l.Tables, rapid.IntRange(0, 1).Draw(t, "block"))
		}
	}
	if b("fixed bits") {
		l.FixedBits = []int{rapid.SampledFrom([]int{0x10000, 0, 0x20000}).Draw(t, "struc"), rapid.SampledFrom([]int{0, 4, 0x40000, 0x10001}).Draw(t, "os"), rapid.IntRange(0, 12).Draw(t, "subtype"), rapid.IntRange(0, 4).Draw(t, "type")}
	}
	return l
}

func runVerForeign(c ForeignVer, r *Rec) error {
	m := c.V.model()
	labelVer(r, m)
	b := writeVS(m, c.L)
	if len(b) > 65535 {
		return nil
	}
	if c.L.NoFixed {
		m.F, m.P, m.Flags, m.Type, m.Time = [4]uint16{}, [4]uint16{}, 0, 0, time.Time{}
	}
	vi, err := version.FromBytes(b)
	if err != nil {
		return fmt.Errorf("FromBytes: %v", err)
	}
	return sameInfo(observeInfo(vi), m, 99)
}

// --- C16 ---

func runVerJSON(s VerSpec, r *Rec) error {
	m := s.model()
	labelVer(r, m)
	vi, err := s.info()
	if err != nil {
		return err
	}
	b, err := json.Marshal(vi)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	if err := sameInfo(observeInfo(vi), m, 0); err != nil {
		return fmt.Errorf("after Marshal: %v", err)
	}
	// an independent look at the strings
	var doc struct {
		Fixed map[string]string            `json:"fixed"`
		Info  map[string]map[string]string `json:"info"`
	}
	if err := json.Unmarshal(b, &doc); err != nil {
		return fmt.Errorf("document: %v", err)
	}
	t := map[uint16]map[string]string{}
	for h, st := range doc.Info {
		l, err := strconv.ParseUint(h, 16, 16)
		if err != nil || len(h) != 4 {
			return fmt.Errorf("language %q isn't four hexadecimal digits", h)
		}
		t[uint16(l)] = st
	}
	if len(t) != len(doc.Info) {
		return fmt.Errorf("a language occurs twice")
	}
	if err := sameTables(t, m.T); err != nil {
		return fmt.Errorf("document: %v", err)
	}
	for k, v := range map[string][4]uint16{"file_version": m.F, "product_version": m.P} {
		want := fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3])
		if got, ok := doc.Fixed[k]; got != want && (ok || v != [4]uint16{}) {
			return fmt.Errorf("document: %s is %q, want %q", k, got, want)
		}
	}
	// previous content must vanish
	back := &version.Info{FileVersion: [4]uint16{1, 2, 3, 4}, ProductVersion: [4]uint16{5, 6, 7, 8}, Type: version.DLL, Timestamp: time.Unix(1e9, 0)}
	back.Flags.Debug, back.Flags.SpecialBuild, back.Flags.Prerelease, back.Flags.Patched, back.Flags.PrivateBuild = true, true, true, true, true
	back.Set(0x409, "old", "old")
	back.Set(0x999, version.ProductName, "old")
	fresh := &version.Info{}
	var indented bytes.Buffer
	if err := json.Indent(&indented, b, "\t", "  "); err != nil {
		return err
	}
	if err := json.Unmarshal(b, back); err != nil {
		return fmt.Errorf("Unmarshal: %v", err)
	}
	if err := json.Unmarshal(indented.Bytes(), fresh); err != nil {
		return fmt.Errorf("Unmarshal: %v", err)
	}
	if err := sameInfo(observeInfo(back), m, 0); err != nil {
		return fmt.Errorf("decoded over another one: %v", err)
	}
	if err := sameInfo(observeInfo(fresh), m, 0); err != nil {
		return fmt.Errorf("decoded: %v", err)
	}
	if again, err := json.Marshal(fresh); err != nil || !bytes.Equal(again, b) {
		return fmt.Errorf("encoding what was decoded differs (%v): %s, want %s", err, cut(string(again)), cut(string(b)))
	}
	return nil
}

// VerDoc is a hand-written document.
type VerDoc struct {
	V      VerSpec  `json:"v"`
	Parts  [2]int   `json:"parts"` // number of parts written of each version; 0: absent
	Flags  []string `json:"flags"` // as written
	Sep    string   `json:"sep"`
	NoFlag bool     `json:"noflags,omitempty"`
	Type   string   `json:"type"` // as written
	Order  int64    `json:"order"`
	Lower  bool     `json:"lower,omitempty"`
	Extra  bool     `json:"extra,omitempty"`
	Space  string   `json:"space,omitempty"`
	Escape bool     `json:"escape,omitempty"`
	Omit   int      `json:"omit,omitempty"` // bit 0: fixed, bit 1: info
}

var flagNames = []string{"Debug", "Prerelease", "Patched", "PrivateBuild", "SpecialBuild"}

func genCase(t *rapid.T, s string) string {
	switch rapid.IntRange(0, 3).Draw(t, "case") {
	case 0:
		return strings.ToLower(s)
	case 1:
		return strings.ToUpper(s)
	case 2:
		return s
	}
	var b strings.Builder
	for _, c := range s {
		if rapid.Bool().Draw(t, "upper") {
			b.WriteString(strings.ToUpper(string(c)))
		} else {
			b.WriteString(strings.ToLower(string(c)))
		}
	}
	return b.String()
}

func genVerDoc(t *rapid.T) VerDoc {
	c := VerDoc{V: genVer(t, verGenOpts{maxLangs: 3, maxKeys: 4, maxSec: secTo1970 + 253402300799 - 2*86400})}
	for i := range c.Parts {
		c.Parts[i] = rapid.IntRange(0, 4).Draw(t, "parts")
	}
	for i, n := range flagNames {
		if c.V.Flags&(1<<i) != 0 {
			c.Flags = append(c.Flags, genCase(t, n))
		}
	}
	if len(c.Flags) > 1 {
		c.Flags = rapid.Permutation(c.Flags).Draw(t, "order")
	}
	c.Sep = rapid.SampledFrom([]string{",", ", ", " ,", " ", "|", " | ", ";"}).Draw(t, "sep")
	c.Type = genCase(t, []string{rapid.SampledFrom([]string{"app", ""}).Draw(t, "app"), "DLL", rapid.SampledFrom([]string{"Unknown", "driver", "font"}).Draw(t, "unknown")}[c.V.Type])
	c.Order = int64(rapid.IntRange(0, 1000).Draw(t, "keyorder"))
	c.Lower, c.Extra, c.Escape = rapid.Bool().Draw(t, "lower"), rapid.Bool().Draw(t, "extra"), rapid.Bool().Draw(t, "escape")
	c.Space = rapid.SampledFrom([]string{"", " ", "\n\t", "\r\n  "}).Draw(t, "space")
	c.Omit = rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3}).Draw(t, "omit")
	return c
}

// document writes JSON by hand.
func (c VerDoc) document() (string, VerModel) {
	m := c.V.model()
	str := func(s string) string {
		var b strings.Builder
		b.WriteByte('"')
		for _, r := range s {
			switch {
			case r == '"' || r == '\\':
				b.WriteByte('\\')
				b.WriteRune(r)
			case r == '\n':
				b.WriteString(`\n`)
			case r < 0x20 || c.Escape && r < 0x10000 && r >= 0x7F:
				fmt.Fprintf(&b, `\u%04x`, r)
			case c.Escape && r >= 0x10000:
				fmt.Fprintf(&b, `\u%04X\u%04X`, 0xD800+(r-0x10000)>>10, 0xDC00+(r-0x10000)&0x3FF)
			default:
				b.WriteRune(r)
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	rnd := rand.New(rand.NewSource(c.Order))
	obj := func(fields []string) string {
		rnd.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
		return "{" + c.Space + strings.Join(fields, c.Space+","+c.Space) + c.Space + "}"
	}
	field := func(k, v string) string { return str(k) + c.Space + ":" + c.Space + v }
	var fixed, info []string
	ver := func(name string, v *[4]uint16, n int) {
		var p []string
		for i := 0; i < n; i++ {
			p = append(p, fmt.Sprint(v[i]))
		}
		for i := n; i < 4; i++ {
			v[i] = 0
		}
		if n > 0 {
			fixed = append(fixed, field(name, str(strings.Join(p, "."))))
		}
	}
	ver("file_version", &m.F, c.Parts[0])
	ver("product_version", &m.P, c.Parts[1])
	if len(c.Flags) > 0 || c.Order%2 == 0 {
		fixed = append(fixed, field("flags", str(strings.Join(c.Flags, c.Sep))))
	}
	if c.Type != "" || c.Order%3 == 0 {
		fixed = append(fixed, field("type", str(c.Type)))
	}
	if !m.Time.IsZero() {
		if m.Time.Location() != time.UTC && c.V.Time.Zone%60 != 0 {
			m.Time = m.Time.UTC()
		}
		fixed = append(fixed, field("timestamp", str(m.Time.Format(time.RFC3339Nano))))
	}
	for _, l := range m.langs() {
		var st []string
		for k, v := range m.T[l] {
			st = append(st, field(k, str(v)))
		}
		sort.Strings(st)
		h := fmt.Sprintf("%04X", l)
		if c.Order%5 == 0 {
			h = fmt.Sprintf("%X", l)
		}
		if c.Lower {
			h = strings.ToLower(h)
		}
		info = append(info, field(h, obj(st)))
	}
	var doc []string
	if c.Extra {
		fixed = append(fixed, field("other", "[1, {}]"))
		doc = append(doc, field("comment", str("hello")))
		// These are not languages
		not := []string{"lang", "", "Zz", "é", "-", "xyz 0409", " ", "_", "10409", "10000", "FFFFF", "123456789abcdef01"}[c.Order%12]
		info = append(info, field(not, obj([]string{field("ProductName", str("not in a language"))})))
		if m.T[0x499] == nil {
			info = append(info, field("0499", []string{"null", "{}"}[c.Order/2%2]))
		}
		if c.Omit&1 != 0 && c.Order%4 < 2 {
			doc = append(doc, field("fixed", "null"))
		}
		if c.Omit&2 != 0 && c.Order%3 < 2 {
			doc = append(doc, field("info", "null"))
		}
		for i, n := range []string{"file_version", "product_version"} {
			if c.Parts[i] == 0 && c.Order%3 == 0 {
				fixed = append(fixed, field(n, "null"))
			}
		}
		if m.Time.IsZero() {
			fixed = append(fixed, field("timestamp", "null"))
		}
	}
	if c.Omit&1 == 0 {
		doc = append(doc, field("fixed", obj(fixed)))
	} else {
		m.F, m.P, m.Flags, m.Type, m.Time = [4]uint16{}, [4]uint16{}, 0, 0, time.Time{}
	}
	if c.Omit&2 == 0 {
		doc = append(doc, field("info", obj(info)))
	} else {
		m.T = nil
	}
	return c.Space + obj(doc) + c.Space, m
}

func runVerDoc(c VerDoc, r *Rec) error {
	doc, m := c.document()
	labelVer(r, m)
	if !json.Valid([]byte(doc)) {
		return harnessf("invalid document %s", doc)
	}
	vi := &version.Info{ProductVersion: [4]uint16{1, 1, 1, 1}}
	vi.Set(1, "old", "old")
	if err := json.Unmarshal([]byte(doc), vi); err != nil {
		return fmt.Errorf("Unmarshal: %v", err)
	}
	if err := sameInfo(observeInfo(vi), m, 0); err != nil {
		return fmt.Errorf("%v\n%s", err, cut(doc))
	}
	return nil
}

// --- C17 ---

// splitModel is what splitting must give.
func splitModel(m VerModel) map[uint16]VerModel {
	out := map[uint16]VerModel{}
	for _, l := range m.langs() {
		st := map[string]string{}
		add := func(from uint16) {
			for k, v := range m.T[from] {
				if _, ok := st[k]; !ok {
					st[k] = v
				}
			}
		}
		add(l)
		add(0)
		add(0x409)
		for _, o := range m.langs() {
			add(o)
		}
		s := m
		s.T = map[uint16]map[string]string{l: st}
		out[l] = s
	}
	return out
}

func checkSplit(split map[uint16]*version.Info, m VerModel) error {
	want := splitModel(m)
	if len(split) != len(want) {
		return fmt.Errorf("%d entries, want %d", len(split), len(want))
	}
	for l, w := range want {
		vi := split[l]
		if vi == nil {
			return fmt.Errorf("language %#x is missing", l)
		}
		g := observeInfo(vi)
		if !reflect.DeepEqual(g.filledLangs(), w.filledLangs()) {
			return fmt.Errorf("entry %#x has languages %#x", l, g.langs())
		}
		if err := sameInfo(g, w, 0); err != nil {
			return fmt.Errorf("entry %#x: %v", l, err)
		}
	}
	return nil
}

func runSplit(s VerSpec, r *Rec) error {
	m := s.model()
	labelVer(r, m)
	vi, err := s.info()
	if err != nil {
		return err
	}
	split := vi.SplitTranslations()
	if err := checkSplit(split, m); err != nil {
		return fmt.Errorf("SplitTranslations: %v", err)
	}
	merged := version.MergeTranslations(split)
	g := observeInfo(merged)
	for l, st := range m.T {
		for k, v := range st {
			if got, ok := g.T[l][k]; !ok || got != v {
				return fmt.Errorf("after merging the split, %q of %#x is %q, want %q", k, l, got, v)
			}
		}
	}
	if len(m.T) > 0 {
		w := g
		w.F, w.P, w.Flags, w.Type, w.Time = m.F, m.P, m.Flags, m.Type, m.Time
		if err := sameInfo(g, w, 0); err != nil {
			return fmt.Errorf("after merging the split: %v", err)
		}
	}
	rest := splitModel(m)
	for l, st := range g.T {
		if !reflect.DeepEqual(st, rest[l].T[l]) {
			return fmt.Errorf("merging the split gives other strings for %#x", l)
		}
	}
	// entries are independent of the source and of each other
	var entries []int
	for l := range split {
		entries = append(entries, int(l))
	}
	sort.Ints(entries)
	for i := 0; i < len(entries) && i < 8; i++ {
		l := uint16(entries[i*7%len(entries)])
		e := split[l]
		if e == nil {
			continue // done already
		}
		e.Set(l, version.ProductName, "changed")
		e.Set(l, "new key", "changed")
		e.Set(l+1, "new key", "changed")
		e.FileVersion[0]++
		if err := sameInfo(observeInfo(vi), m, 0); err != nil {
			return fmt.Errorf("changing an entry changed the source: %v", err)
		}
		delete(split, l)
		for o, x := range split {
			if err := sameInfo(observeInfo(x), rest[o], 0); err != nil {
				return fmt.Errorf("changing entry %#x changed entry %#x: %v", l, o, err)
			}
		}
	}
	if err := sameInfo(observeInfo(merged), g, 0); err != nil {
		return fmt.Errorf("changing an entry changed the merged info: %v", err)
	}
	return nil
}

// MergeCase is a map of infos.
type MergeCase struct {
	E []MergeEntry `json:"e"`
}

// MergeEntry is one of them.
type MergeEntry struct {
	L   uint16  `json:"l"`
	V   VerSpec `json:"v"`
	Nil bool    `json:"nil,omitempty"`
}

func genMerge(t *rapid.T) MergeCase {
	var c MergeCase
	seen := map[uint16]bool{}
	for i, n := 0, rapid.IntRange(0, 5).Draw(t, "n"); i < n; i++ {
		e := MergeEntry{L: genVerLang(t), V: genVer(t, verGenOpts{maxLangs: 3, maxKeys: 3, empty: true})}
		if seen[e.L] {
			continue
		}
		seen[e.L] = true
		if len(e.V.Empty) > 0 && rapid.Bool().Draw(t, "ownempty") {
			e.V.Empty[0] = e.L
		}
		if len(e.V.Langs) > 0 && rapid.Bool().Draw(t, "own") {
			e.V.Langs[0].L = e.L
		}
		if rapid.IntRange(0, 19).Draw(t, "nil") == 0 {
			e = MergeEntry{L: e.L, Nil: true}
		}
		c.E = append(c.E, e)
	}
	return c
}

func runMerge(c MergeCase, r *Rec) error {
	in := map[uint16]*version.Info{}
	models := map[uint16]VerModel{}
	for _, e := range c.E {
		if e.Nil {
			in[e.L] = nil
			r.Label("nil entry")
			continue
		}
		vi, err := e.V.info()
		if err != nil {
			return err
		}
		in[e.L] = vi
		models[e.L] = e.V.model()
	}
	var want VerModel
	var ls []uint16
	for l := range models {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool { return ls[i] < ls[j] })
	if len(ls) > 0 {
		main := ls[0]
		if _, ok := models[0x409]; ok && main != 0 {
			main = 0x409
		}
		want = models[main]
	}
	want.T = map[uint16]map[string]string{}
	for l, m := range models {
		switch {
		case len(m.T[l]) > 0:
			want.T[l] = m.T[l]
			r.Label("own table")
		case len(m.T[0]) > 0:
			want.T[l] = m.T[0]
			r.Label("neutral table")
		case len(m.filledLangs()) == 1:
			want.T[l] = m.T[m.filledLangs()[0]]
			r.Label("only table")
		case len(m.filledLangs()) > 1:
			r.Label("ambiguous tables are ignored")
		}
	}
	got := version.MergeTranslations(in)
	if err := sameInfo(observeInfo(got), want, 0); err != nil {
		return fmt.Errorf("MergeTranslations: %v", err)
	}
	for l, m := range models {
		if err := sameInfo(observeInfo(in[l]), m, 0); err != nil {
			return fmt.Errorf("MergeTranslations changed entry %#x: %v", l, err)
		}
	}
	// independence
	for l, vi := range in {
		if vi != nil {
			vi.Set(l, "new", "new")
			vi.SetProductVersion("9.9")
		}
	}
	if err := sameInfo(observeInfo(got), want, 0); err != nil {
		return fmt.Errorf("changing an entry changed the merged info: %v", err)
	}
	if len(c.E) > 1 {
		r.NonTrivial()
	}
	return nil
}

// VerOp is an edit.
type VerOp struct {
	O string `json:"o"`
	L uint16 `json:"l,omitempty"`
	K string `json:"k,omitempty"`
	V string `json:"v,omitempty"`
}

// EditCase is a history of edits.
type EditCase struct {
	V    VerSpec `json:"v"`
	From string  `json:"from,omitempty"` // how it starts: as it is, "bytes", "json", "split"
	Ops  []VerOp `json:"ops"`
}

func genVersionString(t *rapid.T) string {
	s := rapid.SampledFrom([]string{"", "", "", "v", "V ", "go", "version: ", "é", "r-", "."}).Draw(t, "prefix")
	n := rapid.IntRange(0, 6).Draw(t, "nparts")
	for i := 0; i < n; i++ {
		if i > 0 {
			s += "."
		}
		p := rapid.OneOf(rapid.SampledFrom([]int{0, 1, 9, 10, 19, 99, 100, 32767, 32768, 65534, 65535}), rapid.IntRange(0, 65535)).Draw(t, "part")
		if rapid.IntRange(0, 9).Draw(t, "zeroes") == 0 {
			s += "00"
		}
		s += fmt.Sprint(p)
	}
	if n > 0 {
		s += rapid.SampledFrom([]string{"", "", "", "-beta", "+meta.5", " 2", ".x", "é", ".", "a1"}).Draw(t, "suffix")
	}
	return s
}

var verNumbersRE = regexp.MustCompile(`[0-9]+(\.[0-9]+){0,3}`)

func versionNumbers(s string) (v [4]uint16) {
	m := verNumbersRE.FindString(s)
	if m == "" {
		return
	}
	for i, p := range strings.Split(m, ".") {
		n, _ := strconv.ParseUint(p, 10, 16)
		v[i] = uint16(n)
	}
	return
}

func genEdits(t *rapid.T) EditCase {
	c := EditCase{V: genVer(t, verGenOpts{maxLangs: 3, maxKeys: 3, maxSec: secTo1970 + 253402300799 - 2*86400, empty: true})}
	c.From = rapid.SampledFrom([]string{"", "", "bytes", "json", "merge"}).Draw(t, "from")
	for i, n := 0, rapid.IntRange(1, 10).Draw(t, "nops"); i < n; i++ {
		op := VerOp{O: rapid.SampledFrom([]string{"set", "set", "fver", "pver", "bad", "table", "bytes", "json", "split", "embed", "main"}).Draw(t, "op")}
		op.L = genVerLang(t)
		switch op.O {
		case "set":
			op.K, op.V = genVerKey(t), validText(genVerText(t, 10))
		case "bad":
			op.K, op.V = genVerKey(t), validText(genVerText(t, 5))
			switch rapid.IntRange(0, 2).Draw(t, "bad") {
			case 0:
				op.K = ""
			case 1:
				n := rapid.IntRange(0, len([]rune(op.K))).Draw(t, "at")
				op.K = string([]rune(op.K)[:n]) + "\x00" + string([]rune(op.K)[n:])
			case 2:
				n := rapid.IntRange(0, len([]rune(op.V))).Draw(t, "at")
				op.V = string([]rune(op.V)[:n]) + "\x00" + string([]rune(op.V)[n:])
			}
		case "fver", "pver":
			op.V = genVersionString(t)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runEdits(c EditCase, r *Rec) error {
	vi, err := c.V.info()
	if err != nil {
		return err
	}
	m := c.V.model()
	prec := time.Duration(0)
	switch c.From {
	case "bytes":
		if sizeVS(m) > 65535 {
			return nil
		}
		if vi, err = version.FromBytes(vi.Bytes()); err != nil {
			return err
		}
		prec = 99
	case "json":
		b, err := json.Marshal(vi)
		if err != nil {
			return err
		}
		vi = &version.Info{}
		if err := json.Unmarshal(b, vi); err != nil {
			return err
		}
	case "merge":
		vi = version.MergeTranslations(map[uint16]*version.Info{0x40C: vi})
		m = observeInfo(vi)
	}
	if tab := vi.Table(); c.From != "" { // tables that have no string may disappear
		for l, st := range m.T {
			if len(st) == 0 && tab[l] == nil {
				delete(m.T, l)
			}
		}
	}
	r.LabelIf(c.From != "", "starts from "+c.From)
	if err := sameInfo(observeInfo(vi), m, prec); err != nil {
		return fmt.Errorf("start: %v", err)
	}
	edits := 0
	for i, op := range c.Ops {
		switch op.O {
		case "set":
			if err := vi.Set(op.L, keyArg(op.K), op.V); err != nil {
				return fmt.Errorf("Set(%#x,%q,%q): %v", op.L, op.K, op.V, err)
			}
			if m.T[op.L] == nil {
				m.T[op.L] = map[string]string{}
			}
			m.T[op.L][op.K] = op.V
			edits++
		case "bad":
			if err := vi.Set(op.L, op.K, op.V); err == nil {
				return fmt.Errorf("Set(%#x,%q,%q) accepted", op.L, op.K, op.V)
			}
		case "fver", "pver":
			k := "FileVersion"
			if op.O == "fver" {
				vi.SetFileVersion(op.V)
				m.F = versionNumbers(op.V)
			} else {
				k = "ProductVersion"
				vi.SetProductVersion(op.V)
				m.P = versionNumbers(op.V)
			}
			if len(m.T) == 0 {
				m.T[0] = map[string]string{}
			}
			for _, st := range m.T {
				st[k] = op.V
			}
			edits++
		case "table":
			tab := vi.Table()
			for _, st := range tab {
				(*st)["intruder"] = "x"
				delete(*st, version.ProductName)
			}
			delete(tab, op.L)
			if tab != nil {
				tab[op.L+1] = &version.StringTable{"intruder": "x"}
			}
		case "main":
			if len(m.T) == 0 {
				break
			}
			l := m.langs()[0]
			if l != 0 && m.T[0x409] != nil {
				l = 0x409
			}
			if got := vi.Table().GetMainTranslation(); !reflect.DeepEqual(map[string]string(got), m.T[l]) {
				return fmt.Errorf("GetMainTranslation gives %v, want %v", got, m.T[l])
			}
		case "bytes":
			vi.Bytes()
		case "json":
			if _, err := json.Marshal(vi); err != nil {
				return err
			}
		case "split":
			if err := checkSplit(vi.SplitTranslations(), observeInfo(vi)); err != nil {
				return err
			}
		case "embed":
			rs := &winres.ResourceSet{}
			rs.SetVersionInfo(*vi)
		}
		if err := sameInfo(observeInfo(vi), m, prec); err != nil {
			return fmt.Errorf("after operation %d (%s): %v", i, op.O, err)
		}
	}
	if edits > 1 {
		r.NonTrivial()
	}
	return nil
}

// EmbedCase embeds version information in a set.
type EmbedCase struct {
	V   VerSpec `json:"v"`
	Res []Res   `json:"res"`
}

func runEmbed(c EmbedCase, r *Rec) error {
	m := c.V.model()
	labelVer(r, m)
	vi, err := c.V.info()
	if err != nil {
		return err
	}
	var others []Res
	for _, x := range c.Res {
		if x.T != (Ident{ID: 16}) {
			others = append(others, x)
		}
	}
	for _, s := range splitModel(m) {
		if sizeVS(s) > 65535 {
			return nil
		}
	}
	rs, err := buildSet(others)
	if err != nil {
		return err
	}
	rs.SetVersionInfo(*vi)
	want := splitModel(m)
	if len(want) == 0 {
		r.Label("fixed part alone")
		want[0] = m
	}
	n := 0
	for _, it := range walkItems(rs) {
		if it.T != (Ident{ID: 16}) {
			continue
		}
		if it.R != (Ident{ID: 1}) {
			return fmt.Errorf("unexpected %v", it.Key)
		}
		w, ok := want[it.L]
		if !ok {
			return fmt.Errorf("unexpected language %#x", it.L)
		}
		n++
		back, err := version.FromBytes(it.D)
		if err != nil {
			return fmt.Errorf("resource %v: %v", it.Key, err)
		}
		if err := sameInfo(observeInfo(back), w, 99); err != nil {
			return fmt.Errorf("resource %v: %v", it.Key, err)
		}
		if g, err := parseVS(it.D); err != nil {
			return fmt.Errorf("resource %v: %v", it.Key, err)
		} else if err := sameInfo(g, w, 99); err != nil {
			return fmt.Errorf("resource %v: %v", it.Key, err)
		}
	}
	if n != len(want) {
		return fmt.Errorf("%d version resources, want %d", n, len(want))
	}
	if err := sameInfo(observeInfo(vi), m, 0); err != nil {
		return fmt.Errorf("SetVersionInfo changed the info: %v", err)
	}
	var rest []Item
	for _, it := range walkItems(rs) {
		if it.T != (Ident{ID: 16}) {
			rest = append(rest, it)
		}
	}
	return sameItems(rest, modelOf(others).items())
}

// --- C03 ---

// SameVer builds one value in two orders.
type SameVer struct {
	V     VerSpec `json:"v"`
	Order int64   `json:"order"`
	Ops   []VerOp `json:"ops"` // detours of the second construction
}

func runSameVer(c SameVer, r *Rec) error {
	m := c.V.model()
	labelVer(r, m)
	a, err := c.V.info()
	if err != nil {
		return err
	}
	// The same strings, in another order, after detours on keys that are set later.
	b := &version.Info{}
	type str struct {
		l    uint16
		k, v string
	}
	var all []str
	for _, l := range m.langs() {
		for k, v := range m.T[l] {
			all = append(all, str{l, k, v})
		}
	}
	sort.Slice(all, func(i, j int) bool {
		return all[i].l < all[j].l || all[i].l == all[j].l && all[i].k < all[j].k
	})
	rnd := rand.New(rand.NewSource(c.Order))
	rnd.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	for _, s := range all {
		switch rnd.Intn(6) {
		case 0:
			b.Set(s.l, s.k, "something else")
		case 1:
			b.Set(s.l, "", "refused")
			b.Bytes()
		case 2:
			b.Set(all[0].l, all[0].k, "temporary")
			b.SplitTranslations()
		case 3:
			json.Marshal(b)
		}
		if err := b.Set(s.l, s.k, s.v); err != nil {
			return err
		}
	}
	if len(all) > 0 {
		b.Set(all[0].l, all[0].k, all[0].v)
	}
	setFixed(b, m)
	if rnd.Intn(2) == 0 && !m.Time.IsZero() {
		b.Timestamp = m.Time.UTC()
	}
	if sizeVS(m) > 65535 {
		return nil
	}
	outs := func(vi *version.Info) ([][]byte, error) {
		var out [][]byte
		out = append(out, vi.Bytes())
		t := vi.Timestamp
		if !t.IsZero() { // the zone is part of the JSON form
			vi.Timestamp = t.UTC()
		}
		if j, err := json.Marshal(vi); err == nil {
			out = append(out, j)
		} else {
			return nil, err
		}
		vi.Timestamp = t
		split := vi.SplitTranslations()
		for _, l := range m.langs() {
			out = append(out, split[l].Bytes())
		}
		out = append(out, version.MergeTranslations(split).Bytes())
		rs := &winres.ResourceSet{}
		rs.SetVersionInfo(*vi)
		var o bytes.Buffer
		if err := rs.WriteObject(&o, winres.ArchARM64); err != nil {
			return nil, err
		}
		return append(out, o.Bytes()), nil
	}
	first, err := outs(a)
	if err != nil {
		return err
	}
	for i, vi := range []*version.Info{b, a, b} {
		again, err := outs(vi)
		if err != nil {
			return err
		}
		for j := range first {
			if !bytes.Equal(again[j], first[j]) {
				return fmt.Errorf("output %d of repetition %d differs: %s", j, i, diffBytes(again[j], first[j]))
			}
		}
		if err := sameInfo(observeInfo(vi), m, 0); err != nil {
			return fmt.Errorf("serialising changed the info: %v", err)
		}
	}
	return nil
}

func init() {
	const rule = "two strings at least and a version number"
	reg("C15", "binary", rule, 30000, 1000000,
		func(t *rapid.T) VerSpec { return genVer(t, verGenOpts{maxLangs: 4, maxKeys: 6, fill: true}) }, runVerBinary)
	reg("C15", "foreign", rule, 30000, 1000000,
		func(t *rapid.T) ForeignVer {
			c := ForeignVer{V: genVer(t, verGenOpts{maxLangs: 4, maxKeys: 6})}
			c.L = genVSLayout(t, len(c.V.model().T))
			return c
		}, runVerForeign)
	reg("C16", "roundtrip", rule, 20000, 800000,
		func(t *rapid.T) VerSpec {
			return genVer(t, verGenOpts{maxLangs: 4, maxKeys: 6, maxSec: maxJSONTime, empty: true})
		}, runVerJSON)
	reg("C16", "handwritten", rule, 20000, 800000, genVerDoc, runVerDoc)
	reg("C17", "split", rule, 20000, 800000,
		func(t *rapid.T) VerSpec { return genVer(t, verGenOpts{maxLangs: 5, maxKeys: 5, empty: true}) }, runSplit)
	reg("C17", "merge", "at least two infos", 12000, 500000, genMerge, runMerge)
	reg("C17", "edits", "at least two effective edits", 20000, 800000, genEdits, runEdits)
	reg("C17", "embed", rule, 10000, 400000,
		func(t *rapid.T) EmbedCase {
			return EmbedCase{V: genVer(t, verGenOpts{maxLangs: 4, maxKeys: 4, empty: true}), Res: genResources(t, 4, 50)}
		}, runEmbed)
	reg("C03", "version", rule, 8000, 300000,
		func(t *rapid.T) SameVer {
			return SameVer{V: genVer(t, verGenOpts{maxLangs: 5, maxKeys: 5, maxSec: maxJSONTime}), Order: int64(rapid.IntRange(0, 1<<20).Draw(t, "order"))}
		}, runSameVer)
}

// maxJSONTime is the last second, since 1601, whose year has four digits in every zone.
const maxJSONTime = secTo1970 + 253402300799 - 2*86400
