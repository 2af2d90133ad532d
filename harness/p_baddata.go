package main

// C22: malformed version information, manifests and JSON documents.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"strings"
	"time"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// TextMut changes a token of a document.
type TextMut struct {
	I  int    `json:"i"`
	J  int    `json:"j,omitempty"`
	Op int    `json:"op"` // 0: replace, 1: remove, 2: repeat, 3: exchange with J, 4: insert, 5: keep only what precedes
	S  string `json:"s,omitempty"`
}

var (
	jsonTokens = regexp.MustCompile(`(?s)"(?:[^"\\]|\\.)*"|[-+0-9.eE]+|[a-z]+|\s+|.`)
	xmlTokens  = regexp.MustCompile(`(?s)<!--.*?-->|<!\[CDATA\[.*?\]\]>|<[/?!]?[\w:.-]+|"[^"]*"|'[^']*'|[/?]?>|[\w:.-]+=|[\w.-]+|.`)
)

func mutateText(doc string, re *regexp.Regexp, muts []TextMut) string {
	if len(muts) == 0 {
		return doc
	}
	tok := re.FindAllString(doc, -1)
	for _, m := range muts {
		if len(tok) == 0 {
			tok = []string{m.S}
			continue
		}
		i, j := m.I%len(tok), m.J%len(tok)
		switch m.Op {
		case 0:
			tok[i] = m.S
		case 1:
			tok = append(tok[:i:i], tok[i+1:]...)
		case 2:
			tok = append(tok[:i+1:i+1], tok[i:]...)
		case 3:
			tok[i], tok[j] = tok[j], tok[i]
		case 4:
			tok = append(tok[:i:i], append([]string{m.S}, tok[i:]...)...)
		case 5:
			tok = tok[:i]
		}
	}
	return strings.Join(tok, "")
}

var jsonSnippets = []string{`null`, `true`, `0`, `-1`, `1.5`, `1e999`, `""`, `"x"`, `"\u0000"`, `"a\u0000b"`, `"\ud800"`, `"0409"`, `"zz"`, `"0x0409"`, `"409"`, `"10409"`, `"040a"`, `"040A"`, `"-1"`, `" 0"`,
	`"2020-13-45T00:00:00Z"`, `"0000-01-01T00:00:00Z"`, `"0001-01-01T00:00:00Z"`, `"9999-12-31T23:59:59.999999999-23:59"`, `"1601-01-01T00:00:00Z"`, `"1969-12-31T23:59:59.5Z"`, `"1.2.3.4.5"`, `"99999.1"`, `"65536"`, `"1.2"`, `"-1.2"`, `"1..2"`,
	`[`, `]`, `{`, `}`, `[]`, `{}`, `[[]]`, `{"a":null}`, `{"":""}`, `{"k":"v\u0000"}`, `{"0409":{"a":"b"},"409":{"c":"d"}}`, `{"040a":{"a":"b"},"040A":{"a":"c"}}`, `{"0000":null}`, `"info"`, `"fixed"`, `"INFO"`, `"name"`, `"version"`, `"vista"`, `"win95"`, `","`, `,`, `:`, "\x00", "\xff", "\"\xff\"", `"\uFFFF"`}

var xmlSnippets = []string{`&#0;`, `&#1;`, `&#xD;`, `&amp;`, `&bogus;`, `&`, `<![CDATA[x]]>`, `<![CDATA[<]]>`, `<!-- x -->`, `<!--`, `<!DOCTYPE x [<!ENTITY a "b">]>`, `<?xml version="1.1"?>`, `<?xml version="1.0" encoding="UTF-16"?>`, `<?pi?>`, "\xff", "\x00", "\x01", "\ufffe", "\ufeff",
	`<assembly>`, `</assembly>`, `<assemblyIdentity `, `<a/>`, `<a:b c:d="e"/>`, `<description>`, `</description>`, `name=`, `version=`, `Id=`, `level=`, `"1.2.3.4.5"`, `"65536.1"`, `"-1"`, `"1..2"`, `""`, `"true"`, `true`, ` TRUE `, `"x`, `'x'`, `<`, `>`, `/>`, `"`, `=`, ` `, "\r\n", `unaware`, `PerMonitorV2, `, `"6.0.0.0"`, `"requireAdministrator"`}

func genTextMuts(t *rapid.T, pool []string) []TextMut {
	out := []TextMut{}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nmut"); i < n; i++ {
		m := TextMut{I: rapid.IntRange(0, 400).Draw(t, "i"), Op: rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 4, 4, 5}).Draw(t, "op")}
		switch m.Op {
		case 0, 4:
			m.S = rapid.SampledFrom(pool).Draw(t, "s")
			if rapid.IntRange(0, 9).Draw(t, "other") == 0 {
				m.S = genString(t, 0, 6)
			}
		case 3:
			m.J = rapid.IntRange(0, 400).Draw(t, "j")
		}
		out = append(out, m)
	}
	return out
}

// --- version information ---

// inFileTime tells whether the binary form can represent a time.
func inFileTime(t time.Time) bool {
	return t.IsZero() || t.Unix() >= -secTo1970 && t.Unix() < 1844674407370-secTo1970 && !(t.Unix() == -secTo1970 && t.Nanosecond() < 100)
}

// useInfo runs every operation on decoded version information.
// decode makes the same info again.
func useInfo(decode func() (*version.Info, error), r *Rec) error {
	vi, err := decode()
	if err != nil {
		return fmt.Errorf("decoding again: %v", err)
	}
	m := observeInfo(vi)
	for l, st := range vi.Table() {
		if st == nil {
			return fmt.Errorf("decoded table of %#x is nil", l)
		}
	}
	for l, st := range m.T {
		for k, v := range st {
			if k == "" || strings.ContainsRune(k+v, 0) {
				return fmt.Errorf("decoded strings %q of %#x: %q can't be strings of an info", k, l, v)
			}
		}
	}
	unchanged := func(what string) error {
		if err := sameInfo(observeInfo(vi), m, 0); err != nil {
			return fmt.Errorf("%s changed the info: %v", what, err)
		}
		return nil
	}
	for i := 0; i < 2; i++ {
		again, err := decode()
		if err != nil {
			return fmt.Errorf("decoding again: %v", err)
		}
		if err := sameInfo(observeInfo(again), m, 0); err != nil {
			return fmt.Errorf("decoding the same input again gives something else: %v", err)
		}
	}
	main := vi.Table().GetMainTranslation()
	if (main == nil) != (len(m.T) == 0) {
		return fmt.Errorf("GetMainTranslation returned %v, there are %d translations", main, len(m.T))
	}
	binary := func(what string, vi *version.Info, m VerModel) error {
		b := vi.Bytes()
		if n := sizeVS(m); n > 65535 {
			r.Label("binary form above 64 KB")
			return nil
		}
		got, err := parseVS(b)
		if err != nil {
			return fmt.Errorf("%s: binary form: %v", what, err)
		}
		if !inFileTime(m.Time) {
			r.Label("time out of the range of the binary form")
			m.Time = got.Time
		}
		if err := sameInfo(got, m, 99); err != nil {
			return fmt.Errorf("%s: binary form: %v", what, err)
		}
		back, err := version.FromBytes(b)
		if err != nil {
			return fmt.Errorf("%s: FromBytes: %v", what, err)
		}
		if err := sameInfo(observeInfo(back), m, 99); err != nil {
			return fmt.Errorf("%s: FromBytes: %v", what, err)
		}
		return nil
	}
	document := func(what string, vi *version.Info, m VerModel) error {
		b, err := json.Marshal(vi)
		if err != nil {
			if y := m.Time.UTC().Year(); y < 1 || y > 9998 {
				r.Label("time out of the range of JSON")
				return nil
			}
			return fmt.Errorf("%s: Marshal: %v", what, err)
		}
		back := &version.Info{}
		if err := json.Unmarshal(b, back); err != nil {
			return fmt.Errorf("%s: Unmarshal: %v\n%s", what, err, b)
		}
		if err := sameInfo(observeInfo(back), m, 0); err != nil {
			return fmt.Errorf("%s: Unmarshal: %v\n%s", what, err, b)
		}
		if g, w := len(back.Table()), len(vi.Table()); g != w {
			return fmt.Errorf("%s: Unmarshal: %d languages, want %d\n%s", what, g, w, b)
		}
		return nil
	}
	if err := binary("decoded info", vi, m); err != nil {
		return err
	}
	if err := document("decoded info", vi, m); err != nil {
		return err
	}
	if err := unchanged("encoding"); err != nil {
		return err
	}
	split := vi.SplitTranslations()
	if err := checkSplit(split, m); err != nil {
		return fmt.Errorf("SplitTranslations: %v", err)
	}
	for l, s := range split {
		if err := binary(fmt.Sprintf("translation %#x", l), s, observeInfo(s)); err != nil {
			return err
		}
	}
	merged := version.MergeTranslations(split)
	w := splitModel(m)
	g := observeInfo(merged)
	for l, s := range w {
		if err := sameTables(map[uint16]map[string]string{l: g.T[l]}, map[uint16]map[string]string{l: s.T[l]}); err != nil && len(s.T[l]) > 0 {
			return fmt.Errorf("merging the split: %v", err)
		}
	}
	for _, in := range []map[uint16]*version.Info{{0: vi}, {0x409: vi, 0: nil}, {7: vi, 0xFFFF: {}}, {0x40C: vi, 0x40D: vi}} {
		x := version.MergeTranslations(in)
		g := observeInfo(x)
		g.T = m.T
		if err := sameInfo(g, m, 0); err != nil {
			return fmt.Errorf("merging the info: %v", err)
		}
		if err := binary("merged info", x, observeInfo(x)); err != nil {
			return err
		}
	}
	if err := unchanged("splitting and merging"); err != nil {
		return err
	}
	rs := &winres.ResourceSet{}
	rs.SetVersionInfo(*vi)
	n := len(m.T)
	if n == 0 {
		n, w = 1, map[uint16]VerModel{0: m}
	}
	if rs.Count() != n {
		return fmt.Errorf("SetVersionInfo gives %d resources for %d translations", rs.Count(), len(m.T))
	}
	for l, s := range w {
		b := rs.Get(winres.RT_VERSION, winres.ID(1), l)
		if b == nil {
			return fmt.Errorf("SetVersionInfo gives nothing for %#x", l)
		}
		if sizeVS(s) > 65535 {
			continue
		}
		back, err := version.FromBytes(b)
		if err != nil {
			return fmt.Errorf("embedded version information %#x: %v", l, err)
		}
		if !inFileTime(s.Time) {
			s.Time = back.Timestamp
		}
		if err := sameInfo(observeInfo(back), s, 99); err != nil {
			return fmt.Errorf("embedded version information %#x: %v", l, err)
		}
	}
	if err := unchanged("SetVersionInfo"); err != nil {
		return err
	}
	// Editing
	vi.SetFileVersion("4.3.2.1")
	vi.SetProductVersion("v8.7.6-beta")
	m.F, m.P = [4]uint16{4, 3, 2, 1}, [4]uint16{8, 7, 6, 0}
	if len(m.T) == 0 {
		m.T = map[uint16]map[string]string{0: {}}
	} else {
		m.T = m.clone().T
	}
	for _, st := range m.T {
		st[version.FileVersion], st[version.ProductVersion] = "4.3.2.1", "v8.7.6-beta"
	}
	for _, l := range []uint16{0, 0x409, 0xFFFF} {
		if err := vi.Set(l, "new", "value"); err != nil {
			return fmt.Errorf("Set: %v", err)
		}
		if m.T[l] == nil {
			m.T[l] = map[string]string{}
		}
		m.T[l]["new"] = "value"
	}
	if err := unchanged("editing"); err != nil {
		return fmt.Errorf("after editing: %v", err)
	}
	if err := binary("edited info", vi, m); err != nil {
		return err
	}
	return document("edited info", vi, m)
}

// BadVersion is malformed binary version information.
type BadVersion struct {
	V    VerSpec  `json:"v"`
	L    VSLayout `json:"l"`
	Muts []Mut    `json:"muts"`
	Raw  []byte   `json:"raw,omitempty"`
}

func (c BadVersion) build() []byte {
	if c.Raw != nil {
		return append([]byte{}, c.Raw...)
	}
	b, at := writeVSNodes(c.V.model(), c.L)
	for _, m := range c.Muts {
		if m.Where != "node" {
			b = m.cutting(b)
			continue
		}
		n := at[m.I%len(at)]
		switch m.Off % 5 {
		case 3:
			// a character of the key
			m.Size = 2
			m.apply(b, n+6+2*(m.Off/5), len(b))
		case 4:
			m.apply(b, n+6+m.Off, len(b))
		default:
			m.Size = 2
			m.apply(b, n+2*(m.Off%5), len(b)-n)
		}
	}
	return b
}

func genBadVersion(t *rapid.T) BadVersion {
	c := BadVersion{Muts: []Mut{}}
	if k := rapid.IntRange(0, 200).Draw(t, "raw"); k > 195 {
		c.Raw = rapid.SliceOfN(rapid.Byte(), 0, 120).Draw(t, "rawbytes")
		return c
	}
	c.V = genVer(t, verGenOpts{maxLangs: 3, maxKeys: 4, maxSec: 1844674407370 - 1})
	c.L = genVSLayout(t, len(c.V.Langs))
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "nmut"); i < n; i++ {
		var m Mut
		if rapid.IntRange(0, 2).Draw(t, "node") > 0 {
			m = Mut{Where: "node", I: rapid.IntRange(0, 20).Draw(t, "i"), Off: rapid.IntRange(0, 60).Draw(t, "off"), Size: rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "size")}
			m.Op, m.V = genVal(t)
			if m.Op == 1 {
				m.V = uint32(rapid.IntRange(-10, 10).Draw(t, "small"))
			}
		} else {
			m = genCut(t, 1200)
		}
		c.Muts = append(c.Muts, m)
	}
	return c
}

func runBadVersion(c BadVersion, r *Rec) error {
	b := c.build()
	orig := append([]byte{}, b...)
	if len(c.Muts) > 0 || c.Raw != nil {
		r.NonTrivial()
	}
	var vi *version.Info
	var err error
	alloc := allocDelta(func() { vi, err = version.FromBytes(b) })
	if max := uint64(1<<20 + 100*len(b)); alloc > max {
		return fmt.Errorf("decoding %d bytes allocated %d bytes", len(b), alloc)
	}
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("the input was modified")
	}
	if err != nil {
		r.Label("refused")
		if vi != nil {
			return fmt.Errorf("returned an info with error %v", err)
		}
		return nil
	}
	r.Label("decoded")
	if m, err := parseVS(b); err == nil {
		r.Label("decoded, still valid")
		if err := sameInfo(observeInfo(vi), m, 99); err != nil {
			return fmt.Errorf("decoding valid version information: %v", err)
		}
	}
	return useInfo(func() (*version.Info, error) { return version.FromBytes(b) }, r)
}

// BadDoc is a malformed document.
type BadDoc struct {
	V    *VerDoc     `json:"v,omitempty"`
	M    *ManDoc     `json:"m,omitempty"`
	J    *ManJSONDoc `json:"j,omitempty"`
	Muts []TextMut   `json:"muts"`
	Cuts []Mut       `json:"cuts,omitempty"`
	Raw  []byte      `json:"raw,omitempty"`
}

func (c BadDoc) document() []byte {
	var doc string
	switch {
	case c.V != nil:
		doc, _ = c.V.document()
		doc = mutateText(doc, jsonTokens, c.Muts)
	case c.M != nil:
		doc, _ = c.M.document()
		doc = mutateText(doc, xmlTokens, c.Muts)
	case c.J != nil:
		doc, _ = c.J.document()
		doc = mutateText(doc, jsonTokens, c.Muts)
	default:
		return append([]byte{}, c.Raw...)
	}
	b := []byte(doc)
	for _, m := range c.Cuts {
		b = m.cutting(b)
	}
	return b
}

func genBadDoc(kind int) func(t *rapid.T) BadDoc {
	return func(t *rapid.T) BadDoc {
		c := BadDoc{Muts: []TextMut{}}
		pool := jsonSnippets
		switch kind {
		case 0:
			d := genVerDoc(t)
			c.V = &d
		case 1:
			d := genManDoc(t)
			d.Cut = 0
			c.M = &d
			pool = xmlSnippets
		default:
			d := genManJSONDoc(t)
			c.J = &d
		}
		switch rapid.IntRange(0, 20).Draw(t, "raw") {
		case 13:
			c.V, c.M, c.J = nil, nil, nil
			for i, n := 0, rapid.IntRange(0, 8).Draw(t, "n"); i < n; i++ {
				c.Raw = append(c.Raw, rapid.SampledFrom(pool).Draw(t, "s")...)
			}
			if c.Raw == nil {
				c.Raw = []byte{}
			}
			return c
		case 14, 15:
			for i, n := 0, rapid.IntRange(1, 3).Draw(t, "ncut"); i < n; i++ {
				c.Cuts = append(c.Cuts, genCut(t, 1500))
			}
		}
		c.Muts = genTextMuts(t, pool)
		return c
	}
}

func runBadVersionJSON(c BadDoc, r *Rec) error {
	b := c.document()
	orig := append([]byte{}, b...)
	if len(c.Muts)+len(c.Cuts) > 0 || c.Raw != nil {
		r.NonTrivial()
	}
	decode := func() (*version.Info, error) {
		vi := &version.Info{}
		return vi, json.Unmarshal(b, vi)
	}
	// The decoder alone must also cope with what is not JSON
	raw := &version.Info{}
	raw.Set(0x409, "old", "old")
	rerr := raw.UnmarshalJSON(b)
	vi, err := decode()
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("the input was modified")
	}
	if rerr != nil {
		// What is in the info after an error must still be usable
		raw.Bytes()
		raw.SplitTranslations()
		json.Marshal(raw)
		raw.Set(0x409, "new", "new")
	}
	if err != nil {
		r.Label("refused")
		vi.Bytes()
		vi.SplitTranslations()
		json.Marshal(vi)
		vi.Set(0x409, "new", "new")
		vi.Bytes()
		return nil
	}
	r.Label("decoded")
	if rerr != nil {
		return fmt.Errorf("UnmarshalJSON: %v, json.Unmarshal: no error", rerr)
	}
	if err := sameInfo(observeInfo(raw), observeInfo(vi), 0); err != nil {
		return fmt.Errorf("UnmarshalJSON and json.Unmarshal: %v", err)
	}
	return useInfo(decode, r)
}

// useManifest runs every operation on a decoded description.
func useManifest(m winres.AppManifest) error {
	rs := &winres.ResourceSet{}
	rs.SetManifest(m)
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	if rs.Count() != 1 || b == nil {
		return fmt.Errorf("SetManifest gives %d resources", rs.Count())
	}
	if _, err := parseXML(string(b)); err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	back, err := winres.AppManifestFromXML(b)
	if err != nil {
		return fmt.Errorf("AppManifestFromXML: %v\n%s", err, b)
	}
	want := m
	want.Identity.Name, want.Description = legalXML(m.Identity.Name), legalXML(m.Description)
	if err := sameManifest(back, want); err != nil {
		return fmt.Errorf("XML: %v", err)
	}
	j, err := json.Marshal(m)
	if err != nil {
		return fmt.Errorf("Marshal: %v", err)
	}
	var back2 winres.AppManifest
	if err := json.Unmarshal(j, &back2); err != nil {
		return fmt.Errorf("Unmarshal: %v\n%s", err, j)
	}
	if err := sameManifest(back2, m); err != nil {
		return fmt.Errorf("JSON: %v\n%s", err, j)
	}
	return nil
}

func runBadManifest(c BadDoc, r *Rec) error {
	b := c.document()
	orig := append([]byte{}, b...)
	if len(c.Muts)+len(c.Cuts) > 0 || c.Raw != nil {
		r.NonTrivial()
	}
	var m, again winres.AppManifest
	var err, err2 error
	if c.J != nil || c.M == nil && c.J == nil && bytes.ContainsAny(b, "{[") {
		err, err2 = json.Unmarshal(b, &m), json.Unmarshal(b, &again)
	} else {
		m, err = winres.AppManifestFromXML(b)
		again, err2 = winres.AppManifestFromXML(b)
		if err != nil && m != (winres.AppManifest{}) {
			return fmt.Errorf("a refused manifest isn't empty: %+v", m)
		}
	}
	if !bytes.Equal(b, orig) {
		return fmt.Errorf("the input was modified")
	}
	if m != again || (err == nil) != (err2 == nil) {
		return fmt.Errorf("decoding twice gives %+v (%v), then %+v (%v)", m, err, again, err2)
	}
	if err != nil {
		r.Label("refused")
	} else {
		r.Label("decoded")
	}
	// Even after an error, a description can be used
	return useManifest(m)
}

func init() {
	reg("C22", "version", "at least one mutation was applied", 16000, 1000000, genBadVersion, runBadVersion)
	reg("C22", "version-json", "at least one mutation was applied", 12000, 500000, genBadDoc(0), runBadVersionJSON)
	reg("C22", "manifest", "at least one mutation was applied", 8000, 300000, genBadDoc(1), runBadManifest)
	reg("C22", "manifest-json", "at least one mutation was applied", 8000, 300000, genBadDoc(2), runBadManifest)
}
