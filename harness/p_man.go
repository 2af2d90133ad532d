package main

// C18, C19 (manifests) and the manifest facet of C03.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// ManSpec describes a manifest.
type ManSpec struct {
	Name string    `json:"name"`
	Ver  [4]uint16 `json:"ver"`
	Desc string    `json:"desc"`
	OS   int       `json:"os"` // 0: Vista ... 4: 10
	Exec int       `json:"exec"`
	DPI  int       `json:"dpi"`
	Opts int       `json:"opts"` // bits, in the order of manOpts
}

// manOpts are the switches: element, namespace year, field.
var manOpts = []struct {
	elem, year, json string
	field            func(*winres.AppManifest) *bool
}{
	{"uiAccess", "", "ui-access", func(m *winres.AppManifest) *bool { return &m.UIAccess }},
	{"autoElevate", "2005", "auto-elevate", func(m *winres.AppManifest) *bool { return &m.AutoElevate }},
	{"disableTheming", "2005", "disable-theming", func(m *winres.AppManifest) *bool { return &m.DisableTheming }},
	{"disableWindowFiltering", "2011", "disable-window-filtering", func(m *winres.AppManifest) *bool { return &m.DisableWindowFiltering }},
	{"highResolutionScrollingAware", "2013", "high-resolution-scrolling-aware", func(m *winres.AppManifest) *bool { return &m.HighResolutionScrollingAware }},
	{"ultraHighResolutionScrollingAware", "2013", "ultra-high-resolution-scrolling-aware", func(m *winres.AppManifest) *bool { return &m.UltraHighResolutionScrollingAware }},
	{"longPathAware", "2016", "long-path-aware", func(m *winres.AppManifest) *bool { return &m.LongPathAware }},
	{"printerDriverIsolation", "2011", "printer-driver-isolation", func(m *winres.AppManifest) *bool { return &m.PrinterDriverIsolation }},
	{"gdiScaling", "2017", "gdi-scaling", func(m *winres.AppManifest) *bool { return &m.GDIScaling }},
	{"heapType", "2020", "segment-heap", func(m *winres.AppManifest) *bool { return &m.SegmentHeap }},
	{"", "", "use-common-controls-v6", func(m *winres.AppManifest) *bool { return &m.UseCommonControlsV6 }},
}

var (
	manOS    = []winres.SupportedOS{winres.WinVistaAndAbove, winres.Win7AndAbove, winres.Win8AndAbove, winres.Win81AndAbove, winres.Win10AndAbove}
	manOSID  = []string{"{e2011457-1546-43c5-a5fe-008deee3d3f0}", "{35138b9a-5d96-4fbd-8e2d-a2440225f93a}", "{4a2f28e3-53b9-4441-ba9c-d69d4a4a6e38}", "{1f676c76-80e1-4239-95bb-83d0f6d0da78}", "{8e0f7a12-bfb3-4fe8-b9a5-48fd50a15a9a}"}
	manExec  = []winres.ExecutionLevel{winres.AsInvoker, winres.HighestAvailable, winres.RequireAdministrator}
	manLevel = []string{"asInvoker", "highestAvailable", "requireAdministrator"}
	manDPI   = []winres.DPIAwareness{winres.DPIAware, winres.DPIUnaware, winres.DPIPerMonitor, winres.DPIPerMonitorV2}
	manAware = []string{"true", "false", "true/pm", "true"}
	manDPIs  = []string{"system", "unaware", "permonitor", "permonitorv2,system"}
)

func (s ManSpec) manifest() winres.AppManifest {
	m := winres.AppManifest{Description: s.Desc, Compatibility: manOS[s.OS], ExecutionLevel: manExec[s.Exec], DPIAwareness: manDPI[s.DPI]}
	m.Identity.Name, m.Identity.Version = s.Name, s.Ver
	for i, o := range manOpts {
		*o.field(&m) = s.Opts&(1<<i) != 0
	}
	return m
}

const (
	nsAsm1    = "urn:schemas-microsoft-com:asm.v1"
	nsAsm3    = "urn:schemas-microsoft-com:asm.v3"
	nsCompat  = "urn:schemas-microsoft-com:compatibility.v1"
	nsSetting = "http://schemas.microsoft.com/SMI/%s/WindowsSettings"
)

// expected is the tree that a manifest must be.
func (s ManSpec) expected() *xmlNode {
	root := el(nsAsm1, "assembly", "").at("manifestVersion", "1.0")
	add := func(n *xmlNode) { root.children = append(root.children, n) }
	if s.Name != "" {
		add(el(nsAsm1, "assemblyIdentity", "").at("type", "win32", "name", legalXML(s.Name), "version", verText(s.Ver), "processorArchitecture", "*"))
	}
	if s.Desc != "" {
		add(el(nsAsm1, "description", legalXML(s.Desc)))
	}
	app := el(nsCompat, "application", "")
	for _, id := range manOSID[s.OS:] {
		app.children = append(app.children, el(nsCompat, "supportedOS", "").at("Id", id))
	}
	add(el(nsCompat, "compatibility", "", app))
	ws := el(nsAsm3, "windowsSettings", "",
		el(fmt.Sprintf(nsSetting, "2005"), "dpiAware", manAware[s.DPI]),
		el(fmt.Sprintf(nsSetting, "2016"), "dpiAwareness", manDPIs[s.DPI]))
	ui := "false"
	for i, o := range manOpts {
		if s.Opts&(1<<i) == 0 {
			continue
		}
		switch o.elem {
		case "":
			add(el(nsAsm1, "dependency", "", el(nsAsm1, "dependentAssembly", "", el(nsAsm1, "assemblyIdentity", "").at(
				"type", "win32", "name", "Microsoft.Windows.Common-Controls", "version", "6.0.0.0", "processorArchitecture", "*", "publicKeyToken", "6595b64144ccf1df", "language", "*"))))
		case "uiAccess":
			ui = "true"
		case "heapType":
			ws.children = append(ws.children, el(fmt.Sprintf(nsSetting, o.year), o.elem, "SegmentHeap"))
		default:
			ws.children = append(ws.children, el(fmt.Sprintf(nsSetting, o.year), o.elem, "true"))
		}
	}
	add(el(nsAsm3, "application", "", ws))
	add(el(nsAsm3, "trustInfo", "", el(nsAsm3, "security", "", el(nsAsm3, "requestedPrivileges", "",
		el(nsAsm3, "requestedExecutionLevel", "").at("level", manLevel[s.Exec], "uiAccess", ui)))))
	return root
}

func verText(v [4]uint16) string { return fmt.Sprintf("%d.%d.%d.%d", v[0], v[1], v[2], v[3]) }

// legalXML replaces what XML cannot represent.
func legalXML(s string) string {
	return strings.Map(func(r rune) rune {
		if !xmlChar(r) {
			return '\uFFFD'
		}
		return r
	}, s)
}

func genManText(t *rapid.T, max int) string {
	return rapid.OneOf(
		rapid.Just(""),
		rapid.StringOfN(rapid.SampledFrom(someRunes), 0, max, -1),
		rapid.StringOfN(rapid.SampledFrom([]rune("<>&\"' ;#x4lt]-!?[CDATA/\t\n\r{}.%\\`ab")), 0, max, -1),
		rapid.StringN(0, max, -1),
		rapid.SampledFrom([]string{"]]>", "&lt;", "&amp;amp;", "<![CDATA[x]]>", "<!-- -->", "{{.}}", " ", "\r\n", "a\rb", "\ttab", "App.Name", "é <b> \"quoted\" 'x' & y", "\x00", "\x01", "\ufffe", "-->"}),
	).Draw(t, "text")
}

func genMan(t *rapid.T) ManSpec {
	name, desc := 20, 40
	if rapid.IntRange(0, 199).Draw(t, "long") == 199 {
		name, desc = 400, 400
	}
	s := ManSpec{
		Name: genManText(t, name),
		Desc: genManText(t, desc),
		OS:   rapid.IntRange(0, 4).Draw(t, "os"),
		Exec: rapid.IntRange(0, 2).Draw(t, "exec"),
		DPI:  rapid.IntRange(0, 3).Draw(t, "dpi"),
		Opts: rapid.IntRange(0, 1<<len(manOpts)-1).Draw(t, "opts"),
	}
	if rapid.IntRange(0, 3).Draw(t, "oneopt") == 0 {
		s.Opts = 1 << rapid.IntRange(0, len(manOpts)-1).Draw(t, "opt")
	}
	if name > 20 && rapid.Bool().Draw(t, "verylong") {
		// A text is repeated
		n := rapid.OneOf(rapid.SampledFrom([]int{255, 256, 4095, 4096, 65535, 65536, 70000}), rapid.IntRange(100, 150000)).Draw(t, "length")
		p := &s.Desc
		if rapid.IntRange(0, 2).Draw(t, "longname") == 0 {
			p = &s.Name
		}
		*p += "-"
		*p = strings.Repeat(*p, n/len(*p)+1)
	}
	for i := range s.Ver {
		s.Ver[i] = rapid.OneOf(rapid.SampledFrom([]uint16{0, 1, 9, 10, 255, 0x7FFF, 0x8000, 0xFFFF}), rapid.Uint16()).Draw(t, "part")
	}
	return s
}

// written returns the manifest as the library writes it.
func (s ManSpec) written() ([]byte, error) {
	rs := &winres.ResourceSet{}
	rs.SetManifest(s.manifest())
	if rs.Count() != 1 {
		return nil, fmt.Errorf("SetManifest gives %d resources", rs.Count())
	}
	b := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
	if b == nil {
		return nil, fmt.Errorf("SetManifest doesn't give (24, 1, 0x409)")
	}
	return b, nil
}

func sameManifest(got, want winres.AppManifest) error {
	if want.Identity.Name == "" {
		want.Identity.Version, got.Identity.Version = [4]uint16{}, [4]uint16{}
	}
	if got != want {
		return fmt.Errorf("got %+v, want %+v", got, want)
	}
	return nil
}

func runManifest(s ManSpec, r *Rec) error {
	b, err := s.written()
	if err != nil {
		return err
	}
	root, err := parseXML(string(b))
	if err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	if got, want := root.canon(), s.expected().canon(); got != want {
		return fmt.Errorf("elements are\n%s\nwant\n%s", got, want)
	}
	back, err := winres.AppManifestFromXML(b)
	if err != nil {
		return fmt.Errorf("AppManifestFromXML: %v", err)
	}
	want := s.manifest()
	want.Identity.Name, want.Description = legalXML(s.Name), legalXML(s.Desc)
	if err := sameManifest(back, want); err != nil {
		return fmt.Errorf("AppManifestFromXML: %v", err)
	}
	special := strings.ContainsAny(s.Name+s.Desc, "<>&\"'\r\n\t")
	r.LabelIf(special, "text with special characters")
	r.LabelIf(legalXML(s.Name+s.Desc) != s.Name+s.Desc, "text XML cannot represent")
	if s.Name != "" && s.Desc != "" || s.Opts != 0 {
		r.NonTrivial()
	}
	return nil
}

// ManDoc is a hand-written manifest.
type ManDoc struct {
	M      ManSpec `json:"m"`
	Seed   int64   `json:"seed"`             // of the spelling, order and decoration
	Absent int     `json:"absent,omitempty"` // bits: identity, description, compatibility, application, trust, dpiAware, dpiAwareness
	Cut    int     `json:"cut,omitempty"`    // if positive, truncate: must be refused
}

type manWriter struct {
	r *rand.Rand
	b strings.Builder
}

func (w *manWriter) pick(s ...string) string { return s[w.r.Intn(len(s))] }
func (w *manWriter) blank() string           { return w.pick("", " ", "\n", "\t", " \r\n ", "") }
func (w *manWriter) sp() string              { return w.pick(" ", "\n", " \t", "  ") }

func (w *manWriter) anyCase(s string) string {
	switch w.r.Intn(4) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		return strings.ToLower(s)
	case 2:
		return s
	}
	b := []byte(s)
	for i := range b {
		if c := b[i] | 0x20; c >= 'a' && c <= 'z' {
			b[i] ^= byte(w.r.Intn(2)) * 0x20
		}
	}
	return string(b)
}

// escape writes text; a few characters may be references.
func (w *manWriter) escape(s string, quote byte) string {
	var b strings.Builder
	for _, c := range s {
		switch {
		case c == '&':
			b.WriteString(w.pick("&amp;", "&#38;", "&#x26;"))
		case c == '<':
			b.WriteString(w.pick("&lt;", "&#60;"))
		case c == '>':
			b.WriteString("&gt;")
		case quote != 0 && c == rune(quote), c == '\r', quote != 0 && (c == '\n' || c == '\t'):
			fmt.Fprintf(&b, "&#%d;", c)
		case w.r.Intn(12) == 0:
			fmt.Fprintf(&b, "&#x%X;", c)
		default:
			b.WriteRune(c)
		}
	}
	return b.String()
}

func (w *manWriter) attrs(kv ...string) string {
	var as []string
	for i := 0; i < len(kv); i += 2 {
		q := w.pick(`"`, "'")
		as = append(as, kv[i]+w.pick("=", "=", " = ")+q+w.escape(kv[i+1], q[0])+q)
	}
	w.r.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	return w.sp() + strings.Join(as, w.sp())
}

// elem writes an element in a namespace, with a default declaration or a prefix.
func (w *manWriter) elem(ns, name, attrs string, kids ...string) string {
	prefix, decl := "", ""
	switch w.r.Intn(3) {
	case 0:
		prefix = w.pick("a", "asmv3", "ns0") + ":"
		decl = ` xmlns:` + strings.TrimSuffix(prefix, ":") + `="` + ns + `"`
	default:
		decl = ` xmlns="` + ns + `"`
	}
	if len(kids) == 0 && w.r.Intn(2) == 0 {
		return "<" + prefix + name + decl + attrs + w.pick("/>", " />")
	}
	return "<" + prefix + name + attrs + decl + w.pick(">", " >") + strings.Join(kids, "") + "</" + prefix + name + w.pick(">", "\n>")
}

// mix puts elements in any order among blanks, comments and things that don't matter.
func (w *manWriter) mix(kids ...string) string {
	w.r.Shuffle(len(kids), func(i, j int) { kids[i], kids[j] = kids[j], kids[i] })
	var b strings.Builder
	for _, k := range kids {
		b.WriteString(w.blank())
		switch w.r.Intn(8) {
		case 0:
			b.WriteString("<!-- <description>no</description> & <dpiAware>false</dpiAware> -->")
		case 1:
			b.WriteString(w.pick(`<noInherit/>`, `<file name="x.dll" hashalg="SHA1"/>`, `<x:unknown xmlns:x="urn:x"><description>no</description><windowsSettings><dpiAware>true/pm</dpiAware><gdiScaling>true</gdiScaling></windowsSettings></x:unknown>`, `<?pi data?>`, `<activeCodePage>UTF-8</activeCodePage>`))
		}
		b.WriteString(w.blank())
		b.WriteString(k)
	}
	return b.String() + w.blank()
}

func (c ManDoc) document() (string, winres.AppManifest) {
	w := &manWriter{r: rand.New(rand.NewSource(c.Seed))}
	m := c.M.manifest()
	bl := func(s string) string { return w.blank() + s + w.blank() }
	has := func(bit int) bool { return c.Absent&(1<<bit) == 0 }
	var top []string
	if has(0) && m.Identity.Name != "" {
		top = append(top, w.elem(nsAsm1, "assemblyIdentity", w.attrs("type", "win32", "name", m.Identity.Name, "version", verText(m.Identity.Version), "processorArchitecture", w.pick("*", "amd64"))))
	} else {
		m.Identity = winres.AssemblyIdentity{}
	}
	if has(1) && m.Description != "" {
		d := w.escape(m.Description, 0)
		if w.r.Intn(3) == 0 && !strings.Contains(m.Description, "]]>") && !strings.Contains(m.Description, "\r") {
			d = "<![CDATA[" + m.Description + "]]>"
		}
		top = append(top, w.elem(nsAsm1, "description", "", d))
	} else {
		m.Description = ""
	}
	if has(2) {
		var ids []string
		for i, id := range manOSID[c.M.OS:] {
			if i == 0 || w.r.Intn(3) > 0 { // Only the lowest one matters
				ids = append(ids, w.elem(nsCompat, "supportedOS", w.attrs("Id", bl(w.anyCase(id)))))
				for w.r.Intn(8) == 0 {
					ids = append(ids, w.elem(nsCompat, "supportedOS", w.attrs("Id", bl(w.anyCase(id)))))
				}
			}
		}
		for w.r.Intn(8) == 0 { // some system of the future
			ids = append(ids, w.elem(nsCompat, "supportedOS", w.attrs("Id", "{00112233-4455-6677-8899-aabbccddeeff}")))
		}
		if w.r.Intn(2) == 0 {
			w.r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
		}
		top = append(top, w.elem(nsCompat, "compatibility", "", w.mix(w.elem(nsCompat, "application", "", w.mix(ids...)))))
	} else {
		m.Compatibility = winres.Win7AndAbove
	}
	var set []string
	setting := func(year, name, v string) { set = append(set, w.elem(fmt.Sprintf(nsSetting, year), name, "", v)) }
	aware, awareness := has(5), has(6)
	switch {
	case awareness:
		list := []string{w.anyCase(strings.Split(manDPIs[c.M.DPI], ",")[0])}
		if w.r.Intn(3) == 0 {
			list = append([]string{w.pick("", "future", "PerMonitorV3", "true")}, list...)
		}
		if w.r.Intn(2) == 0 {
			list = append(list, w.pick("system", "PerMonitor", "unaware", "other"))
		}
		for w.r.Intn(8) == 0 {
			// more than a few that are not known
			for i := 0; i < 5; i++ {
				list = append([]string{w.pick("", "future", "PerMonitorV3", "x y")}, list...)
			}
		}
		for i := range list {
			list[i] = bl(list[i])
		}
		setting("2016", "dpiAwareness", strings.Join(list, ","))
		if aware {
			setting("2005", "dpiAware", bl(w.anyCase(w.pick("true", "false", "true/pm", "nonsense"))))
		}
	case aware:
		setting("2005", "dpiAware", bl(w.anyCase([]string{"true", "false", "true/pm", "nonsense"}[c.M.DPI])))
		if c.M.DPI == 3 {
			m.DPIAwareness = winres.DPIUnaware
		}
		if w.r.Intn(3) == 0 {
			setting("2016", "dpiAwareness", w.pick("", "nothing known", " , "))
		}
	default:
		m.DPIAwareness = winres.DPIUnaware
	}
	no := func() string { return bl(w.pick("false", "FALSE", "no", "", "1", "truex", "true false")) }
	ui := ""
	hasCC := false
	for i, o := range manOpts {
		on := c.M.Opts&(1<<i) != 0
		switch {
		case o.elem == "":
			hasCC = on
		case o.elem == "uiAccess":
			ui = no()
			if on {
				ui = bl(w.anyCase("true"))
			}
		case o.elem == "heapType":
			if on {
				setting(o.year, o.elem, bl(w.anyCase("SegmentHeap")))
			} else if w.r.Intn(3) == 0 {
				setting(o.year, o.elem, w.pick("Heap", "", "true"))
			}
		case on:
			setting(o.year, o.elem, bl(w.anyCase("true")))
		case w.r.Intn(3) == 0:
			setting(o.year, o.elem, no())
		}
	}
	if has(3) {
		if n := len(set); n > 2 && w.r.Intn(4) == 0 { // two blocks
			k := w.r.Intn(n)
			a := w.elem(nsAsm3, "application", "", w.mix(w.elem(nsAsm3, "windowsSettings", "", w.mix(append([]string{}, set[:k]...)...))))
			b := w.elem(nsAsm3, "application", "", w.mix(w.elem(nsAsm3, "windowsSettings", "", w.mix(append([]string{}, set[k:]...)...))))
			top = append(top, a, b)
		} else {
			top = append(top, w.elem(nsAsm3, "application", "", w.mix(w.elem(nsAsm3, "windowsSettings", "", w.mix(set...)))))
		}
	} else {
		m.DPIAwareness = winres.DPIUnaware
		for _, o := range manOpts {
			if o.elem != "" && o.elem != "uiAccess" {
				*o.field(&m) = false
			}
		}
	}
	if has(4) {
		level := bl(w.anyCase(manLevel[c.M.Exec]))
		if c.M.Exec == 0 && w.r.Intn(3) == 0 {
			level = w.pick("", "unknown", "administrator")
		}
		a := w.attrs("level", level, "uiAccess", ui)
		top = append(top, w.elem(nsAsm3, "trustInfo", "", w.mix(w.elem(nsAsm3, "security", "", w.mix(w.elem(nsAsm3, "requestedPrivileges", "", w.mix(w.elem(nsAsm3, "requestedExecutionLevel", a))))))))
	} else {
		m.ExecutionLevel, m.UIAccess = winres.AsInvoker, false
	}
	dep := func(name, version, token string) string {
		return w.elem(nsAsm1, "dependentAssembly", "", w.mix(w.elem(nsAsm1, "assemblyIdentity", w.attrs("type", "win32", "name", name, "version", version, "publicKeyToken", token, "language", "*"))))
	}
	var deps []string
	if hasCC {
		deps = append(deps, dep(bl(w.anyCase("Microsoft.Windows.Common-Controls")), bl(w.pick("6.0.0.0", "6.10.1.2")), bl(w.anyCase("6595b64144ccf1df"))))
	}
	for w.r.Intn(3) == 0 {
		deps = append(deps, dep(w.pick("Microsoft.VC90.CRT", "Other", "Microsoft.Windows.Common-Controls.x"), "6.0.0.0", "6595b64144ccf1df"))
	}
	if w.r.Intn(5) == 0 {
		deps = append(deps, dep("Microsoft.Windows.Common-Controls", w.pick("5.82.0.0", "60.0.0.0"), "6595b64144ccf1df"))
	}
	if len(deps) > 0 && w.r.Intn(2) == 0 {
		top = append(top, w.elem(nsAsm1, "dependency", "", w.mix(deps...)))
	} else {
		for _, d := range deps {
			top = append(top, w.elem(nsAsm1, "dependency", "", w.mix(d)))
		}
	}
	doc := w.pick("", "\ufeff", "") + w.pick("", `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>`, `<?xml version='1.0' encoding='utf-8'?>`, `<?xml version="1.0"?>`)
	doc += w.blank() + w.pick("", "<!-- comment -->", "")
	if !strings.Contains(doc, "<?xml") {
		doc = strings.TrimSpace(doc)
	}
	doc += w.elem(nsAsm1, "assembly", w.attrs("manifestVersion", "1.0"), w.mix(top...))
	return doc, m
}

func genManDoc(t *rapid.T) ManDoc {
	c := ManDoc{M: genMan(t), Seed: int64(rapid.IntRange(0, 1<<30).Draw(t, "seed"))}
	if rapid.IntRange(0, 2).Draw(t, "some absent") == 0 {
		c.Absent = rapid.IntRange(0, 127).Draw(t, "absent")
	}
	if rapid.IntRange(0, 9).Draw(t, "truncated") == 0 {
		c.Cut = rapid.IntRange(1, 5000).Draw(t, "cut")
	}
	return c
}

func runManDoc(c ManDoc, r *Rec) error {
	c.M.Name, c.M.Desc = legalXML(validText(c.M.Name)), legalXML(validText(c.M.Desc))
	doc, want := c.document()
	if _, err := parseXML(doc); err != nil {
		return harnessf("%v\n%s", err, doc)
	}
	if c.Cut > 0 {
		// Anything shorter than the whole is a syntax error, unless only what precedes the root is left out.
		n := c.Cut % len(doc)
		r.Label("truncated")
		if strings.TrimSpace(strings.TrimPrefix(doc[:n], "\ufeff")) == "" {
			return nil
		}
		got, err := winres.AppManifestFromXML([]byte(doc[:n]))
		if err == nil {
			return fmt.Errorf("truncated manifest accepted\n%s", doc[:n])
		}
		if got != (winres.AppManifest{}) {
			return fmt.Errorf("a refused manifest isn't empty: %+v", got)
		}
		return nil
	}
	got, err := winres.AppManifestFromXML([]byte(doc))
	if err != nil {
		return fmt.Errorf("AppManifestFromXML: %v\n%s", err, doc)
	}
	if err := sameManifest(got, want); err != nil {
		return fmt.Errorf("%v\n%s", err, doc)
	}
	if c.M.Opts != 0 {
		r.NonTrivial()
	}
	return nil
}

// --- C19 ---

var manSpell = map[string][][]string{
	"minimum-os":      {{"vista"}, {"win7"}, {"win8"}, {"win8.1"}, {"win10"}},
	"execution-level": {{"", "as invoker", "asinvoker"}, {"highest", "highest available", "highestavailable"}, {"administrator", "require administrator", "requireadministrator"}},
	"dpi-awareness":   {{"system", "true", ""}, {"unaware", "false"}, {"per monitor", "permonitor", "true/pm"}, {"per monitor v2", "permonitorv2"}},
}

func runManJSON(s ManSpec, r *Rec) error {
	s.Name, s.Desc = validText(s.Name), validText(s.Desc)
	m := s.manifest()
	for i, v := range []interface{}{m, &m} {
		b, err := json.Marshal(v)
		if err != nil {
			return fmt.Errorf("Marshal: %v", err)
		}
		if m != s.manifest() {
			return fmt.Errorf("Marshal changed the description")
		}
		var doc map[string]interface{}
		if err := json.Unmarshal(b, &doc); err != nil {
			return err
		}
		for k, want := range map[string]int{"minimum-os": s.OS, "execution-level": s.Exec, "dpi-awareness": s.DPI} {
			got, _ := doc[k].(string)
			ok := false
			for _, sp := range manSpell[k][want] {
				ok = ok || strings.EqualFold(sp, got)
			}
			if !ok {
				return fmt.Errorf("%s is written %q for value %d", k, got, want)
			}
		}
		for j, o := range manOpts {
			if got, _ := doc[o.json].(bool); got != (s.Opts&(1<<j) != 0) {
				return fmt.Errorf("%s is written %v", o.json, doc[o.json])
			}
		}
		var back winres.AppManifest
		if err := json.Unmarshal(b, &back); err != nil {
			return fmt.Errorf("Unmarshal: %v", err)
		}
		if err := sameManifest(back, m); err != nil {
			return fmt.Errorf("%d: %v\n%s", i, err, b)
		}
	}
	if s.Opts != 0 && s.Name != "" {
		r.NonTrivial()
	}
	return nil
}

// ManJSONDoc is a hand-written JSON description.
type ManJSONDoc struct {
	M     ManSpec           `json:"m"`
	Spell map[string]string `json:"spell"` // as written, for the fields that are present
	Ver   *string           `json:"ver"`   // as written
	NVer  int               `json:"nver"`  // number of parts of the version
	Has   int               `json:"has"`   // switches written
	Bad   string            `json:"bad,omitempty"`
	Order int64             `json:"order"`
}

var manBlanks = []string{"", " ", "  ", "\t", "\n", "\r\n "}

func genManJSONDoc(t *rapid.T) ManJSONDoc {
	c := ManJSONDoc{M: genMan(t), Spell: map[string]string{}, Has: rapid.IntRange(0, 1<<len(manOpts)-1).Draw(t, "has"), Order: int64(rapid.IntRange(0, 10000).Draw(t, "order"))}
	c.M.Name, c.M.Desc = validText(c.M.Name), validText(c.M.Desc)
	bl := rapid.SampledFrom(manBlanks)
	for _, k := range []string{"minimum-os", "execution-level", "dpi-awareness"} {
		v := map[string]int{"minimum-os": c.M.OS, "execution-level": c.M.Exec, "dpi-awareness": c.M.DPI}[k]
		if rapid.IntRange(0, 4).Draw(t, "absent") > 0 {
			c.Spell[k] = bl.Draw(t, "blank") + genCase(t, rapid.SampledFrom(manSpell[k][v]).Draw(t, "spelling")) + bl.Draw(t, "blank")
		}
	}
	c.NVer = rapid.IntRange(1, 4).Draw(t, "nver")
	if rapid.IntRange(0, 3).Draw(t, "version") > 0 {
		var p []string
		for i := 0; i < c.NVer; i++ {
			p = append(p, fmt.Sprint(c.M.Ver[i]))
		}
		v := bl.Draw(t, "blank") + strings.Join(p, ".") + bl.Draw(t, "blank")
		c.Ver = &v
	}
	switch rapid.IntRange(0, 3).Draw(t, "bad") {
	case 0:
		k := rapid.SampledFrom([]string{"minimum-os", "execution-level", "dpi-awareness"}).Draw(t, "which")
		s := rapid.OneOf(rapid.String(), rapid.SampledFrom([]string{"win", "win9", "win8.", "win 7", "windows 10", "win11", "vista2", "xp", "high", "admin", "require", "as-invoker", "1", "0", "per-monitor", "per monitor v1", "permonitorv3", "true/", "pm", "systemaware", "yes",
			"asInvoker,", "win7 win8", "per  monitor", "null", "requireadministrators"})).Draw(t, "spelling")
		if rapid.Bool().Draw(t, "near") {
			// almost a spelling of this field, or one of another field
			from := rapid.SampledFrom([]string{k, k, k, "minimum-os", "execution-level", "dpi-awareness"}).Draw(t, "from")
			sp := rapid.SampledFrom(manSpell[from]).Draw(t, "value")
			s = rapid.SampledFrom(sp).Draw(t, "spelling")
			if at := rapid.IntRange(0, len(s)).Draw(t, "at"); from == k {
				end := min(len(s), at+rapid.IntRange(0, 1).Draw(t, "removed"))
				s = s[:at] + rapid.SampledFrom([]string{"", " ", "-", "_", "s", "1", "2", ".", "v", "/", ",", "\u00a0", "\u200b"}).Draw(t, "inserted") + s[end:]
			}
		}
		s = validText(s)
		for _, spells := range manSpell[k] {
			for _, sp := range spells {
				if strings.EqualFold(strings.TrimSpace(s), sp) || strings.ToLower(strings.TrimSpace(s)) == sp {
					return c
				}
			}
		}
		c.Spell[k] = s
		c.Bad = k
	case 1:
		s := rapid.SampledFrom([]string{"1.2.3.4.5", "a", "1.a", "1.-2", "-1", "65536", "1.65536", "1.2.3.99999999999999999999", "1..2", ".1", "1.", "1.2.3.", "1,2", "1.2 .3", "1. 2", "0x10", "+1", "1_0", "1.2.3.4.", "v1", "1.2-beta", "١", "."}).Draw(t, "version")
		c.Ver = &s
		c.Bad = "version"
	}
	return c
}

func (c ManJSONDoc) document() (string, winres.AppManifest) {
	q := func(s string) string { b, _ := json.Marshal(s); return string(b) }
	rnd := rand.New(rand.NewSource(c.Order))
	m := c.M.manifest()
	var f []string
	for _, k := range []string{"minimum-os", "execution-level", "dpi-awareness"} {
		if s, ok := c.Spell[k]; ok {
			f = append(f, q(k)+":"+q(s))
			continue
		}
		switch k {
		case "minimum-os":
			m.Compatibility = 0
		case "execution-level":
			m.ExecutionLevel = 0
		default:
			m.DPIAwareness = 0
		}
	}
	for i, o := range manOpts {
		if c.Has&(1<<i) != 0 {
			f = append(f, fmt.Sprintf("%q: %v", o.json, *o.field(&m)))
		} else {
			*o.field(&m) = false
		}
	}
	f = append(f, q("description")+" : "+q(m.Description))
	id := []string{q("name") + ":" + q(m.Identity.Name)}
	for i := c.NVer; i < 4; i++ {
		m.Identity.Version[i] = 0
	}
	if c.Ver != nil {
		id = append(id, q("version")+":"+q(*c.Ver))
	} else {
		m.Identity.Version = [4]uint16{}
	}
	rnd.Shuffle(len(id), func(i, j int) { id[i], id[j] = id[j], id[i] })
	f = append(f, q("identity")+": {"+strings.Join(id, ",")+"}")
	if rnd.Intn(3) == 0 {
		f = append(f, `"something-else": [1,2,{"a":null}]`)
	}
	rnd.Shuffle(len(f), func(i, j int) { f[i], f[j] = f[j], f[i] })
	return "{" + strings.Join(f, ",\n ") + "}", m
}

func runManJSONDoc(c ManJSONDoc, r *Rec) error {
	doc, want := c.document()
	var got winres.AppManifest
	err := json.Unmarshal([]byte(doc), &got)
	if c.Bad != "" {
		r.Label("invalid %s", c.Bad)
		if err == nil {
			return fmt.Errorf("invalid %s accepted: %+v\n%s", c.Bad, got, doc)
		}
		r.NonTrivial()
		return nil
	}
	if err != nil {
		return fmt.Errorf("Unmarshal: %v\n%s", err, doc)
	}
	if got != want {
		return fmt.Errorf("got %+v, want %+v\n%s", got, want, doc)
	}
	// Over another description: what the document says replaces what was there.
	used := winres.AppManifest{Description: "old", Compatibility: winres.Win81AndAbove, ExecutionLevel: winres.HighestAvailable, DPIAwareness: winres.DPIPerMonitor}
	used.Identity.Name, used.Identity.Version = "old", [4]uint16{101, 102, 103, 104}
	for i, o := range manOpts {
		*o.field(&used) = c.Has&(1<<i) != 0 && c.Order&1 != 0
	}
	if err := json.Unmarshal([]byte(doc), &used); err != nil {
		return fmt.Errorf("decoding over another description: %v\n%s", err, doc)
	}
	if _, ok := c.Spell["minimum-os"]; !ok {
		used.Compatibility = want.Compatibility
	}
	if _, ok := c.Spell["execution-level"]; !ok {
		used.ExecutionLevel = want.ExecutionLevel
	}
	if _, ok := c.Spell["dpi-awareness"]; !ok {
		used.DPIAwareness = want.DPIAwareness
	}
	if c.Ver == nil || strings.TrimSpace(*c.Ver) == "" {
		used.Identity.Version = want.Identity.Version
	}
	if used != want {
		return fmt.Errorf("over another description: got %+v, want %+v\n%s", used, want, doc)
	}
	if len(c.Spell) > 0 {
		r.NonTrivial()
	}
	return nil
}

// EnumCase is a value of an enumeration, valid or not.
type EnumCase struct {
	Which int    `json:"which"`
	V     int    `json:"v"`
	Text  string `json:"text"`
}

func runEnum(c EnumCase, r *Rec) error {
	type textual interface {
		MarshalText() ([]byte, error)
	}
	name := []string{"minimum-os", "execution-level", "dpi-awareness"}[c.Which]
	m := winres.AppManifest{}
	var v textual
	var parse func([]byte) error
	var read func() int
	index := -1
	os, ex, dpi := winres.SupportedOS(c.V), winres.ExecutionLevel(c.V), winres.DPIAwareness(c.V)
	switch c.Which {
	case 0:
		for i, x := range manOS {
			if x == os {
				index = i
			}
		}
		m.Compatibility, v, parse, read = os, os, os.UnmarshalText, func() int { return int(os) }
	case 1:
		for i, x := range manExec {
			if x == ex {
				index = i
			}
		}
		m.ExecutionLevel, v, parse, read = ex, ex, ex.UnmarshalText, func() int { return int(ex) }
	default:
		for i, x := range manDPI {
			if x == dpi {
				index = i
			}
		}
		m.DPIAwareness, v, parse, read = dpi, dpi, dpi.UnmarshalText, func() int { return int(dpi) }
	}
	b, err := v.MarshalText()
	_, jerr := json.Marshal(m)
	if index < 0 {
		r.Label("undefined value")
		if err == nil || jerr == nil {
			return fmt.Errorf("undefined %s %d is written %q", name, c.V, b)
		}
	} else {
		if err != nil || jerr != nil {
			return fmt.Errorf("%s %d: %v, %v", name, c.V, err, jerr)
		}
		if err := parse(b); err != nil || read() != c.V {
			return fmt.Errorf("%s %d is written %q, read %d (%v)", name, c.V, b, read(), err)
		}
		r.NonTrivial()
	}
	// A refused text leaves the value as it was.
	before := read()
	want := -1
	for i, spells := range manSpell[name] {
		for _, sp := range spells {
			if strings.ToLower(strings.TrimSpace(c.Text)) == sp {
				want = i
			}
		}
	}
	err = parse([]byte(c.Text))
	if want < 0 {
		if err == nil {
			return fmt.Errorf("%s: %q accepted as %d", name, c.Text, read())
		}
		if read() != before {
			return fmt.Errorf("%s: %q refused but the value became %d", name, c.Text, read())
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("%s: %q: %v", name, c.Text, err)
	}
	wantV := []func(int) int{
		func(i int) int { return int(manOS[i]) }, func(i int) int { return int(manExec[i]) }, func(i int) int { return int(manDPI[i]) },
	}[c.Which](want)
	if read() != wantV {
		return fmt.Errorf("%s: %q is read %d, want %d", name, c.Text, read(), wantV)
	}
	r.NonTrivial()
	return nil
}

// SameManifestCase embeds equal manifests.
type SameManifestCase struct {
	M, Other ManSpec
	Res      []Res `json:"res"`
}

func runSameManifest(c SameManifestCase, r *Rec) error {
	r.NonTrivial()
	first, err := c.M.written()
	if err != nil {
		return err
	}
	a, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	b := &winres.ResourceSet{}
	a.SetManifest(c.M.manifest())
	b.SetManifest(c.Other.manifest())
	for i := len(c.Res) - 1; i >= 0; i-- {
		b.Set(c.Res[i].T.w(), c.Res[i].R.w(), c.Res[i].L, []byte{1})
	}
	if err := storeAll(b, c.Res); err != nil {
		return err
	}
	b.SetManifest(c.M.manifest())
	var oa, ob bytes.Buffer
	if err := a.WriteObject(&oa, winres.ArchI386); err != nil {
		return err
	}
	if err := b.WriteObject(&ob, winres.ArchI386); err != nil {
		return err
	}
	if !bytes.Equal(oa.Bytes(), ob.Bytes()) {
		return fmt.Errorf("objects differ: %s", diffBytes(ob.Bytes(), oa.Bytes()))
	}
	if got := b.Get(winres.RT_MANIFEST, winres.ID(1), 0x409); !bytes.Equal(got, first) {
		return fmt.Errorf("manifests differ: %s", diffBytes(got, first))
	}
	return nil
}

func storeAll(rs *winres.ResourceSet, res []Res) error {
	for _, x := range res {
		if x.T == (Ident{ID: 24}) {
			continue
		}
		if err := rs.Set(x.T.w(), x.R.w(), x.L, x.D.bytes()); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	reg("C18", "generated", "name and description, or at least one switch", 30000, 1000000, genMan, runManifest)
	reg("C18", "handwritten", "at least one switch, not truncated", 30000, 1000000,
		genManDoc, runManDoc)
	reg("C19", "roundtrip", "a name and at least one switch", 30000, 1000000, genMan, runManJSON)
	reg("C19", "handwritten", "a spelling other than the absent one, or something invalid", 30000, 1000000, genManJSONDoc, runManJSONDoc)
	reg("C19", "values", "a defined value or an accepted spelling", 20000, 500000,
		func(t *rapid.T) EnumCase {
			c := EnumCase{Which: rapid.IntRange(0, 2).Draw(t, "which"), V: rapid.OneOf(rapid.IntRange(-3, 7), rapid.Int()).Draw(t, "value")}
			all := []string{}
			for _, k := range []string{"minimum-os", "execution-level", "dpi-awareness"} {
				for _, s := range manSpell[k] {
					all = append(all, s...)
				}
			}
			c.Text = rapid.SampledFrom(manBlanks).Draw(t, "blank") + genCase(t, rapid.OneOf(rapid.SampledFrom(all), rapid.SampledFrom(all), rapid.String()).Draw(t, "text")) + rapid.SampledFrom(manBlanks).Draw(t, "blank")
			return c
		}, runEnum)
	reg("C03", "manifest", "all of them", 3000, 100000,
		func(t *rapid.T) SameManifestCase {
			c := SameManifestCase{M: genMan(t), Other: genMan(t), Res: genResources(t, 4, 40)}
			var res []Res
			for _, x := range c.Res {
				if x.T != (Ident{ID: 24}) {
					res = append(res, x)
				}
			}
			c.Res = res
			return c
		}, runSameManifest)
}
