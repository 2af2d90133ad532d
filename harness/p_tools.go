package main

// C29: other resource tools read what the library writes, and the library reads what they write.

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode/utf16"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// ScriptRes is a resource of a script.
type ScriptRes struct {
	Kind string     `json:"kind"` // data, icon, cursor, version, other
	T    Ident      `json:"t"`    // of data
	R    Ident      `json:"r"`
	L    uint16     `json:"l"`
	D    Blob       `json:"d"`
	Imgs []CurImg   `json:"imgs,omitempty"`
	Lay  FileLayout `json:"lay"`
	Ver  VerSpec    `json:"ver"`
	VT   VerTune    `json:"vt"`
}

// VerTune is how version information is written, which does not change what the library reports of it.
type VerTune struct {
	Type     int  `json:"type,omitempty"` // instead of 0, when the type is neither an application nor a DLL
	Sub      int  `json:"sub,omitempty"`
	OS       int  `json:"os,omitempty"`
	Inferred bool `json:"inferred,omitempty"` // VS_FF_INFOINFERRED
	Lower    bool `json:"lower,omitempty"`    // languages in lower case
	VarFirst bool `json:"varfirst,omitempty"`
}

// ScriptCase is a resource script, and what happens to the program it is linked into.
type ScriptCase struct {
	Arch   int         `json:"arch"`
	Direct bool        `json:"direct,omitempty"` // the linker converts the compiled resources by itself
	Alone  bool        `json:"alone,omitempty"`
	Res    []ScriptRes `json:"res"`
	Other  []Res       `json:"other"`
	Opts   PatchOpts   `json:"opts"`
}

func (s ScriptRes) typ() int {
	if s.Kind == "icon" {
		return 1
	}
	return 2
}

func (s ScriptRes) groupKey() Key {
	g, _ := groupTypes(s.typ())
	return Key{g, s.R, s.L}
}

func (s ScriptRes) key() Key {
	switch s.Kind {
	case "data", "other":
		return Key{s.T, s.R, s.L}
	case "version":
		return Key{Ident{ID: 16}, s.R, s.L}
	}
	return s.groupKey()
}

// file makes the ICO or CUR file.
func (s ScriptRes) file() []byte {
	if s.Kind == "cursor" {
		return CurFile{Imgs: s.Imgs, Lay: s.Lay}.build()
	}
	var es, ds [][]byte
	for _, im := range s.Imgs {
		e := make([]byte, 16)
		e[0], e[1] = im.W, im.H
		le.PutUint16(e[4:], im.Planes)
		le.PutUint16(e[6:], im.Bits)
		es, ds = append(es, e), append(ds, im.data())
	}
	return layFile(1, es, ds, s.Lay)
}

// entries lists the images of the file.
func (s ScriptRes) entries() []Entry {
	if s.Kind == "cursor" {
		return CurFile{Imgs: s.Imgs}.entries()
	}
	var out []Entry
	for _, im := range s.Imgs {
		out = append(out, Entry{W: dim(im.W), H: dim(im.H), Planes: im.Planes, Bits: im.Bits, Data: im.data()})
	}
	orderEntries(out)
	return out
}

func rcIdent(i Ident) string {
	if i.Name != "" {
		return i.Name
	}
	return strconv.Itoa(int(i.ID))
}

// rcText writes a string literal. Only plain characters are written as such.
func rcText(s string) string {
	var b strings.Builder
	wide := false
	for _, u := range utf16.Encode([]rune(s)) {
		switch {
		case u == '"':
			b.WriteString(`""`)
		case u >= ' ' && u < 0x7F && u != '\\':
			b.WriteByte(byte(u))
		default:
			fmt.Fprintf(&b, `\x%04x`, u)
			wide = true
		}
	}
	if wide {
		return `L"` + b.String() + `"`
	}
	return `"` + b.String() + `"`
}

// otherResources are compiled resources that the library does not interpret.
var otherResources = []struct {
	typ  uint16
	text string
}{
	{4, `%s MENU { POPUP "&File" { MENUITEM "&Open", 100 MENUITEM SEPARATOR MENUITEM "E&xit", 101 } }`},
	{5, `%s DIALOG 10, 20, 100, 50 CAPTION "A dialog" { LTEXT "text", 1, 2, 3, 4, 5 PUSHBUTTON "OK", 1, 10, 30, 40, 14 }`},
	{9, `%s ACCELERATORS { "^C", 100 65, 101, VIRTKEY, CONTROL }`},
	{10, `%s RCDATA { 1, 2L, "text", L"wide" }`},
}

var rcFlags = []int{1, 2, 4, 8, 0x20}

// script writes the resource script and the files it includes.
func (c ScriptCase) script(dir string) error {
	var b strings.Builder
	for i, s := range c.Res {
		fmt.Fprintf(&b, "LANGUAGE %d, %d\n", s.L&0x3FF, s.L>>10)
		name := fmt.Sprintf("f%d.bin", i)
		var d []byte
		switch s.Kind {
		case "data":
			fmt.Fprintf(&b, "%s %s \"%s\"\n", rcIdent(s.R), rcIdent(s.T), name)
			d = s.D.bytes()
		case "icon":
			fmt.Fprintf(&b, "%s ICON \"%s\"\n", rcIdent(s.R), name)
			d = s.file()
		case "cursor":
			fmt.Fprintf(&b, "%s CURSOR \"%s\"\n", rcIdent(s.R), name)
			d = s.file()
		case "other":
			for _, x := range otherResources {
				if x.typ == s.T.ID {
					fmt.Fprintf(&b, x.text+"\n", rcIdent(s.R))
				}
			}
		case "version":
			v := s.Ver
			flags := 0
			for i, f := range rcFlags {
				if v.Flags>>i&1 != 0 {
					flags |= f
				}
			}
			if s.VT.Inferred {
				flags |= 0x10
			}
			fmt.Fprintf(&b, "%s VERSIONINFO\nFILEVERSION %d,%d,%d,%d\nPRODUCTVERSION %d,%d,%d,%d\n", rcIdent(s.R), v.F[0], v.F[1], v.F[2], v.F[3], v.P[0], v.P[1], v.P[2], v.P[3])
			fmt.Fprintf(&b, "FILEFLAGSMASK 0x3F\nFILEFLAGS %#x\nFILEOS %d\nFILETYPE %d\nFILESUBTYPE %d\n{\n", flags, s.VT.OS, []int{1, 2, s.VT.Type}[v.Type], s.VT.Sub)
			m := v.model()
			var sfi, vfi strings.Builder
			sfi.WriteString("BLOCK \"StringFileInfo\" {\n")
			var tr []string
			for _, l := range v.Langs {
				if m.T[l.L] == nil {
					continue // already written
				}
				lang := fmt.Sprintf("%04X04B0", l.L)
				if s.VT.Lower {
					lang = strings.ToLower(lang)
				}
				fmt.Fprintf(&sfi, "BLOCK \"%s\" {\n", lang)
				seen := map[string]bool{}
				for _, kv := range v.Langs {
					if kv.L != l.L {
						continue
					}
					for _, kv := range kv.KV {
						if !seen[kv.K] {
							fmt.Fprintf(&sfi, "VALUE %s, %s\n", rcText(kv.K), rcText(m.T[l.L][kv.K]))
						}
						seen[kv.K] = true
					}
				}
				sfi.WriteString("}\n")
				tr = append(tr, fmt.Sprintf("%#x, 1200", l.L))
				delete(m.T, l.L)
			}
			sfi.WriteString("}\n")
			if len(tr) > 0 {
				fmt.Fprintf(&vfi, "BLOCK \"VarFileInfo\" { VALUE \"Translation\", %s }\n", strings.Join(tr, ", "))
			}
			if s.VT.VarFirst {
				b.WriteString(vfi.String() + sfi.String())
			} else {
				b.WriteString(sfi.String() + vfi.String())
			}
			b.WriteString("}\n")
		}
		if d != nil {
			if err := os.WriteFile(filepath.Join(dir, name), d, 0o644); err != nil {
				return harnessf("%v", err)
			}
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "script.rc"), []byte(b.String()), 0o644); err != nil {
		return harnessf("%v", err)
	}
	return nil
}

// tool runs a program that has to succeed.
func tool(dir, name string, args ...string) error {
	out, err := command(dir, nil, name, args...)
	if _, ok := err.(*errHarness); ok || err == nil {
		return err
	}
	return fmt.Errorf("%s: %v: %s", name, err, cut(strings.ReplaceAll(out, dir, "")))
}

// readRES reads a compiled script.
func readRES(b []byte) (Model, error) {
	m := Model{}
	bad := harnessf("llvm-rc: malformed file of compiled resources")
	for pos := 0; pos < len(b); {
		if len(b)-pos < 32 {
			return nil, bad
		}
		size, hdr := int(le.Uint32(b[pos:])), int(le.Uint32(b[pos+4:]))
		if hdr < 32 || pos+hdr+size > len(b) {
			return nil, bad
		}
		h := b[pos+8 : pos+hdr]
		ident := func() (i Ident) {
			if le.Uint16(h) == 0xFFFF {
				i.ID = le.Uint16(h[2:])
				h = h[4:]
				return
			}
			var u []uint16
			for len(h) > 18 && le.Uint16(h) != 0 {
				u = append(u, le.Uint16(h))
				h = h[2:]
			}
			h = h[2:]
			i.Name = string(utf16.Decode(u))
			return
		}
		var k Key
		k.T, k.R = ident(), ident()
		k.L = le.Uint16(h[len(h)-10:])
		if k.T != (Ident{}) {
			m[k] = b[pos+hdr : pos+hdr+size]
		}
		pos += hdr + align4(size)
	}
	return m, nil
}

// compile makes a program that has the resources of the script. It also returns the compiled resources.
func (c ScriptCase) compile() ([]byte, Model, error) {
	base, err := linkDir()
	if err != nil {
		return nil, nil, err
	}
	dir, err := os.MkdirTemp("", "verif-script-")
	if err != nil {
		return nil, nil, harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := c.script(dir); err != nil {
		return nil, nil, err
	}
	arch := archs[c.Arch]
	m := map[winres.Arch]string{winres.ArchAMD64: "x64", winres.ArchI386: "x86", winres.ArchARM: "arm", winres.ArchARM64: "arm64"}[arch]
	if err := tool(dir, "llvm-rc", "/no-preprocess", "/FO", "r.res", "script.rc"); err != nil {
		return nil, nil, harnessf("%v", err)
	}
	file := "r.res"
	if !c.Direct {
		file = "r.obj"
		if err := tool(dir, "llvm-cvtres", "/machine:"+m, "/out:r.obj", "r.res"); err != nil {
			return nil, nil, harnessf("%v", err)
		}
	}
	args := []string{"/nologo", "/nodefaultlib", "/safeseh:no", "/machine:" + m, "/out:out.exe", file}
	if c.Alone {
		args = append(args, "/dll", "/noentry")
	} else {
		args = append(args, filepath.Join(base, fmt.Sprintf("prog_%s_msvc.o", arch)), "/subsystem:console", "/entry:entry")
	}
	if err := tool(dir, "lld-link", args...); err != nil {
		return nil, nil, harnessf("%v", err)
	}
	b, err := os.ReadFile(filepath.Join(dir, "out.exe"))
	if err != nil {
		return nil, nil, harnessf("%v", err)
	}
	res, err := os.ReadFile(filepath.Join(dir, "r.res"))
	if err != nil {
		return nil, nil, harnessf("%v", err)
	}
	list, err := readRES(res)
	return b, list, err
}

// copyImage makes llvm-objcopy read and rewrite an executable.
func copyImage(b []byte) ([]byte, error) {
	dir, err := os.MkdirTemp("", "verif-copy-")
	if err != nil {
		return nil, harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "in.exe"), b, 0o644); err != nil {
		return nil, harnessf("%v", err)
	}
	if err := tool(dir, "llvm-objcopy", "in.exe", "out.exe"); err != nil {
		return nil, err
	}
	out, err := os.ReadFile(filepath.Join(dir, "out.exe"))
	if err != nil {
		return nil, harnessf("%v", err)
	}
	return out, nil
}

func anyOrder(es []Entry) []Entry {
	sort.SliceStable(es, func(i, j int) bool {
		if a, b := es[i].String(), es[j].String(); a != b {
			return a < b
		}
		return bytes.Compare(es[i].Data, es[j].Data) < 0
	})
	return es
}

// checkScript compares a set with what the script says.
func (c ScriptCase) checkScript(rs *winres.ResourceSet, r *Rec) error {
	want := map[Key]ScriptRes{}
	var nicons, ncursors int
	for _, s := range c.Res {
		want[s.key()] = s
		switch s.Kind {
		case "icon":
			nicons += len(s.Imgs)
		case "cursor":
			ncursors += len(s.Imgs)
		}
	}
	items := walkItems(rs)
	found := 0
	for _, it := range items {
		switch {
		case it.T == (Ident{ID: 3}):
			nicons--
			continue
		case it.T == (Ident{ID: 1}):
			ncursors--
			continue
		}
		s, ok := want[it.Key]
		if !ok {
			return fmt.Errorf("unexpected resource %v", it.Key)
		}
		found++
		switch s.Kind {
		case "other":
			if len(it.D) == 0 {
				return fmt.Errorf("resource %v is empty", it.Key)
			}
		case "data":
			if !bytes.Equal(it.D, s.D.bytes()) {
				return fmt.Errorf("resource %v: %s", it.Key, diffBytes(it.D, s.D.bytes()))
			}
		case "version":
			vi, err := version.FromBytes(it.D)
			if err != nil {
				return fmt.Errorf("version %v: %v", it.Key, err)
			}
			m := s.Ver.model()
			if err := sameInfo(observeInfo(vi), m, 0); err != nil {
				return fmt.Errorf("version %v: %v", it.Key, err)
			}
			// What the library makes of it says the same.
			ours, err := parseVS(vi.Bytes())
			if err != nil {
				return fmt.Errorf("version %v, written again: %v", it.Key, err)
			}
			if err := sameInfo(ours, m, 0); err != nil {
				return fmt.Errorf("version %v, written again: %v", it.Key, err)
			}
		default:
			p, err := getPicsLang(s.typ(), rs, s.R, s.L)
			if err != nil {
				return fmt.Errorf("%s %v: %v", s.Kind, it.Key, err)
			}
			b, err := p.bytes()
			if err != nil {
				return fmt.Errorf("%s %v: saving: %v", s.Kind, it.Key, err)
			}
			got, err := parseIconFile(s.typ(), b)
			if err != nil {
				return fmt.Errorf("%s %v: saved file: %v", s.Kind, it.Key, err)
			}
			// The order of images isn't the matter here (C11, C12), and compilers write 0 for a width of 256.
			if err := sameEntries(anyOrder(got), anyOrder(s.entries())); err != nil {
				return fmt.Errorf("%s %v: %v", s.Kind, it.Key, err)
			}
		}
	}
	if found != len(want) || nicons != 0 || ncursors != 0 {
		return fmt.Errorf("%d of %d resources found; missing images: %d of icons, %d of cursors", found, len(want), nicons, ncursors)
	}
	return nil
}

// sameGroups compares the groups made by the compiler with those the library makes of the same files.
func (c ScriptCase) sameGroups(rs *winres.ResourceSet) error {
	own := &winres.ResourceSet{}
	for _, s := range c.Res {
		if s.Kind != "icon" && s.Kind != "cursor" {
			continue
		}
		k := s.groupKey()
		p, err := loadPics(s.typ(), s.file())
		if err != nil {
			return fmt.Errorf("loading the file of %s %v: %v", s.Kind, k, err)
		}
		if err := p.store(own, s.R, s.L); err != nil {
			return fmt.Errorf("storing %s %v: %v", s.Kind, k, err)
		}
		list := func(set *winres.ResourceSet) ([]Entry, error) {
			m := Model{}
			for _, it := range walkItems(set) {
				m[it.Key] = it.D
			}
			out, ok := expectPics(s.typ(), m, m[k])
			if !ok {
				return nil, fmt.Errorf("group %v is not regular", k)
			}
			_, it := groupTypes(s.typ())
			ge, _ := parseGroup(s.typ(), m[k])
			for _, g := range ge {
				if d, _ := m.imageOf(it, g.ID); len(d) != int(g.Size) {
					return nil, fmt.Errorf("group %v says that image %d has %d bytes, it has %d", k, g.ID, g.Size, len(d))
				}
			}
			return out, nil
		}
		theirs, err := list(rs)
		if err != nil {
			return harnessf("llvm-rc: %v", err)
		}
		for i := range theirs { // as in a CUR file
			if theirs[i].W == 0 {
				theirs[i].W = 256
			}
			if theirs[i].H == 0 {
				theirs[i].H = 256
			}
		}
		ours, err := list(own)
		if err != nil {
			return err
		}
		if err := sameEntries(anyOrder(ours), anyOrder(theirs)); err != nil {
			return fmt.Errorf("%s %v is not stored as the compiler stored it: %v", s.Kind, k, err)
		}
	}
	return nil
}

func runScript(c ScriptCase, r *Rec) error {
	exe, compiled, err := c.compile()
	if err != nil {
		return err
	}
	in, err := parsePE(exe)
	if err != nil {
		return harnessf("%v", err)
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	if err := sameItems(walkItems(rs), compiled.items()); err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	if err := c.checkScript(rs, r); err != nil {
		return err
	}
	if err := c.sameGroups(rs); err != nil {
		return err
	}
	for _, s := range c.Res {
		r.Label("%s", s.Kind)
		r.LabelIf(len(s.Imgs) > 1, "several images")
		r.LabelIf(len(s.Ver.Langs) > 1, "several translations")
	}
	r.LabelIf(len(c.Res) > 20, "many resources")
	r.LabelIf(c.Direct, "converted by the linker")
	if len(c.Res) >= 2 {
		r.NonTrivial()
	}
	// What was loaded replaces other resources, which replaced it.
	other, err := buildSet(c.Other)
	if err != nil {
		return err
	}
	var step, last bytes.Buffer
	if err := c.Opts.patch(other, &step, bytes.NewReader(exe)); err != nil {
		if want, _ := expectRefusal(in, treeSize(modelOf(c.Other)), c.Opts); want == 0 {
			return fmt.Errorf("refused to patch: %v", err)
		}
		r.Label("refused")
		return nil
	}
	copied, err := copyImage(step.Bytes())
	if err != nil {
		return fmt.Errorf("patched: %v", err)
	}
	kept, err := winres.LoadFromEXE(bytes.NewReader(copied))
	if err != nil {
		return fmt.Errorf("patched, rewritten by llvm-objcopy: LoadFromEXE: %v", err)
	}
	if err := sameItems(walkItems(kept), modelOf(c.Other).items()); err != nil {
		return fmt.Errorf("patched, rewritten by llvm-objcopy: %v", err)
	}
	if err := c.Opts.patch(rs, &last, bytes.NewReader(step.Bytes())); err != nil {
		mid, perr := parsePE(step.Bytes())
		if perr != nil {
			return fmt.Errorf("patched: %v", perr)
		}
		m := Model{}
		for _, it := range walkItems(rs) {
			m[it.Key] = it.D
		}
		if want, _ := expectRefusal(mid, treeSize(m), c.Opts); want == 0 {
			return fmt.Errorf("refused to patch again: %v", err)
		}
		r.Label("refused")
		return nil
	}
	back, err := winres.LoadFromEXE(bytes.NewReader(last.Bytes()))
	if err != nil {
		return fmt.Errorf("patched twice: LoadFromEXE: %v", err)
	}
	if err := c.checkScript(back, r); err != nil {
		return fmt.Errorf("patched twice: %v", err)
	}
	r.Label("patched")
	return nil
}

var (
	scriptTypes = []Ident{{ID: 10}, {ID: 10}, {ID: 23}, {ID: 24}, {ID: 255}, {ID: 256}, {ID: 65535}, {Name: "T_A"}, {Name: "T_B"}, {Name: "T_ABC"}}
	scriptNames = []Ident{{ID: 1}, {ID: 2}, {ID: 3}, {ID: 256}, {ID: 65535}, {Name: "N_A"}, {Name: "N_B"}, {Name: "N_ABC"}}
	scriptLangs = []uint16{0, 0x409, 0x409, 0x407, 0x40C, 0x1009, 1, 0xFFFF, 0x800}
)

func genScriptIdent(t *rapid.T, pool []Ident, prefix string, lowest int) Ident {
	switch rapid.IntRange(0, 9).Draw(t, "identclass") {
	case 8:
		return Ident{ID: uint16(rapid.IntRange(lowest, 65535).Draw(t, "id"))}
	case 9:
		n := prefix
		for i, l := 0, rapid.IntRange(1, 50).Draw(t, "len"); i < l; i++ {
			n += string("ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[rapid.IntRange(0, 36).Draw(t, "letter")])
		}
		return Ident{Name: n}
	}
	return rapid.SampledFrom(pool).Draw(t, "pool")
}

func genScript(t *rapid.T) ScriptCase {
	c := ScriptCase{Arch: rapid.IntRange(0, 3).Draw(t, "arch"), Direct: rapid.Bool().Draw(t, "direct"), Alone: rapid.Bool().Draw(t, "alone"),
		Other: genResources(t, 5, 1000), Opts: genPatchOpts(t)}
	seen := map[Key]bool{}
	for i, n := 0, rapid.IntRange(1, 7).Draw(t, "n"); i < n; i++ {
		s := ScriptRes{Kind: rapid.SampledFrom([]string{"data", "data", "icon", "icon", "cursor", "cursor", "version", "version", "other"}).Draw(t, "kind")}
		s.R = genScriptIdent(t, scriptNames, "N_", 1)
		s.L = rapid.SampledFrom(scriptLangs).Draw(t, "lang")
		switch s.Kind {
		case "data":
			s.T = genScriptIdent(t, scriptTypes, "T_", 256)
			s.D = genBlob(t, 3000)
			if rapid.IntRange(0, 60).Draw(t, "big") == 0 {
				s.D.N = rapid.IntRange(60000, 400000).Draw(t, "bigsize")
			}
		case "other":
			s.T = Ident{ID: otherResources[rapid.IntRange(0, len(otherResources)-1).Draw(t, "other")].typ}
		case "version":
			s.Ver = genVer(t, verGenOpts{maxLangs: 3, maxKeys: 4})
			s.Ver.Time = nil
			s.VT = VerTune{
				Type:     rapid.SampledFrom([]int{0, 0, 3, 4, 5, 7, 0x102}).Draw(t, "ftype"),
				Sub:      rapid.SampledFrom([]int{0, 0, 1, 10}).Draw(t, "subtype"),
				OS:       rapid.SampledFrom([]int{0x40004, 0, 4, 0x10001}).Draw(t, "os"),
				Inferred: rapid.IntRange(0, 3).Draw(t, "inferred") == 0,
				Lower:    rapid.Bool().Draw(t, "lower"),
				VarFirst: rapid.IntRange(0, 3).Draw(t, "varfirst") == 0,
			}
			if sizeVS(s.Ver.model()) > 40000 {
				s.Ver.Langs = s.Ver.Langs[:1]
				s.Ver.Langs[0].KV = []KV{{"ProductName", "x"}}
			}
		default:
			s.Imgs = genCurFile(t, 5, 2000).Imgs
			if len(s.Imgs) == 0 {
				s.Imgs = []CurImg{{W: 16, H: 16, D: Blob{N: 40}}}
			}
			for i := range s.Imgs {
				im := &s.Imgs[i]
				im.Planes, im.Res = 1, 0
				if im.Bits == 0 {
					im.Bits = 32
				}
				if im.Hdr == 0 && s.Kind == "icon" {
					im.Bits = 32
				} else {
					im.Hdr = 40
				}
			}
			s.Lay = genFileLayout(t)
		}
		if !seen[s.key()] {
			seen[s.key()] = true
			c.Res = append(c.Res, s)
		}
	}
	if rapid.IntRange(0, 39).Draw(t, "many") == 0 {
		n := rapid.OneOf(rapid.SampledFrom([]int{16, 64, 127, 128, 129, 255, 256, 257}), rapid.IntRange(10, 400)).Draw(t, "manyn")
		how := rapid.IntRange(0, 3).Draw(t, "manyhow")
		for i := 0; i < n; i++ {
			s := ScriptRes{Kind: "data", T: Ident{ID: 300}, R: Ident{ID: 5}, L: 0x409, D: Blob{N: i % 50, S: uint32(i)}}
			switch how {
			case 0:
				s.T = Ident{ID: uint16(300 + i*7)}
			case 1:
				s.R = Ident{ID: uint16(5 + i*11)}
			case 2:
				s.L = uint16(0x400 + i*13)
			default:
				s.R = Ident{Name: fmt.Sprintf("N_%d", i*7919%10007)}
			}
			if !seen[s.key()] {
				seen[s.key()] = true
				c.Res = append(c.Res, s)
			}
		}
	}
	return c
}

// ReadCase is a set whose object and program are read by another tool.
type ReadCase struct {
	Arch int       `json:"arch"`
	Res  []Res     `json:"res"`
	Opts PatchOpts `json:"opts"`
}

// readObj lists resources as llvm-readobj does.
func readObj(file string) ([]Item, error) {
	out, err := command(filepath.Dir(file), nil, "llvm-readobj", "--coff-resources", filepath.Base(file))
	if _, ok := err.(*errHarness); ok {
		return nil, err
	}
	if err != nil {
		return nil, fmt.Errorf("llvm-readobj: %v: %s", err, cut(out))
	}
	var items []Item
	var k Key
	count, size := -1, 0
	ident := func(s string) (Ident, error) {
		i := strings.LastIndex(s, "ID ")
		if i < 0 {
			return Ident{Name: s}, nil
		}
		n, err := strconv.ParseUint(strings.TrimSuffix(s[i+3:], ")"), 10, 16)
		return Ident{ID: uint16(n)}, err
	}
	inData := false
	for _, line := range strings.Split(out, "\n") {
		line = strings.TrimSpace(line)
		var err error
		f := func(prefix string) (string, bool) {
			if !strings.HasPrefix(line, prefix) {
				return "", false
			}
			return strings.TrimSuffix(strings.TrimSuffix(line[len(prefix):], "["), " "), true
		}
		if inData {
			if line == ")" {
				inData = false
				continue
			}
			_, hexa, ok := strings.Cut(line, ": ")
			i := strings.LastIndex(hexa, "|")
			if i > 35 {
				i = 35
			}
			if !ok || i < 0 {
				return nil, harnessf("llvm-readobj: line %q", line)
			}
			d, err := hex.DecodeString(strings.ReplaceAll(hexa[:i], " ", ""))
			if err != nil {
				return nil, harnessf("llvm-readobj: line %q", line)
			}
			items[len(items)-1].D = append(items[len(items)-1].D, d...)
			continue
		}
		if s, ok := f("Total Number of Resources: "); ok {
			count, err = strconv.Atoi(s)
		} else if s, ok := f("Type: "); ok {
			k.T, err = ident(s)
		} else if s, ok := f("Name: "); ok {
			k.R, err = ident(s)
		} else if s, ok := f("Language: "); ok {
			var l Ident
			l, err = ident(s)
			k.L = l.ID
		} else if s, ok := f("DataSize: "); ok {
			size, err = strconv.Atoi(s)
			items = append(items, Item{k, make([]byte, 0, size)})
		} else if line == "Data (" {
			inData = true
		}
		if err != nil {
			return nil, fmt.Errorf("llvm-readobj: %q: %v", line, err)
		}
	}
	if count != len(items) {
		return nil, fmt.Errorf("llvm-readobj: %d resources, %d listed", count, len(items))
	}
	return items, nil
}

func runReadObj(c ReadCase, r *Rec) error {
	dir, err := os.MkdirTemp("", "verif-read-")
	if err != nil {
		return harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	rs, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	m := modelOf(c.Res)
	check := func(what string, b []byte) error {
		file := filepath.Join(dir, "file")
		if err := os.WriteFile(file, b, 0o644); err != nil {
			return harnessf("%v", err)
		}
		items, err := readObj(file)
		if err == nil {
			err = sameItems(items, m.items())
		}
		if _, ok := err.(*errHarness); !ok && err != nil {
			return fmt.Errorf("%s: %v", what, err)
		}
		return err
	}
	var obj, exe bytes.Buffer
	if err := rs.WriteObject(&obj, archs[c.Arch]); err != nil {
		return fmt.Errorf("WriteObject: %v", err)
	}
	if err := check("object", obj.Bytes()); err != nil {
		return err
	}
	if err := c.Opts.patch(rs, &exe, bytes.NewReader(minimalEXE(nil))); err != nil {
		return fmt.Errorf("WriteToEXE: %v", err)
	}
	if err := check("executable", exe.Bytes()); err != nil {
		return err
	}
	if len(m) >= 2 {
		r.NonTrivial()
	}
	return nil
}

func genReadIdent(t *rapid.T, prefix string, id uint16) Ident {
	switch rapid.IntRange(0, 2).Draw(t, "class") {
	case 0:
		return Ident{ID: id}
	case 1:
		return Ident{ID: uint16(rapid.IntRange(1, 65535).Draw(t, "id"))}
	}
	n := prefix
	for i, l := 0, rapid.IntRange(0, 20).Draw(t, "len"); i < l; i++ {
		n += rapid.SampledFrom([]string{"a", "B", "z", "0", "_", "é", "水", "Ж", "\U0001F600"}).Draw(t, "letter")
	}
	return Ident{Name: n}
}

func genReadCase(t *rapid.T) ReadCase {
	c := ReadCase{Arch: rapid.IntRange(0, 3).Draw(t, "arch"), Opts: genPatchOpts(t)}
	seen := map[Key]bool{}
	var keys []Key
	for i, n := 0, rapid.OneOf(rapid.IntRange(1, 10), rapid.IntRange(1, 10), rapid.IntRange(11, 120)).Draw(t, "n"); i < n; i++ {
		k := Key{genReadIdent(t, "T", 10), genReadIdent(t, "N", 1), genLang(t)}
		if len(keys) > 0 {
			near := rapid.SampledFrom(keys).Draw(t, "near")
			switch rapid.IntRange(0, 3).Draw(t, "share") {
			case 0, 1:
				k.T = near.T
			case 2:
				k.T, k.R = near.T, near.R
			}
		}
		if !seen[k] {
			seen[k] = true
			keys = append(keys, k)
			max := 300
			if i > 20 {
				max = 20
			}
			c.Res = append(c.Res, Res{k, genBlob(t, max)})
		}
	}
	return c
}

// ToolManifest is a manifest that goes through another tool.
type ToolManifest struct {
	M     ManSpec `json:"m"`
	Embed bool    `json:"embed,omitempty"` // by the linker, in a program
}

func runToolManifest(c ToolManifest, r *Rec) error {
	b, err := c.M.written()
	if err != nil {
		return err
	}
	dir, err := os.MkdirTemp("", "verif-manifest-")
	if err != nil {
		return harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := os.WriteFile(filepath.Join(dir, "in.xml"), b, 0o644); err != nil {
		return harnessf("%v", err)
	}
	var out []byte
	if c.Embed {
		base, err := linkDir()
		if err != nil {
			return err
		}
		err = tool(dir, "lld-link", "/nologo", "/nodefaultlib", "/machine:x64", "/out:out.exe", filepath.Join(base, "prog_amd64_msvc.o"),
			"/subsystem:console", "/entry:entry", "/manifestuac:no", "/manifest:embed", "/manifestinput:in.xml")
		if err != nil {
			return fmt.Errorf("%v\n%s", err, b)
		}
		exe, err := os.ReadFile(filepath.Join(dir, "out.exe"))
		if err != nil {
			return harnessf("%v", err)
		}
		rs, err := winres.LoadFromEXE(bytes.NewReader(exe))
		if err != nil {
			return fmt.Errorf("LoadFromEXE: %v", err)
		}
		if out = rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409); out == nil || rs.Count() != 1 {
			return fmt.Errorf("%d resources in the program, manifest (24,1,0x409) present: %v", rs.Count(), out != nil)
		}
	} else {
		if err := tool(dir, "llvm-mt", "/nologo", "/manifest", "in.xml", "/out:out.xml"); err != nil {
			return fmt.Errorf("%v\n%s", err, b)
		}
		if out, err = os.ReadFile(filepath.Join(dir, "out.xml")); err != nil {
			return harnessf("%v", err)
		}
	}
	root, err := parseXML(string(out))
	if err != nil {
		return harnessf("%v\n%s", err, out)
	}
	if got, want := root.canon(), c.M.expected().canon(); got != want {
		return fmt.Errorf("elements are\n%s\nwant\n%s", got, want)
	}
	back, err := winres.AppManifestFromXML(out)
	if err != nil {
		return fmt.Errorf("AppManifestFromXML: %v\n%s", err, out)
	}
	want := c.M.manifest()
	want.Identity.Name, want.Description = legalXML(c.M.Name), legalXML(c.M.Desc)
	if err := sameManifest(back, want); err != nil {
		return fmt.Errorf("AppManifestFromXML: %v\n%s", err, out)
	}
	r.LabelIf(c.Embed, "embedded by the linker")
	if c.M.Name != "" && c.M.Desc != "" || c.M.Opts != 0 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	reg("C29", "manifest", "name and description, or at least one switch", 1500, 80000,
		func(t *rapid.T) ToolManifest { return ToolManifest{genMan(t), rapid.Bool().Draw(t, "embed")} }, runToolManifest)
	reg("C29", "script", "at least two resources", 900, 40000, genScript, runScript)
	reg("C29", "read", "at least two resources", 1200, 60000, genReadCase, runReadObj)
}
