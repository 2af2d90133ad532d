package main

// C26: values are independent of one another. C27: and of what happens in parallel.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"image"
	"image/color"
	"image/draw"
	"sort"
	"sync"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// IndOp is a step of a history on a pool of values. A, B and C select values of the right kind.
type IndOp struct {
	Op   string `json:"op"`
	A    int    `json:"a,omitempty"`
	B    int    `json:"b,omitempty"`
	C    int    `json:"c,omitempty"`
	Pic  *Pic   `json:"pic,omitempty"`
	Text string `json:"text,omitempty"`
	Look bool   `json:"look,omitempty"` // look at every value in the second run
}

// IndCase is a history.
type IndCase struct {
	Ops []IndOp `json:"ops"`
}

// val is a value of the pool.
type val struct {
	kind   string // img, sizes, file1, file2, exe, icon1, icon2, set, info, table, bin, json, man
	img    draw.Image
	sizes  []int
	b      []byte
	pics   pics
	set    *winres.ResourceSet
	info   *version.Info
	table  version.LangTable
	man    *winres.AppManifest
	digest string
}

// look gives all that can be seen of a value.
func (v *val) look() string {
	switch v.kind {
	case "img":
		// All of its memory, with the pixels around its bounds and the color of transparent pixels.
		return fmt.Sprintf("%T %v", v.img, v.img)
	case "sizes":
		return fmt.Sprint(v.sizes, winres.DefaultIconSizes)
	case "icon1", "icon2":
		b, err := v.pics.bytes()
		return fmt.Sprintf("%x %v", b, err)
	case "set":
		var b bytes.Buffer
		for _, it := range walkItems(v.set) {
			fmt.Fprintf(&b, "%v %x\n", it.Key, it.D)
		}
		return b.String()
	case "info":
		return infoText(v.info)
	case "table":
		return tableText(v.table)
	case "man":
		return fmt.Sprintf("%+v", *v.man)
	}
	return fmt.Sprintf("%x", v.b)
}

func infoText(vi *version.Info) string {
	return fmt.Sprint(vi.FileVersion, vi.ProductVersion, vi.Flags, vi.Type, vi.Timestamp) + tableText(vi.Table())
}

func tableText(lt version.LangTable) string {
	var keys []int
	for l := range lt {
		keys = append(keys, int(l))
	}
	sort.Ints(keys)
	var b bytes.Buffer
	for _, l := range keys {
		fmt.Fprintf(&b, "\n%x:", l)
		if st := lt[uint16(l)]; st != nil {
			var ks []string
			for k := range *st {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			for _, k := range ks {
				fmt.Fprintf(&b, " %q=%q", k, (*st)[k])
			}
		}
	}
	return b.String()
}

var indKinds = map[string]string{ // kinds of the first value that an operation needs
	"paint": "img", "icon": "img", "cursor": "img", "resize": "img", "editsizes": "sizes",
	"load1": "file1", "load2": "file2", "scribble": "bytes", "save": "icon", "store": "icon", "same icon": "icon",
	"set": "set", "delete": "set", "get1": "set", "get2": "set", "patch": "set", "object": "set", "walk": "set", "append": "set", "setversion": "info", "setmanifest": "man",
	"load": "exe", "signed": "exe",
	"setkey": "info", "setver": "info", "fixed": "info", "table": "info", "edittable": "table", "split": "info", "merge": "info", "bytes": "info", "frombytes": "bin", "marshal": "info", "unmarshal": "json", "into": "json",
	"editman": "man", "readman": "set",
}

func genIndCase(t *rapid.T) IndCase {
	var c IndCase
	ops := []string{"newimg", "newimg", "newsizes", "newfile1", "newfile2", "newset", "newexe", "newinfo", "newinfo", "newman"}
	for k := range indKinds {
		ops = append(ops, k)
	}
	sort.Strings(ops)
	n := rapid.IntRange(4, 40).Draw(t, "n")
	focus := rapid.SampledFrom([]string{"", "", "images", "version", "sets"}).Draw(t, "focus")
	for i := 0; i < n; i++ {
		pool := ops
		if i < 5 {
			switch focus {
			case "images":
				pool = []string{"newimg", "newfile1", "newfile2", "newset", "newsizes"}[i:]
			case "version":
				pool = []string{"newinfo", "newinfo", "newset", "newinfo"}
			case "sets":
				pool = []string{"newexe", "newset", "newfile1", "newman", "newset"}[i:]
			default:
				pool = ops[:0:0]
				for _, o := range ops {
					if o[:3] == "new" {
						pool = append(pool, o)
					}
				}
			}
			pool = pool[:1+(len(pool)-1)/(1+i%2)]
		}
		switch {
		case i < 5:
		case focus == "images":
			pool = []string{"newimg", "paint", "paint", "icon", "cursor", "resize", "newsizes", "editsizes", "newfile1", "newfile2", "load1", "load2", "scribble", "save", "store", "get1", "get2", "set", "delete", "same icon", "newset"}
		case focus == "version":
			pool = []string{"newinfo", "setkey", "setkey", "setver", "fixed", "table", "edittable", "split", "merge", "bytes", "frombytes", "marshal", "unmarshal", "into", "scribble", "setversion", "newset"}
		case focus == "sets":
			pool = []string{"newset", "newexe", "set", "delete", "patch", "object", "load", "scribble", "store", "newfile1", "load1", "get1", "walk", "append", "append", "signed", "setmanifest", "newman", "editman", "readman", "same icon"}
		}
		o := IndOp{Op: rapid.SampledFrom(pool).Draw(t, "op"), A: rapid.IntRange(0, 50).Draw(t, "a"), B: rapid.IntRange(0, 50).Draw(t, "b"), C: rapid.IntRange(0, 50).Draw(t, "c")}
		o.Look = rapid.IntRange(0, 9).Draw(t, "look") == 0
		switch o.Op {
		case "newimg":
			p := Pic{Kind: rapid.SampledFrom([]string{"nrgba", "nrgba", "rgba", "gray", "pal", "nrgba64"}).Draw(t, "kind"), Seed: rapid.Uint32Range(0, 999).Draw(t, "seed"), Fill: rapid.IntRange(0, 5).Draw(t, "fill"), Dirty: rapid.Bool().Draw(t, "dirty")}
			p.W = rapid.IntRange(1, 9).Draw(t, "w")
			p.H = p.W
			if rapid.Bool().Draw(t, "rect") {
				p.H = rapid.IntRange(1, 9).Draw(t, "h")
			}
			if rapid.IntRange(0, 2).Draw(t, "moved") == 0 {
				p.X, p.Y, p.Crop = 3, -2, rapid.IntRange(0, 2).Draw(t, "crop")
			}
			o.Pic = &p
		case "setkey", "edittable", "setver", "editman", "newman":
			o.Text = rapid.SampledFrom([]string{"1.2.3.4", "5.6", "x", "é", "", "7"}).Draw(t, "text")
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

var (
	indKeys  = []string{"FileVersion", "ProductName", "K", "k2"}
	indLangs = []uint16{0, 0x409, 0x40C, 0x411}
)

// indRun runs a history. It returns the values. With always, every value is looked at after each step,
// and those that the step had no reason to change are compared with what they were.
func indRun(c IndCase, always bool, r *Rec) ([]*val, error) {
	var pool []*val
	find := func(kind string, n int) *val {
		var l []*val
		for _, v := range pool {
			if v.kind == kind || kind == "icon" && (v.kind == "icon1" || v.kind == "icon2") || kind == "bytes" && v.b != nil {
				l = append(l, v)
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[n%len(l)]
	}
	seq := 0
	for step, o := range c.Ops {
		var changed *val
		var made []*val
		add := func(v *val) { made = append(made, v) }
		var x *val
		if k := indKinds[o.Op]; k != "" {
			if x = find(k, o.A); x == nil {
				continue
			}
		}
		bad := func(err error) error { return fmt.Errorf("step %d (%s): %v", step, o.Op, err) }
		addSet := func(rs *winres.ResourceSet) { add(&val{kind: "set", set: rs}) }
		key := func() (winres.Identifier, uint16) {
			return []winres.Identifier{winres.Name("A"), winres.ID(1), winres.ID(2)}[o.B%3], []uint16{0, 0x409}[o.C%2]
		}
		switch o.Op {
		case "newimg":
			img, ok := o.Pic.image().(draw.Image)
			if !ok {
				return nil, harnessf("%s is not a draw.Image", o.Pic.Kind)
			}
			add(&val{kind: "img", img: img})
		case "paint":
			b := x.img.Bounds()
			for i := 0; i < 3; i++ {
				x.img.Set(b.Min.X+(o.B+i)%b.Dx(), b.Min.Y+(o.C+i)%b.Dy(), color.NRGBA{uint8(o.B * 5), uint8(o.C * 5), uint8(step), uint8(255 - 40*i)})
			}
			if p, ok := x.img.(*image.Paletted); ok {
				p.Palette[o.B%len(p.Palette)] = color.NRGBA{uint8(o.C), 7, 8, 255}
			}
			changed = x
		case "newsizes":
			add(&val{kind: "sizes", sizes: []int{3 + o.A%5, 16, 2 + o.B%9, 16}})
		case "editsizes":
			x.sizes[o.B%len(x.sizes)] = 1 + o.C
			changed = x
		case "icon", "cursor":
			imgs := []image.Image{x.img}
			for i := 0; i < o.B%3; i++ {
				imgs = append(imgs, find("img", o.C+i).img)
			}
			var p pics
			var err error
			kind := "icon1"
			if o.Op == "icon" {
				p.ic, err = winres.NewIconFromImages(imgs)
			} else {
				kind = "icon2"
				var in []winres.CursorImage
				for i, m := range imgs {
					in = append(in, winres.CursorImage{Image: m, HotSpot: winres.HotSpot{X: uint16(i), Y: uint16(o.C)}})
				}
				p.cu, err = winres.NewCursorFromImages(in)
				for i := range in {
					if in[i].Image != imgs[i] || in[i].HotSpot != (winres.HotSpot{X: uint16(i), Y: uint16(o.C)}) {
						return nil, bad(fmt.Errorf("the list of images was changed"))
					}
					in[i].HotSpot.X = 99
				}
			}
			if err != nil {
				return nil, bad(err)
			}
			if imgs[0] != image.Image(x.img) {
				return nil, bad(fmt.Errorf("the list of images was changed"))
			}
			for i := range imgs {
				imgs[i] = nil
			}
			add(&val{kind: kind, pics: p})
		case "resize":
			if x.img.Bounds().Dx() != x.img.Bounds().Dy() {
				continue
			}
			var sizes []int
			if s := find("sizes", o.B); s != nil {
				sizes = s.sizes
			}
			if sizes == nil && o.C%8 != 0 {
				continue // the default sizes are slow to make
			}
			ic, err := winres.NewIconFromResizedImage(x.img, sizes)
			if err != nil {
				return nil, bad(err)
			}
			add(&val{kind: "icon1", pics: pics{ic: ic}})
		case "newfile1":
			f := IcoFile{}
			for i := 0; i <= o.A%4; i++ {
				f.Imgs = append(f.Imgs, IcoImg{W: uint8(16 * (i + 1)), H: 16, Bits: uint16(8 << (o.B % 3)), Planes: 1, D: Blob{N: 5 + o.C, S: uint32(i + o.A)}})
			}
			add(&val{kind: "file1", b: f.build()})
		case "newfile2":
			f := CurFile{}
			for i := 0; i <= o.A%4; i++ {
				f.Imgs = append(f.Imgs, CurImg{W: uint8(16 * (i + 1)), H: 16, Hdr: 40, Planes: 1, Bits: 32, X: uint16(i), D: Blob{N: 5 + o.C, S: uint32(i + o.A)}})
			}
			add(&val{kind: "file2", b: f.build()})
		case "load1", "load2":
			typ := int(o.Op[4] - '0')
			p, err := loadPics(typ, x.b)
			if err != nil {
				continue // it has been scribbled on
			}
			add(&val{kind: "icon" + o.Op[4:], pics: p})
		case "scribble":
			for i := 0; i < 1+o.C; i++ {
				if len(x.b) > 0 {
					x.b[(o.B*7+i*13)%len(x.b)] ^= byte(1 + o.C)
				}
			}
			changed = x
		case "save":
			b, err := x.pics.bytes()
			if err != nil {
				return nil, bad(err)
			}
			add(&val{kind: "file" + x.kind[4:], b: b})
		case "store":
			s := find("set", o.B)
			if s == nil {
				continue
			}
			k, l := key()
			if err := x.pics.store(s.set, identOf(k), l); err != nil {
				return nil, bad(err)
			}
			changed = s
		case "same icon":
			// The same icon in every set
			for _, v := range pool {
				if v.kind == "set" {
					if err := x.pics.store(v.set, Ident{Name: "SAME"}, 0); err != nil {
						return nil, bad(err)
					}
					if always {
						v.digest = v.look()
					}
				}
			}
		case "newset":
			addSet(&winres.ResourceSet{})
		case "set", "delete":
			k, l := key()
			ty := []winres.Identifier{winres.RT_RCDATA, winres.RT_ICON, winres.RT_CURSOR, winres.RT_GROUP_ICON, winres.Name("T")}[o.A%5]
			var d []byte
			if o.Op == "set" {
				seq++
				d = Blob{N: 5 + o.C, S: uint32(seq)}.bytes()
			}
			if err := x.set.Set(ty, k, l, d); err != nil {
				return nil, bad(err)
			}
			changed = x
		case "get1", "get2":
			typ := int(o.Op[3] - '0')
			k, _ := key()
			if o.C%4 == 0 {
				k = winres.Name("SAME")
			}
			p, err := getPics(typ, x.set, identOf(k))
			if err != nil {
				continue // there is none
			}
			add(&val{kind: "icon" + o.Op[3:], pics: p})
		case "newexe":
			add(&val{kind: "exe", b: minimalEXE([]Res{{Key{Ident{ID: 10}, Ident{ID: 1}, 0}, Blob{N: 10 + o.A}}, {Key{Ident{ID: 10}, Ident{ID: 1}, 9}, Blob{N: 3 + o.B, S: 3}}})})
		case "patch", "object":
			var b bytes.Buffer
			if o.Op == "object" {
				if err := x.set.WriteObject(&b, archs[o.B%4]); err != nil {
					return nil, bad(err)
				}
				add(&val{kind: "obj", b: b.Bytes()})
				break
			}
			e := find("exe", o.B)
			if e == nil {
				continue
			}
			if err := x.set.WriteToEXE(&b, bytes.NewReader(e.b)); err != nil {
				continue // it has been scribbled on
			}
			add(&val{kind: "exe", b: b.Bytes()})
		case "walk":
			x.set.Count()
			n := 0
			x.set.Walk(func(_, _ winres.Identifier, _ uint16, _ []byte) bool { n++; return n < o.B })
			x.set.WalkType(winres.RT_ICON, func(_ winres.Identifier, _ uint16, _ []byte) bool { return true })
			x.set.Get(winres.RT_RCDATA, winres.ID(1), 0)
		case "append":
			// Appending to the data of a resource gives another slice
			junk := bytes.Repeat([]byte{0xEE}, 1+o.B)
			x.set.Walk(func(ty, id winres.Identifier, lang uint16, d []byte) bool {
				_ = append(d, junk...)
				_ = append(x.set.Get(ty, id, lang), junk...)
				return true
			})
		case "load":
			rs, err := winres.LoadFromEXE(bytes.NewReader(x.b))
			if err != nil {
				continue
			}
			addSet(rs)
		case "signed":
			winres.IsSignedEXE(bytes.NewReader(x.b))
		case "newinfo":
			vi := &version.Info{FileVersion: [4]uint16{1, 2, 3, uint16(o.A)}, ProductVersion: [4]uint16{uint16(o.B)}}
			for i := 0; i < 1+o.B%5; i++ {
				vi.Set(indLangs[(o.A+i)%4], indKeys[(o.B+i)%4], fmt.Sprintf("v%d", i+o.C))
			}
			add(&val{kind: "info", info: vi})
		case "setkey":
			if err := x.info.Set(indLangs[o.B%4], indKeys[o.C%4], o.Text); err != nil {
				return nil, bad(err)
			}
			changed = x
		case "setver":
			if o.B%2 == 0 {
				x.info.SetFileVersion(o.Text)
			} else {
				x.info.SetProductVersion(o.Text)
			}
			changed = x
		case "fixed":
			x.info.FileVersion[o.B%4]++
			x.info.Flags.Debug = !x.info.Flags.Debug
			changed = x
		case "table":
			add(&val{kind: "table", table: x.info.Table()})
		case "edittable":
			if x.table == nil {
				continue
			}
			switch st := x.table[indLangs[o.B%4]]; {
			case st == nil:
				x.table[indLangs[o.B%4]] = &version.StringTable{"new": o.Text}
			case o.C%5 == 0:
				delete(x.table, indLangs[o.B%4])
			case o.C%5 == 1:
				for k := range *st {
					delete(*st, k)
				}
			default:
				(*st)[indKeys[o.C%4]] = o.Text
			}
			changed = x
			// Main translations may be shared with the table they are taken from, and only with it
		case "split":
			m := x.info.SplitTranslations()
			var ls []int
			for l := range m {
				ls = append(ls, int(l))
			}
			sort.Ints(ls)
			for _, l := range ls {
				add(&val{kind: "info", info: m[uint16(l)]})
			}
		case "merge":
			m := map[uint16]*version.Info{indLangs[o.B%4]: x.info, indLangs[(o.B+1+o.C%3)%4]: find("info", o.C).info}
			n := len(m)
			add(&val{kind: "info", info: version.MergeTranslations(m)})
			if len(m) != n {
				return nil, bad(fmt.Errorf("the map was changed"))
			}
		case "bytes":
			add(&val{kind: "bin", b: x.info.Bytes()})
		case "frombytes":
			if vi, err := version.FromBytes(x.b); err == nil {
				add(&val{kind: "info", info: vi})
			}
		case "marshal":
			b, err := json.Marshal(x.info)
			if err != nil {
				continue
			}
			add(&val{kind: "json", b: b})
		case "unmarshal":
			vi := &version.Info{}
			if err := json.Unmarshal(x.b, vi); err == nil {
				add(&val{kind: "info", info: vi})
			}
		case "into":
			y := find("info", o.B)
			if y == nil {
				continue
			}
			json.Unmarshal(x.b, y.info)
			changed = y
		case "setversion":
			s := find("set", o.B)
			if s == nil {
				continue
			}
			s.set.SetVersionInfo(*x.info)
			changed = s
		case "newman":
			m := ManSpec{Name: o.Text, Desc: "d", OS: o.A % 5, Exec: o.B % 3, DPI: o.C % 4, Opts: o.A * o.B}.manifest()
			add(&val{kind: "man", man: &m})
		case "editman":
			x.man.Description += o.Text
			x.man.UIAccess = !x.man.UIAccess
			changed = x
		case "setmanifest":
			s := find("set", o.B)
			if s == nil {
				continue
			}
			s.set.SetManifest(*x.man)
			changed = s
		case "readman":
			d := x.set.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
			if m, err := winres.AppManifestFromXML(d); err == nil && d != nil {
				add(&val{kind: "man", man: &m})
			}
		default:
			return nil, harnessf("unknown operation %s", o.Op)
		}
		if always {
			for i, v := range pool {
				if v == changed {
					v.digest = v.look()
				} else if d := v.look(); d != v.digest {
					return nil, bad(fmt.Errorf("%s number %d was changed: it was %s, it is %s", v.kind, i, cut(v.digest), cut(d)))
				}
			}
			for _, v := range made {
				v.digest = v.look()
			}
			if len(pool) > 1 && (changed != nil || len(made) > 0) {
				r.ops++
			}
		} else if o.Look {
			for _, v := range pool {
				v.look()
			}
		}
		pool = append(pool, made...)
		r.LabelIf(always, o.Op)
	}
	return pool, nil
}

func runIndependent(c IndCase, r *Rec) error {
	a, err := indRun(c, true, r)
	if err != nil {
		return err
	}
	b, err := indRun(c, false, r)
	if err != nil {
		return fmt.Errorf("when values are not looked at: %v", err)
	}
	if len(a) != len(b) {
		return fmt.Errorf("the history gives %d values, or %d when they are not looked at", len(a), len(b))
	}
	// Backwards, so that an effect of looking at a value on those made before is also seen
	for i := len(b) - 1; i >= 0; i-- {
		if d := b[i].look(); d != a[i].digest {
			return fmt.Errorf("%s number %d depends on when values are looked at: it is %s or %s", b[i].kind, i, cut(d), cut(a[i].digest))
		}
	}
	if r.ops >= 5 {
		r.NonTrivial()
	}
	return nil
}

// Job is something to do in parallel with other jobs.
type Job struct {
	Kind string    `json:"kind"`
	Op   *StreamOp `json:"op,omitempty"`
	Pics []Pic     `json:"pics,omitempty"`
	Ver  *VerSpec  `json:"ver,omitempty"`
	Man  *ManSpec  `json:"man,omitempty"`
	N    int       `json:"n,omitempty"`
}

// ParCase is a list of jobs.
type ParCase struct {
	Jobs   []Job `json:"jobs"`
	Rounds int   `json:"rounds"`
}

func genParCase(t *rapid.T) ParCase {
	var c ParCase
	one := ""
	kinds := []string{"stream", "stream", "icon", "cursor", "resize", "version", "manifest", "set"}
	if rapid.Bool().Draw(t, "same kind") {
		one = rapid.SampledFrom(kinds).Draw(t, "kind")
	}
	n := rapid.IntRange(2, 8).Draw(t, "n")
	for i := 0; i < n; i++ {
		j := Job{Kind: one, N: rapid.IntRange(0, 20).Draw(t, "jn")}
		if one == "" {
			j.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
		}
		switch j.Kind {
		case "stream":
			op := genStreamOp(t, "object", "patch", "load", "loadtype", "issigned", "loadico", "loadcur", "saveico", "savecur")
			j.Op = &op
		case "icon", "cursor", "resize":
			for k := rapid.IntRange(1, 3).Draw(t, "npics"); k > 0; k-- {
				p := Pic{Kind: rapid.SampledFrom(picKinds).Draw(t, "pic"), Seed: rapid.Uint32Range(0, 99).Draw(t, "seed"), W: rapid.IntRange(2, 40).Draw(t, "w")}
				p.H = p.W
				if j.Kind != "resize" && rapid.Bool().Draw(t, "rect") {
					p.H = rapid.IntRange(2, 40).Draw(t, "h")
				}
				j.Pics = append(j.Pics, p)
			}
		case "version":
			v := genVer(t, verGenOpts{maxLangs: 4, maxKeys: 6, maxSec: maxJSONTime})
			j.Ver = &v
		case "manifest":
			m := genMan(t)
			j.Man = &m
		case "set":
			j.Op = &StreamOp{Op: "object", Res: genResources(t, 12, 300)}
		}
		c.Jobs = append(c.Jobs, j)
	}
	c.Rounds = rapid.IntRange(1, 4).Draw(t, "rounds")
	return c
}

// prepare returns a function which does the job on values of its own, and tells all about the result.
func (j Job) prepare() (func() string, error) {
	text := func(b []byte, err error) string { return fmt.Sprintf("%x %v", b, err) }
	switch j.Kind {
	case "stream":
		src := j.Op.source()
		return func() string {
			op, err := j.Op.prepare()
			if err != nil {
				return err.Error()
			}
			var dst bytes.Buffer
			res, err := op(bytes.NewReader(src), &dst)
			return fmt.Sprint(res, err) + text(dst.Bytes(), err)
		}, nil
	case "icon", "cursor", "resize":
		var imgs []image.Image
		var cur []winres.CursorImage
		for i, p := range j.Pics {
			imgs = append(imgs, p.image())
			cur = append(cur, winres.CursorImage{Image: imgs[i], HotSpot: winres.HotSpot{X: uint16(i), Y: 9}})
		}
		return func() string {
			var p pics
			var err error
			switch j.Kind {
			case "icon":
				p.ic, err = winres.NewIconFromImages(imgs)
			case "cursor":
				p.cu, err = winres.NewCursorFromImages(cur)
			default:
				sizes := []int{1 + j.N, 16, 24}
				if j.N > 17 {
					sizes = nil // the default
				}
				p.ic, err = winres.NewIconFromResizedImage(imgs[0], sizes)
			}
			if err != nil {
				return err.Error()
			}
			b, err := p.bytes()
			s := text(b, err)
			rs := &winres.ResourceSet{}
			if err := p.store(rs, Ident{ID: 1}, 0); err != nil {
				return err.Error()
			}
			for _, it := range walkItems(rs) {
				s += fmt.Sprintf("%v %x\n", it.Key, it.D)
			}
			if p.ic != nil {
				p.ic, err = rs.GetIcon(winres.ID(1))
			} else {
				p.cu, err = rs.GetCursor(winres.ID(1))
			}
			if err != nil {
				return s + err.Error()
			}
			b, err = p.bytes()
			return s + text(b, err)
		}, nil
	case "version":
		return func() string {
			vi, err := j.Ver.info()
			if err != nil {
				return err.Error()
			}
			vi.SetFileVersion(fmt.Sprint(j.N, ".2.3"))
			b := vi.Bytes()
			s := text(b, nil)
			back, err := version.FromBytes(b)
			if err != nil {
				return s + err.Error()
			}
			js, err := json.Marshal(back)
			s += infoText(back) + string(js)
			if err == nil {
				again := &version.Info{}
				err = json.Unmarshal(js, again)
				s += fmt.Sprint(err) + infoText(again)
			}
			sp := vi.SplitTranslations()
			for l := 0; l < 65536; l++ {
				if x := sp[uint16(l)]; x != nil {
					s += text(x.Bytes(), nil)
				}
			}
			s += infoText(version.MergeTranslations(sp))
			rs := &winres.ResourceSet{}
			rs.SetVersionInfo(*vi)
			for _, it := range walkItems(rs) {
				s += fmt.Sprintf("%v %x\n", it.Key, it.D)
			}
			return s
		}, nil
	case "manifest":
		return func() string {
			m := j.Man.manifest()
			rs := &winres.ResourceSet{}
			rs.SetManifest(m)
			d := rs.Get(winres.RT_MANIFEST, winres.ID(1), 0x409)
			back, err := winres.AppManifestFromXML(d)
			js, jerr := json.Marshal(m)
			var again winres.AppManifest
			aerr := json.Unmarshal(js, &again)
			return fmt.Sprintf("%s %+v %v %s %v %+v %v", d, back, err, js, jerr, again, aerr)
		}, nil
	case "set":
		return func() string {
			rs, err := buildSet(j.Op.Res)
			if err != nil {
				return err.Error()
			}
			s := fmt.Sprint(rs.Count())
			for i, x := range j.Op.Res {
				if i%3 == j.N%3 {
					rs.Set(x.T.w(), x.R.w(), x.L, nil)
				}
			}
			var obj, exe bytes.Buffer
			err = rs.WriteObject(&obj, archs[j.N%4])
			s += text(obj.Bytes(), err)
			err = rs.WriteToEXE(&exe, bytes.NewReader(minimalEXE(nil)), winres.ForceCheckSum())
			s += text(exe.Bytes(), err)
			back, err := winres.LoadFromEXE(bytes.NewReader(exe.Bytes()))
			s += fmt.Sprint(err)
			if err == nil {
				for _, it := range walkItems(back) {
					s += fmt.Sprintf("%v %x\n", it.Key, it.D)
				}
			}
			return s
		}, nil
	}
	return nil, harnessf("unknown job %s", j.Kind)
}

func runParallel(c ParCase, r *Rec) error {
	var jobs []func() string
	var want []string
	for _, j := range c.Jobs {
		f, err := j.prepare()
		if err != nil {
			return err
		}
		jobs = append(jobs, f)
		want = append(want, f())
		r.Label(j.Kind)
	}
	// One after another, in the reverse order
	for i := len(jobs) - 1; i >= 0; i-- {
		if got := jobs[i](); got != want[i] {
			return fmt.Errorf("job %d (%s) gives another result when it is done again: %s instead of %s", i, c.Jobs[i].Kind, cut(diffText(got, want[i])), cut(diffText(want[i], got)))
		}
	}
	if len(jobs) >= 2 {
		r.NonTrivial()
	}
	// In parallel
	got := make([]string, len(jobs)*c.Rounds)
	panics := make([]interface{}, len(got))
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range got {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			<-start
			got[i] = jobs[i%len(jobs)]()
		}(i)
	}
	races := raceErrors()
	close(start)
	wg.Wait()
	if raceErrors() > races {
		return fmt.Errorf("data race between operations on distinct values (the report is on the standard error of a replay)")
	}
	for i := range got {
		w := want[i%len(jobs)]
		if panics[i] != nil {
			return fmt.Errorf("job %d (%s) panics when others are done in parallel: %v", i%len(jobs), c.Jobs[i%len(jobs)].Kind, panics[i])
		}
		if got[i] != w {
			return fmt.Errorf("job %d (%s) gives another result when others are done in parallel: %s instead of %s", i%len(jobs), c.Jobs[i%len(jobs)].Kind, cut(diffText(got[i], w)), cut(diffText(w, got[i])))
		}
	}
	return nil
}

// diffText shows a text from a little before the first difference.
func diffText(s, other string) string {
	i := 0
	for i < len(s) && i < len(other) && s[i] == other[i] {
		i++
	}
	return fmt.Sprintf("[%d:] %s", i, s[max(i-20, 0):])
}

func init() {
	reg("C26", "history", "at least five steps that make or change a value while there are others", 24000, 600000, genIndCase, runIndependent)
	f := reg("C27", "parallel", "at least two jobs", 6000, 1000000, genParCase, runParallel)
	f.MaxShards, f.Procs = 4, 4
	f = reg("C27", "race", "at least two jobs (data races are detected too)", 600, 100000, genParCase, runParallel)
	f.Race, f.Procs = true, 2
}
