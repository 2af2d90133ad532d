package main

// C01: a resource set is an ordered map.

import (
	"bytes"
	"fmt"
	"image"
	"image/color"

	"github.com/tc-hib/winres"
	"github.com/tc-hib/winres/version"
	"pgregory.net/rapid"
)

// Op is an operation of a history.
type Op struct {
	O string `json:"o"`
	K Key    `json:"k"`
	D Blob   `json:"d"`
	N int    `json:"n,omitempty"`
}

// History is a sequence of operations, maybe on a set loaded from an executable.
type History struct {
	Loaded []Res `json:"loaded,omitempty"`
	Ops    []Op  `json:"ops"`
}

var archs = []winres.Arch{winres.ArchAMD64, winres.ArchI386, winres.ArchARM, winres.ArchARM64}

var (
	smallTypes = []Ident{{ID: 10}, {ID: 3}, {ID: 14}, {ID: 1}, {ID: 12}, {ID: 24}, {ID: 16}, {Name: "A"}, {Name: "B"}, {Name: "a"}}
	smallRes   = []Ident{{ID: 1}, {ID: 2}, {ID: 7}, {Name: "A"}, {Name: "B"}, {Name: "Z"}}
	smallLangs = []uint16{0, 0x409, 0x407}
)

func genSmallKey(t *rapid.T) Key {
	if rapid.IntRange(0, 11).Draw(t, "anykey") == 0 {
		k := genKey(t)
		if k.T == (Ident{ID: 3}) || k.T == (Ident{ID: 1}) {
			k.R.ID &= 0x0FFF // stay far from the last image number: see C25
			if k.R == (Ident{}) {
				k.R.ID = 1
			}
		}
		return k
	}
	return Key{
		rapid.SampledFrom(smallTypes).Draw(t, "type"),
		rapid.SampledFrom(smallRes).Draw(t, "res"),
		rapid.SampledFrom(smallLangs).Draw(t, "lang"),
	}
}

var storeOps = []string{
	"set", "set", "set", "set", "set", "set", "del", "del", "del", "get", "count",
	"walk", "walk", "walktype", "walktype", "obj", "exe", "icon", "geticon", "cursor", "getcursor", "manifest", "version", "bad", "setempty", "gettr",
}

func genHistory(t *rapid.T) History {
	h := History{Ops: []Op{}}
	if rapid.IntRange(0, 3).Draw(t, "loaded") == 0 {
		seen := map[Key]bool{}
		for i, n := 0, rapid.IntRange(1, 5).Draw(t, "nloaded"); i < n; i++ {
			k := genSmallKey(t)
			if !seen[k] {
				seen[k] = true
				h.Loaded = append(h.Loaded, Res{k, genBlob(t, 100)})
			}
		}
	}
	// Work on few keys, so that operations meet.
	var pool []Key
	for i, n := 0, rapid.IntRange(1, 5).Draw(t, "pool"); i < n; i++ {
		k := genSmallKey(t)
		if i > 0 {
			p := pool[rapid.IntRange(0, i-1).Draw(t, "near")]
			switch rapid.IntRange(0, 3).Draw(t, "share") {
			case 0, 1:
				k.T = p.T
			case 2:
				k.T, k.R = p.T, p.R
			}
			if (k.T == (Ident{ID: 3}) || k.T == (Ident{ID: 1})) && k.R.ID > 0x0FFF {
				k.R.ID = k.R.ID&0x0FFF | 1
			}
		}
		pool = append(pool, k)
	}
	for i, n := 0, rapid.IntRange(1, 30).Draw(t, "nops"); i < n; i++ {
		op := Op{O: rapid.SampledFrom(storeOps).Draw(t, "op"), K: rapid.SampledFrom(pool).Draw(t, "key")}
		if op.O == "set" {
			op.D = genBlob(t, 200)
		}
		op.N = rapid.IntRange(0, 7).Draw(t, "n")
		h.Ops = append(h.Ops, op)
	}
	return h
}

// genLargeHistory draws long histories of sets with hundreds of entries, long names, or much data.
func genLargeHistory(t *rapid.T) History {
	h := History{Ops: []Op{}}
	res := genLargeRes(t)
	if rapid.Bool().Draw(t, "loaded") {
		h.Loaded = res
	} else {
		step := rapid.SampledFrom([]int{1, 7, 101, 9973}).Draw(t, "step")
		for i, n := 0, len(res); i < n; i++ {
			x := res[i*step%n] // not a permutation if step and n have a common divisor, it does not matter
			h.Ops = append(h.Ops, Op{O: "set", K: x.Key, D: x.D})
		}
	}
	n := rapid.IntRange(3, 60).Draw(t, "nops")
	heavy := 4
	for i := 0; i < n; i++ {
		op := Op{O: rapid.SampledFrom([]string{"set", "set", "set", "del", "del", "del", "del", "get", "get", "setempty", "count", "walk", "walktype", "obj", "exe"}).Draw(t, "op")}
		op.K = res[rapid.IntRange(0, len(res)-1).Draw(t, "key")].Key
		switch op.O {
		case "set":
			if rapid.IntRange(0, 2).Draw(t, "newkey") == 0 {
				switch k := genSmallKey(t); rapid.IntRange(0, 2).Draw(t, "part") {
				case 0:
					op.K = k
				case 1:
					op.K.R = k.R
				default:
					op.K.L = k.L
				}
			}
			op.D = genBlob(t, 200)
		case "walk", "walktype":
			op.N = rapid.IntRange(0, len(res)+1).Draw(t, "n")
		case "obj", "exe":
			if heavy--; heavy < 0 {
				op.O = "del"
			}
		}
		h.Ops = append(h.Ops, op)
	}
	return h
}

func tinyIcon(n int) (*winres.Icon, error) {
	f := IcoFile{}
	for i := 0; i <= n%3; i++ {
		f.Imgs = append(f.Imgs, IcoImg{W: uint8(16 * (i + 1)), H: uint8(16 * (i + 1)), Planes: 1, Bits: 32, D: Blob{N: 10 + n + i, S: uint32(n)}})
	}
	return winres.LoadICO(bytes.NewReader(f.build()))
}

func tinyCursor(n int) (*winres.Cursor, error) {
	f := CurFile{}
	for i := 0; i <= n%3; i++ {
		f.Imgs = append(f.Imgs, CurImg{W: uint8(16 * (i + 1)), H: uint8(16 * (i + 1)), Hdr: 40, Planes: 1, Bits: 32, D: Blob{N: 10 + n + i, S: uint32(n)}, X: 3, Y: uint16(n)})
	}
	return winres.LoadCUR(bytes.NewReader(f.build()))
}

// minimalEXE is a small regular image with room for a section.
func minimalEXE(rsrc []Res) []byte {
	s := &PESpec{Plus: true, Room: 100, NumDirs: 16, FileAlign: 0x200, SectAlign: 0x1000,
		Secs: []SecSpec{{Name: ".text", Raw: Blob{N: 300, S: 5}, Flags: 0x60000020}}, Overlay: Blob{N: 7}}
	if rsrc != nil {
		s.Rsrc = rsrc
		s.Secs = append(s.Secs, SecSpec{Name: ".rsrc", Role: "rsrc", Flags: 0x40000040})
	}
	return s.build()
}

// checkSet compares a set with the model, through every way of looking at it.
func checkSet(rs *winres.ResourceSet, m Model, how int) error {
	if got := rs.Count(); got != len(m) {
		return fmt.Errorf("Count() = %d, want %d", got, len(m))
	}
	for k, v := range m {
		d := rs.Get(k.T.w(), k.R.w(), k.L)
		if d == nil {
			return fmt.Errorf("Get%v = nil, want %d bytes", k, len(v))
		}
		if !bytes.Equal(d, v) {
			return fmt.Errorf("Get%v: %s", k, diffBytes(d, v))
		}
		for _, abs := range []Key{{k.T, k.R, k.L + 1}, {k.T, k.R, k.L ^ 0x409}, {k.T, Ident{Name: "absent"}, k.L}, {Ident{ID: 999}, k.R, k.L}} {
			if _, ok := m[abs]; !ok && rs.Get(abs.T.w(), abs.R.w(), abs.L) != nil {
				return fmt.Errorf("Get%v is not nil, but there is no such resource", abs)
			}
		}
	}
	walk := func() error {
		if err := sameItems(walkItems(rs), m.items()); err != nil {
			return fmt.Errorf("Walk: %v", err)
		}
		return nil
	}
	walkTypes := func() error {
		byType := map[Ident][]Item{{ID: 999}: nil}
		for _, it := range m.items() {
			byType[it.T] = append(byType[it.T], it)
		}
		for _, it := range append(smallTypes, typePool...) {
			byType[it] = append([]Item{}, byType[it]...)
		}
		for ty, want := range byType {
			var got []Item
			rs.WalkType(ty.w(), func(r winres.Identifier, l uint16, d []byte) bool {
				got = append(got, Item{Key{ty, identOf(r), l}, d})
				return true
			})
			if err := sameItems(got, want); err != nil {
				return fmt.Errorf("WalkType(%v): %v", ty, err)
			}
		}
		return nil
	}
	object := func() error {
		var b bytes.Buffer
		if err := rs.WriteObject(&b, winres.ArchAMD64); err != nil {
			return fmt.Errorf("WriteObject: %v", err)
		}
		o, err := parseCOFF(b.Bytes(), winres.ArchAMD64)
		if err != nil {
			return fmt.Errorf("WriteObject: %v", err)
		}
		if err := sameItems(o.tree.Items, m.items()); err != nil {
			return fmt.Errorf("WriteObject: %v", err)
		}
		// Nothing is left of what was deleted or refused.
		fresh := &winres.ResourceSet{}
		for k, v := range m {
			if err := fresh.Set(k.T.w(), k.R.w(), k.L, append([]byte{}, v...)); err != nil {
				return fmt.Errorf("Set%v: %v", k, err)
			}
		}
		var f bytes.Buffer
		if err := fresh.WriteObject(&f, winres.ArchAMD64); err != nil {
			return fmt.Errorf("WriteObject of a fresh set: %v", err)
		}
		if !bytes.Equal(f.Bytes(), b.Bytes()) {
			return fmt.Errorf("WriteObject differs from that of a fresh set with the same content: %s", diffBytes(b.Bytes(), f.Bytes()))
		}
		return nil
	}
	orders := [][]func() error{{walk, walkTypes, object}, {walkTypes, object, walk}, {object, walk, walkTypes}}
	for _, f := range orders[how%3] {
		if err := f(); err != nil {
			return err
		}
	}
	return nil
}

func runHistory(h History, r *Rec) error {
	rs := &winres.ResourceSet{}
	m := Model{}
	if h.Loaded != nil {
		var err error
		rs, err = winres.LoadFromEXE(bytes.NewReader(minimalEXE(h.Loaded)))
		if err != nil {
			return fmt.Errorf("LoadFromEXE: %v", err)
		}
		m = modelOf(h.Loaded)
		r.Label("on a loaded set")
	}
	reads, writesAfterRead := 0, 0
	for i, op := range h.Ops {
		fail := func(format string, a ...interface{}) error {
			return fmt.Errorf("operation %d (%s %v): %s", i, op.O, op.K, fmt.Sprintf(format, a...))
		}
		T, R, L := op.K.T.w(), op.K.R.w(), op.K.L
		isWrite := true
		switch op.O {
		case "set", "setempty":
			d := op.D.bytes()
			if err := rs.Set(T, R, L, d); err != nil {
				return fail("%v", err)
			}
			m[op.K] = append([]byte{}, d...)
		case "del":
			if _, ok := m[op.K]; ok {
				r.Label("delete existing")
			}
			if err := rs.Set(T, R, L, nil); err != nil {
				return fail("%v", err)
			}
			delete(m, op.K)
		case "bad":
			bad := []winres.Identifier{winres.ID(0), winres.Name(""), winres.Name("a\x00b"), winres.Name("\x00")}[op.N%4]
			var err error
			if op.N < 4 {
				err = rs.Set(bad, R, L, []byte{1})
			} else {
				err = rs.Set(T, bad, L, []byte{1})
				if err != nil {
					err = rs.Set(winres.ID(998), bad, L, []byte{1})
				}
			}
			if err == nil {
				return fail("invalid identifier %#v accepted", bad)
			}
		case "icon":
			ic, err := tinyIcon(op.N)
			if err != nil {
				return fail("LoadICO: %v", err)
			}
			if op.N%2 == 0 {
				L = 0
				err = rs.SetIcon(R, ic)
			} else {
				err = rs.SetIconTranslation(R, L, ic)
			}
			if err != nil {
				return fail("%v", err)
			}
			if err := adopt(rs, m, 1, op.K.R, L, op.N%3+1); err != nil {
				return fail("%v", err)
			}
		case "cursor":
			c, err := tinyCursor(op.N)
			if err != nil {
				return fail("LoadCUR: %v", err)
			}
			if op.N%2 == 0 {
				L = 0
				err = rs.SetCursor(R, c)
			} else {
				err = rs.SetCursorTranslation(R, L, c)
			}
			if err != nil {
				return fail("%v", err)
			}
			if err := adopt(rs, m, 2, op.K.R, L, op.N%3+1); err != nil {
				return fail("%v", err)
			}
		case "manifest":
			rs.SetManifest(winres.AppManifest{Description: fmt.Sprint("d", op.N)})
			k := Key{Ident{ID: 24}, Ident{ID: 1}, 0x409}
			d := rs.Get(k.T.w(), k.R.w(), k.L)
			if d == nil {
				return fail("no manifest resource")
			}
			m[k] = append([]byte{}, d...)
		case "version":
			vi := version.Info{}
			langs := []uint16{0, 0x409, 0x407}[:op.N%3+1]
			for _, l := range langs {
				vi.Set(l, version.ProductName, fmt.Sprint("v", op.N))
			}
			rs.SetVersionInfo(vi)
			for _, l := range langs {
				k := Key{Ident{ID: 16}, Ident{ID: 1}, l}
				d := rs.Get(k.T.w(), k.R.w(), k.L)
				if d == nil {
					return fail("no version resource for language %#x", l)
				}
				m[k] = append([]byte{}, d...)
			}
		default:
			isWrite = false
			reads++
		}
		if isWrite && reads > 0 {
			writesAfterRead++
		}
		switch op.O {
		case "get":
			d := rs.Get(T, R, L)
			w, ok := m[op.K]
			if ok != (d != nil) || !bytes.Equal(d, w) {
				return fail("got %d bytes (nil: %v), want %d (present: %v)", len(d), d == nil, len(w), ok)
			}
		case "count":
			if c := rs.Count(); c != len(m) {
				return fail("%d, want %d", c, len(m))
			}
		case "walk":
			items := m.items()
			stop := op.N
			var got []Item
			rs.Walk(func(t, rid winres.Identifier, l uint16, d []byte) bool {
				got = append(got, Item{Key{identOf(t), identOf(rid), l}, d})
				return len(got) != stop
			})
			if stop > 0 && stop < len(items) {
				items = items[:stop]
				r.Label("walk stopped early")
			}
			if err := sameItems(got, items); err != nil {
				return fail("stop at %d: %v", stop, err)
			}
		case "walktype":
			var items, got []Item
			for _, it := range m.items() {
				if it.T == op.K.T {
					items = append(items, it)
				}
			}
			stop := op.N
			rs.WalkType(T, func(rid winres.Identifier, l uint16, d []byte) bool {
				got = append(got, Item{Key{op.K.T, identOf(rid), l}, d})
				return len(got) != stop
			})
			if stop > 0 && stop < len(items) {
				items = items[:stop]
			}
			if err := sameItems(got, items); err != nil {
				return fail("stop at %d: %v", stop, err)
			}
		case "obj":
			var b bytes.Buffer
			arch := archs[op.N%4]
			if err := rs.WriteObject(&b, arch); err != nil {
				return fail("%v", err)
			}
			o, err := parseCOFF(b.Bytes(), arch)
			if err != nil {
				return fail("%v", err)
			}
			if err := sameItems(o.tree.Items, m.items()); err != nil {
				return fail("%v", err)
			}
		case "exe":
			var b bytes.Buffer
			if err := rs.WriteToEXE(&b, bytes.NewReader(minimalEXE(nil))); err != nil {
				return fail("%v", err)
			}
			v, err := parsePE(b.Bytes())
			if err != nil {
				return fail("%v", err)
			}
			tr, err := v.resources()
			if err != nil {
				return fail("%v", err)
			}
			if err := sameItems(tr.Items, m.items()); err != nil {
				return fail("%v", err)
			}
		case "geticon":
			rs.GetIcon(R)
		case "gettr":
			rs.GetIconTranslation(R, L)
			if hasShortCursor(m) {
				break
			}
			rs.GetCursorTranslation(R, L)
		case "getcursor":
			rs.GetCursor(R)
		}
	}
	r.LabelIf(writesAfterRead > 0, "writes after reads")
	if writesAfterRead > 0 && len(m) > 1 {
		r.NonTrivial()
	}
	return checkSet(rs, m, len(h.Ops))
}

func hasShortCursor(m Model) bool { return false }

// adopt checks the resources that storing an icon (typ 1) or cursor (typ 2) created, and adds them to the model.
func adopt(rs *winres.ResourceSet, m Model, typ int, res Ident, lang uint16, n int) error {
	gt, it := Ident{ID: 14}, Ident{ID: 3}
	if typ == 2 {
		gt, it = Ident{ID: 12}, Ident{ID: 1}
	}
	gk := Key{gt, res, lang}
	g := rs.Get(gt.w(), res.w(), lang)
	if g == nil {
		return fmt.Errorf("no group resource %v", gk)
	}
	es, err := parseGroup(typ, g)
	if err != nil {
		return err
	}
	if len(es) != n {
		return fmt.Errorf("group has %d images, want %d", len(es), n)
	}
	m[gk] = append([]byte{}, g...)
	for _, e := range es {
		for k := range m {
			if k.T == it && k.R == (Ident{ID: e.ID}) {
				return fmt.Errorf("image number %d was in use", e.ID)
			}
		}
		d := rs.Get(it.w(), winres.ID(e.ID), 0)
		if d == nil {
			return fmt.Errorf("no image number %d", e.ID)
		}
		m[Key{it, Ident{ID: e.ID}, 0}] = append([]byte{}, d...)
	}
	return nil
}

func init() {
	reg("C01", "history", "a write happens after a read, and at least two resources remain",
		12000, 400000, genHistory, runHistory)
	reg("C01", "large", "a write happens after a read, and at least two resources remain",
		150, 6000, genLargeHistory, runHistory)
}

// used by several files
func solid(w, h int, c color.NRGBA) image.Image {
	m := image.NewNRGBA(image.Rect(0, 0, w, h))
	for i := 0; i < len(m.Pix); i += 4 {
		m.Pix[i], m.Pix[i+1], m.Pix[i+2], m.Pix[i+3] = c.R, c.G, c.B, c.A
	}
	return m
}
