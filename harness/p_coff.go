package main

// C02: the object file. C03 (sets): determinism.

import (
	"bytes"
	"debug/pe"
	"fmt"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// ObjCase is a set to serialise for an architecture.
type ObjCase struct {
	Res  []Res `json:"res"`
	Arch int   `json:"arch"`
}

func checkObject(b []byte, arch winres.Arch, m Model) error {
	o, err := parseCOFF(b, arch)
	if err != nil {
		return err
	}
	if err := sameItems(o.tree.Items, m.items()); err != nil {
		return err
	}
	if err := disjoint(o.tree.Spans); err != nil {
		return err
	}
	for i, f := range o.tree.RVAFields {
		v := int(le.Uint32(o.sec[f:]))
		if len(o.tree.Items[i].D) > 0 && v%8 != 0 {
			return fmt.Errorf("data of %v at %#x is not aligned", o.tree.Items[i].Key, v)
		}
		if f%4 != 0 {
			return fmt.Errorf("data entry of %v at %#x is not aligned", o.tree.Items[i].Key, f)
		}
	}
	return nil
}

// debugPE cross-checks our reader with the one of the standard library.
func debugPE(b []byte, arch winres.Arch, n int) error {
	f, err := pe.NewFile(bytes.NewReader(b))
	if err != nil {
		return fmt.Errorf("debug/pe: %v", err)
	}
	if f.Machine != coffMachine[arch] || len(f.Sections) != 1 || f.Sections[0].Name != ".rsrc" {
		return fmt.Errorf("debug/pe: machine %#x, %d sections", f.Machine, len(f.Sections))
	}
	if len(f.Sections[0].Relocs) != n {
		return fmt.Errorf("debug/pe: %d relocations, want %d", len(f.Sections[0].Relocs), n)
	}
	d, err := f.Sections[0].Data()
	if err != nil || !bytes.Equal(d, b[f.Sections[0].Offset:f.Sections[0].Offset+f.Sections[0].Size]) {
		return fmt.Errorf("debug/pe: section data: %v", err)
	}
	if len(f.Symbols) != 1 || f.Symbols[0].Name != ".rsrc" || f.Symbols[0].SectionNumber != 1 || f.Symbols[0].StorageClass != 3 {
		return fmt.Errorf("debug/pe: symbols %+v", f.Symbols)
	}
	return nil
}

// genManyResources draws sets with up to a few hundred resources.
func genManyResources(t *rapid.T) []Res {
	if rapid.IntRange(0, 29).Draw(t, "many") > 0 {
		return genResources(t, 12, 3000)
	}
	nt, nr, nl := rapid.IntRange(1, 12).Draw(t, "ntypes"), rapid.IntRange(1, 15).Draw(t, "nresources"), rapid.IntRange(1, 6).Draw(t, "nlangs")
	names := rapid.IntRange(0, 3).Draw(t, "names")
	id := func(kind string, i int) Ident {
		if i%4 < names {
			return Ident{Name: fmt.Sprintf("%s%d", kind, i*7919%1000)}
		}
		return Ident{ID: uint16(i*7919%4000 + 1)}
	}
	var out []Res
	for i := 0; i < nt; i++ {
		for j := 0; j < nr; j++ {
			for k := 0; k < nl; k++ {
				out = append(out, Res{Key{id("T", i), id("N", j), uint16(k * 977 % 3000)}, Blob{N: (i*31 + j*17 + k*5) % 90, S: uint32(i + j + k)}})
			}
		}
	}
	return out
}

func runObject(c ObjCase, r *Rec) error {
	m := modelOf(c.Res)
	rs, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	arch := archs[c.Arch]
	var b bytes.Buffer
	if err := rs.WriteObject(&b, arch); err != nil {
		return fmt.Errorf("WriteObject: %v", err)
	}
	if err := checkObject(b.Bytes(), arch, m); err != nil {
		return err
	}
	if err := debugPE(b.Bytes(), arch, len(m)); err != nil {
		return err
	}
	named, langs := 0, map[[2]Ident]int{}
	for k := range m {
		if k.T.Name != "" || k.R.Name != "" {
			named++
		}
		langs[[2]Ident{k.T, k.R}]++
	}
	multi := false
	for _, n := range langs {
		multi = multi || n > 1
	}
	r.Label("arch %s", arch)
	r.LabelIf(named > 0, "named")
	r.LabelIf(multi, "several languages")
	r.LabelIf(len(m) == 0, "empty set")
	r.LabelIf(len(m) > 50, "more than 50 resources")
	if len(m) >= 2 {
		r.NonTrivial()
	}
	return nil
}

// ArchCase is an architecture that does not exist.
type ArchCase struct {
	Arch string `json:"arch"`
	Res  []Res  `json:"res"`
}

// HistCase describes two histories that lead to the same content.
type HistCase struct {
	Res   []Res     `json:"res"`
	OpsA  []HistOp  `json:"a"`
	OpsB  []HistOp  `json:"b"`
	Exe   *PESpec   `json:"exe,omitempty"`
	Opts  PatchOpts `json:"opts"`
	Fresh bool      `json:"fresh,omitempty"` // B starts from a loaded set
}

// HistOp is a detour on the way to the final content.
type HistOp struct {
	O string `json:"o"`
	K Key    `json:"k"`
	I int    `json:"i"`
}

func genHistOps(t *rapid.T, res []Res) []HistOp {
	var ops []HistOp
	for i, n := 0, rapid.IntRange(0, 16).Draw(t, "nops"); i < n; i++ {
		op := HistOp{O: rapid.SampledFrom([]string{"final", "final", "final", "junk", "junk", "wrong", "drop", "walk", "walktype", "obj", "exe", "count", "get", "first", "refused"}).Draw(t, "op"), I: rapid.IntRange(0, 20).Draw(t, "i")}
		if op.O == "junk" || op.O == "refused" {
			op.K = genKey(t)
			if len(res) > 0 && rapid.Bool().Draw(t, "near") {
				op.K.T = res[op.I%len(res)].T
				if rapid.Bool().Draw(t, "same resource") {
					op.K.R = res[op.I%len(res)].R
				}
			}
		}
		ops = append(ops, op)
	}
	return ops
}

// apply runs a history that ends with exactly the content of res.
func applyHist(rs *winres.ResourceSet, res []Res, ops []HistOp) error {
	final := modelOf(res)
	junk := map[Key]bool{}
	rs.Walk(func(t, id winres.Identifier, l uint16, _ []byte) bool {
		junk[Key{identOf(t), identOf(id), l}] = true
		return true
	})
	set := func(k Key, d []byte) error { return rs.Set(k.T.w(), k.R.w(), k.L, d) }
	for _, op := range ops {
		var k Key
		if len(res) > 0 {
			k = res[op.I%len(res)].Key
		}
		var err error
		switch op.O {
		case "final":
			if len(res) > 0 {
				err = set(k, append([]byte{}, final[k]...))
			}
		case "wrong":
			if len(res) > 0 {
				err = set(k, []byte{1, 2, 3, byte(op.I)})
			}
		case "drop":
			if len(res) > 0 {
				err = set(k, nil)
			}
		case "junk":
			junk[op.K] = true
			err = set(op.K, []byte{9, byte(op.I)})
		case "walk":
			rs.Walk(func(winres.Identifier, winres.Identifier, uint16, []byte) bool { return true })
		case "walktype":
			rs.WalkType(k.T.w(), func(winres.Identifier, uint16, []byte) bool { return true })
		case "obj":
			err = rs.WriteObject(&bytes.Buffer{}, winres.ArchAMD64)
		case "exe":
			err = rs.WriteToEXE(&bytes.Buffer{}, bytes.NewReader(minimalEXE(nil)))
		case "refused":
			// invalid: refused, and without effect
			bad := []winres.Identifier{winres.ID(0), winres.Name(""), winres.Name("\x00")}[op.I%3]
			rs.Set(op.K.T.w(), bad, op.K.L, []byte{1})
			rs.Set(bad, op.K.R.w(), op.K.L, []byte{1})
			rs.Set(k.T.w(), bad, k.L, nil)
		case "count":
			rs.Count()
		case "get":
			rs.Get(k.T.w(), k.R.w(), k.L)
		case "first":
			rs.GetIcon(k.R.w())
			rs.GetCursor(k.R.w())
		}
		if err != nil {
			return fmt.Errorf("%s %v: %v", op.O, k, err)
		}
	}
	for k := range junk {
		if _, ok := final[k]; !ok {
			if err := set(k, nil); err != nil {
				return err
			}
		}
	}
	for k, d := range final {
		if err := set(k, append([]byte{}, d...)); err != nil {
			return err
		}
	}
	return nil
}

func runSameContent(c HistCase, r *Rec) error {
	m := modelOf(c.Res)
	a, b := &winres.ResourceSet{}, &winres.ResourceSet{}
	if c.Fresh && len(c.Res) > 0 {
		loaded, err := winres.LoadFromEXE(bytes.NewReader(minimalEXE(c.Res)))
		if err != nil {
			return fmt.Errorf("LoadFromEXE: %v", err)
		}
		b = loaded
		r.Label("second set was loaded")
	}
	if err := applyHist(a, c.Res, c.OpsA); err != nil {
		return err
	}
	if err := applyHist(b, c.Res, c.OpsB); err != nil {
		return err
	}
	src := minimalEXE(nil)
	if c.Exe != nil {
		src = c.Exe.build()
	}
	var outs [3][]byte
	var errs [3]error
	for i, rs := range []*winres.ResourceSet{a, b, a} {
		var o, x bytes.Buffer
		if err := rs.WriteObject(&o, archs[len(c.OpsA)%4]); err != nil {
			return fmt.Errorf("WriteObject: %v", err)
		}
		errs[i] = c.Opts.patch(rs, &x, bytes.NewReader(src))
		outs[i] = append(o.Bytes(), x.Bytes()...)
		if err := sameItems(walkItems(rs), m.items()); err != nil {
			return fmt.Errorf("content after serialising: %v", err)
		}
	}
	for i, what := range []string{"", "another history", "a repetition"} {
		if (errs[i] == nil) != (errs[0] == nil) {
			return fmt.Errorf("errors differ after %s: %v, %v", what, errs[0], errs[i])
		}
		if !bytes.Equal(outs[0], outs[i]) {
			return fmt.Errorf("bytes differ after %s: %s", what, diffBytes(outs[i], outs[0]))
		}
	}
	r.LabelIf(errs[0] != nil, "patch refused")
	if len(m) >= 2 && len(c.OpsA)+len(c.OpsB) > 2 {
		r.NonTrivial()
	}
	return nil
}

// BigCase is a set of N resources, spread over types, names and languages.
type BigCase struct {
	N    int   `json:"n"`
	T    int   `json:"t"`    // number of types
	R    int   `json:"r"`    // number of names per type, at most
	Size int   `json:"size"` // data sizes are below this
	Name int   `json:"name"` // of 8 identifiers, how many are names
	Arch int   `json:"arch"`
	Big  []int `json:"big,omitempty"` // sizes of the data of a few resources
}

func (c BigCase) resources() []Res {
	id := func(prefix string, i int) Ident {
		if i*5%8 < c.Name {
			return Ident{Name: fmt.Sprintf("%s%X", prefix, i*7919%65536)}
		}
		return Ident{ID: uint16(i*7919%65521 + 1)}
	}
	out := make([]Res, c.N)
	for i := range out {
		j := i / c.T
		out[i] = Res{Key{id("T", i%c.T), id("", j%c.R), uint16(j / c.R)}, Blob{N: i % c.Size, S: uint32(i)}}
	}
	for i, n := range c.Big {
		out[(i*257+c.N/2)%c.N].D = Blob{N: n, S: uint32(i)}
	}
	return out
}

func runBig(c BigCase, r *Rec) error {
	res := c.resources()
	m := modelOf(res)
	if len(m) != c.N {
		return harnessf("resources coincide: %d, %d", len(m), c.N)
	}
	rs, err := buildSet(res)
	if err != nil {
		return err
	}
	arch := archs[c.Arch]
	var b bytes.Buffer
	if err := rs.WriteObject(&b, arch); err != nil {
		return fmt.Errorf("WriteObject: %v", err)
	}
	if err := checkObject(b.Bytes(), arch, m); err != nil {
		return err
	}
	if err := debugPE(b.Bytes(), arch, len(m)); err != nil {
		return err
	}
	r.LabelIf(c.N > 32767, "more than 32767 resources")
	r.LabelIf(c.N == 65535, "65535 resources")
	r.LabelIf(b.Len() > 1<<24, "object over 16 MB")
	r.NonTrivial()
	return nil
}

func genBig(t *rapid.T) BigCase {
	c := BigCase{
		N:    rapid.OneOf(rapid.SampledFrom([]int{255, 256, 257, 4095, 4096, 6553, 6554, 8191, 8192, 13107, 32767, 32768, 65534, 65535}), rapid.IntRange(300, 65535)).Draw(t, "n"),
		T:    rapid.SampledFrom([]int{1, 1, 2, 7, 300}).Draw(t, "types"),
		R:    rapid.SampledFrom([]int{1, 1, 3, 257, 70000}).Draw(t, "resources"),
		Size: rapid.SampledFrom([]int{1, 2, 9, 40, 200}).Draw(t, "size"),
		Name: rapid.SampledFrom([]int{0, 0, 1, 4, 8}).Draw(t, "names"),
		Arch: rapid.IntRange(0, 3).Draw(t, "arch"),
	}
	if c.T > c.N {
		c.T = c.N
	}
	for c.R < 65521 && (c.N+c.T-1)/c.T > c.R*65535 {
		c.R *= 3
	}
	if c.R > 65521 {
		c.R = 65521
	}
	for i, n := 0, rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "nbig"); i < n; i++ {
		c.Big = append(c.Big, rapid.OneOf(rapid.SampledFrom([]int{65535, 65536, 65537, 1<<20 + 3}), rapid.IntRange(60000, 9000000)).Draw(t, "big"))
	}
	return c
}

func init() {
	reg("C02", "big", "at least 255 resources", 160, 2000, genBig, runBig)
	reg("C02", "object", "at least two resources", 60000, 1500000,
		func(t *rapid.T) ObjCase {
			return ObjCase{Res: genManyResources(t), Arch: rapid.IntRange(0, 3).Draw(t, "arch")}
		}, runObject)
	reg("C02", "large", "at least two resources", 300, 12000,
		func(t *rapid.T) ObjCase {
			return ObjCase{Res: genLargeRes(t), Arch: rapid.IntRange(0, 3).Draw(t, "arch")}
		}, runObject)
	reg("C02", "huge", "at least two resources", 8, 1000,
		func(t *rapid.T) ObjCase {
			return ObjCase{Res: genHugeRes(t), Arch: rapid.IntRange(0, 3).Draw(t, "arch")}
		}, runObject)
	reg("C02", "arch", "the name is not one of the four architectures", 4000, 40000,
		func(t *rapid.T) ArchCase {
			return ArchCase{
				Arch: rapid.OneOf(rapid.SampledFrom([]string{"", "AMD64", "i386", "x86", "arm64 ", " amd64", "386\x00", "riscv64", "arm6", "aarch64"}), rapid.String()).Draw(t, "arch"),
				Res:  genResources(t, 4, 100),
			}
		},
		func(c ArchCase, r *Rec) error {
			if _, ok := coffMachine[winres.Arch(c.Arch)]; ok {
				return nil
			}
			r.NonTrivial()
			rs, err := buildSet(c.Res)
			if err != nil {
				return err
			}
			var b bytes.Buffer
			if err := rs.WriteObject(&b, winres.Arch(c.Arch)); err == nil {
				return fmt.Errorf("unknown architecture %q accepted", c.Arch)
			}
			if b.Len() != 0 {
				return fmt.Errorf("%d bytes were written for unknown architecture %q", b.Len(), c.Arch)
			}
			return nil
		})
	reg("C03", "sets", "at least two resources and three detours", 25000, 600000,
		func(t *rapid.T) HistCase {
			c := HistCase{Res: genResources(t, 8, 400)}
			c.OpsA = genHistOps(t, c.Res)
			c.OpsB = genHistOps(t, c.Res)
			c.Fresh = rapid.IntRange(0, 3).Draw(t, "loaded") == 0
			if rapid.IntRange(0, 2).Draw(t, "anyexe") == 0 {
				c.Exe = genPE(t, peGenOpts{small: true, allowSig: true})
				c.Opts = genPatchOpts(t)
			}
			return c
		}, runSameContent)
	reg("C03", "large", "at least two resources and three detours", 120, 5000,
		func(t *rapid.T) HistCase {
			c := HistCase{Res: genLargeRes(t)}
			c.OpsA = genHistOps(t, c.Res)
			c.OpsB = genHistOps(t, c.Res)
			c.Fresh = rapid.IntRange(0, 3).Draw(t, "loaded") == 0
			return c
		}, runSameContent)
}

func genPatchOpts(t *rapid.T) PatchOpts {
	o := PatchOpts{Force: rapid.IntRange(0, 3).Draw(t, "force") == 0, Auth: rapid.SampledFrom([]int{0, 1, 2, 2, 1, 3}).Draw(t, "auth")}
	if o.Auth != 0 && rapid.IntRange(0, 7).Draw(t, "again") == 0 {
		o.Prior = rapid.IntRange(1, 3).Draw(t, "prior")
	}
	return o
}
