package main

// C04..C09: executables.

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// PatchCase is an image, a set to write in it, and options.
type PatchCase struct {
	PE   *PESpec   `json:"pe"`
	Res  []Res     `json:"res"`
	Opts PatchOpts `json:"opts"`
	Rd   []int     `json:"rd,omitempty"`  // sizes of reads of the source, cyclically
	Pos  int       `json:"pos,omitempty"` // initial position of the source
}

// genPatchRes draws a set to write, sometimes with a size that matters for the image.
func genPatchRes(t *rapid.T, s *PESpec) []Res {
	if rapid.IntRange(0, 59).Draw(t, "big") == 0 {
		r := genResources(t, 3, 100)
		if len(r) > 0 {
			r[0].D.N = rapid.IntRange(30000, 150000).Draw(t, "bigdata")
		}
		return r
	}
	if rapid.IntRange(0, 2).Draw(t, "boundary") > 0 {
		return genResources(t, 6, 6000)
	}
	target := 0
	switch rapid.IntRange(0, 3).Draw(t, "target") {
	case 0:
		target = s.FileAlign * rapid.IntRange(1, 8).Draw(t, "units")
	case 1:
		target = s.SectAlign * rapid.IntRange(1, 3).Draw(t, "pages")
	default:
		// the size of the section that is there
		n := len(encodeTree(modelOf(s.Rsrc).items(), 0, s.Layout))
		switch rapid.IntRange(0, 2).Draw(t, "which") {
		case 0:
			target = roundUp(n+s.RsrcRDiff, s.FileAlign)
		case 1:
			target = roundUp(n+s.RsrcVDiff, s.SectAlign)
		default:
			target = n
		}
	}
	k := genKey(t)
	d := target - treeSize(Model{k: nil}) + rapid.SampledFrom([]int{0, 8, -8, 16, 1, -1}).Draw(t, "around")
	if d < 0 {
		d = 0
	}
	return []Res{{k, genBlobN(t, d)}}
}

func genPatchCase(t *rapid.T, o peGenOpts) PatchCase {
	c := PatchCase{PE: genPE(t, o)}
	c.Res = genPatchRes(t, c.PE)
	c.Opts = genPatchOpts(t)
	return c
}

// genBigPatch draws patches of images, or of sets of resources, which are out of the ordinary by their number or size.
func genBigPatch(t *rapid.T, o peGenOpts) PatchCase {
	c := PatchCase{PE: genPE(t, o), Opts: genPatchOpts(t)}
	what := rapid.IntRange(0, 2).Draw(t, "bigwhat")
	if what > 0 {
		enlarge(t, c.PE)
	}
	if what < 2 {
		c.Res = genLargeRes(t)
	} else {
		c.Res = genPatchRes(t, c.PE)
	}
	return c
}

// chunkReader delivers its data in reads of given sizes.
type chunkReader struct {
	*bytes.Reader
	sizes []int
	i     int
}

func (c *chunkReader) Read(p []byte) (int, error) {
	if len(c.sizes) > 0 {
		n := c.sizes[c.i%len(c.sizes)]
		c.i++
		if n > 0 && n < len(p) {
			p = p[:n]
		}
	}
	return c.Reader.Read(p)
}

// WriteTo hides the one of bytes.Reader.
func (c *chunkReader) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{c})
}

// run patches and returns the views of both images; out is nil if patching was refused.
func (c PatchCase) run(r *Rec) (in, out *PEView, m Model, perr error, err error) {
	src := c.PE.build()
	in, err = parsePE(src)
	if err != nil {
		return nil, nil, nil, nil, harnessf("generated image: %v", err)
	}
	m = modelOf(c.Res)
	rs, err := buildSet(c.Res)
	if err != nil {
		return
	}
	var dst bytes.Buffer
	rd := &chunkReader{Reader: bytes.NewReader(src), sizes: c.Rd}
	rd.Seek(int64(c.Pos), io.SeekStart)
	perr = c.Opts.patch(rs, &dst, rd)
	describe(in, c, r)
	if perr != nil {
		r.Label("refused")
		return in, nil, m, perr, nil
	}
	out, err = parsePE(dst.Bytes())
	if err != nil {
		err = fmt.Errorf("patched image: %v", err)
	}
	return
}

func describe(in *PEView, c PatchCase, r *Rec) {
	r.Label([]string{"no resource section", "resource section last", "resource section in the middle"}[in.place()])
	r.LabelIf(len(in.raw) > in.rawEnd(), "data after sections")
	r.LabelIf(in.signed(), "signed")
	r.LabelIf(in.room() < 40, "no room for a section header")
	r.LabelIf(c.PE.Sym != 0, "symbol table")
	r.LabelIf(len(c.PE.RawOrder) > 0, "file order differs from memory order")
	r.LabelIf(c.PE.Unaligned, "unaligned end of sections")
	r.LabelIf(hasRole(c.PE, "bss") >= 0 || hasRole(c.PE, "empty") >= 0, "section without file data")
	r.LabelIf(hasRole(c.PE, "reloc") >= 0, "relocation section")
	r.LabelIf(!c.PE.Plus, "PE32")
}

func runLoadBack(c PatchCase, r *Rec) error {
	_, out, m, perr, err := c.run(r)
	if err != nil || perr != nil {
		return err
	}
	rs, err := winres.LoadFromEXE(bytes.NewReader(out.raw))
	if err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	if len(m) > 0 {
		r.NonTrivial()
	}
	return sameItems(walkItems(rs), m.items())
}

// LoadCase is a foreign image to load.
type LoadCase struct {
	PE    *PESpec `json:"pe"`
	Types []Ident `json:"types"`
	Pos   int     `json:"pos,omitempty"`
}

func singleType(m Model, ty Ident) Model {
	w := Model{}
	for k, v := range m {
		if k.T == ty || (ty == Ident{ID: 14} && k.T == Ident{ID: 3}) || (ty == Ident{ID: 12} && k.T == Ident{ID: 1}) {
			w[k] = v
		}
	}
	return w
}

func runLoadForeign(c LoadCase, r *Rec) error {
	src := c.PE.build()
	rd := func() io.ReadSeeker {
		b := bytes.NewReader(src)
		b.Seek(int64(c.Pos), io.SeekStart)
		return b
	}
	if _, err := winres.LoadFromEXESingleType(rd(), winres.ID(0)); err == nil {
		return fmt.Errorf("type zero accepted")
	}
	rs, err := winres.LoadFromEXE(rd())
	if hasRole(c.PE, "rsrc") < 0 {
		r.Label("no resource directory")
		if !errors.Is(err, winres.ErrNoResources) {
			return fmt.Errorf("want ErrNoResources, got %v", err)
		}
		if rs == nil || rs.Count() != 0 {
			return fmt.Errorf("want an empty set along with ErrNoResources")
		}
		if err := rs.Set(winres.ID(1), winres.ID(1), 0, []byte{1}); err != nil || rs.Count() != 1 {
			return fmt.Errorf("the empty set is not usable: %v", err)
		}
		for _, ty := range c.Types {
			rs, err := winres.LoadFromEXESingleType(rd(), ty.w())
			if !errors.Is(err, winres.ErrNoResources) || rs == nil || rs.Count() != 0 {
				return fmt.Errorf("single type: want ErrNoResources and an empty set, got %v", err)
			}
		}
		return nil
	}
	if err != nil {
		return fmt.Errorf("LoadFromEXE: %v", err)
	}
	m := modelOf(c.PE.Rsrc)
	if err := sameItems(walkItems(rs), m.items()); err != nil {
		return err
	}
	for _, ty := range c.Types {
		w := singleType(m, ty)
		rs, err := winres.LoadFromEXESingleType(rd(), ty.w())
		if err != nil {
			return fmt.Errorf("single type %v: %v", ty, err)
		}
		if err := sameItems(walkItems(rs), w.items()); err != nil {
			return fmt.Errorf("single type %v: %v", ty, err)
		}
		r.LabelIf(len(w) > 0 && len(w) < len(m), "proper subset by type")
	}
	r.LabelIf(len(c.PE.Layout.Order) > 0 || c.PE.Layout.Gap > 0, "foreign layout")
	if len(m) >= 2 {
		r.NonTrivial()
	}
	return nil
}

func runPreserved(c PatchCase, r *Rec) error {
	in, out, _, perr, err := c.run(r)
	if err != nil || perr != nil {
		return err
	}
	if len(in.raw) > in.rawEnd() || in.place() != placeNone || len(in.secs) > 2 {
		r.NonTrivial()
	}
	return preserved(in, out, c.Opts)
}

func runValid(c PatchCase, r *Rec) error {
	in, out, m, perr, err := c.run(r)
	if err != nil {
		return err
	}
	want, why := expectRefusal(in, treeSize(m), c.Opts)
	switch {
	case want == 1 && perr == nil:
		return fmt.Errorf("patched in spite of: %s", why)
	case want == 0 && perr != nil:
		return fmt.Errorf("refused to patch a regular image: %v", perr)
	}
	if perr != nil {
		r.Label("refused: %s", why)
		return nil
	}
	r.NonTrivial()
	return validImage(in, out, m)
}

func runCheckSum(c PatchCase, r *Rec) error {
	in, out, _, perr, err := c.run(r)
	if err != nil || perr != nil {
		return err
	}
	field := out.optStart + 64
	got, want := le.Uint32(out.raw[field:]), uint32(0)
	if c.Opts.Force || in.u32(64) != 0 {
		want = peSum(out.raw, field)
		r.NonTrivial()
	}
	r.LabelIf(len(out.raw)%2 == 1, "odd length")
	if got != want {
		return fmt.Errorf("checksum %#x, want %#x (forced: %v, original: %#x, %d bytes)", got, want, c.Opts.Force, in.u32(64), len(out.raw))
	}
	return nil
}

func runSigned(c PatchCase, r *Rec) error {
	src := c.PE.build()
	in, err := parsePE(src)
	if err != nil {
		return harnessf("generated image: %v", err)
	}
	rd := &chunkReader{Reader: bytes.NewReader(src), sizes: c.Rd}
	rd.Seek(int64(c.Pos), io.SeekStart)
	s, err := winres.IsSignedEXE(rd)
	if err != nil {
		return fmt.Errorf("IsSignedEXE: %v", err)
	}
	if s != in.signed() {
		return fmt.Errorf("IsSignedEXE = %v, want %v", s, in.signed())
	}
	if p, _ := rd.Seek(0, io.SeekCurrent); p != int64(c.Pos) {
		return fmt.Errorf("IsSignedEXE moved the stream from %d to %d", c.Pos, p)
	}
	describe(in, c, r)
	rs, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	if in.signed() {
		r.NonTrivial()
		r.LabelIf(!in.sigAtEnd(), "signature not at the end")
		r.LabelIf(in.sigInside(), "signature overlaps sections")
		r.LabelIf(in.sigCut(), "signature truncated")
	}
	var dst bytes.Buffer
	perr := c.Opts.patch(rs, &dst, rd)
	if in.signed() && c.Opts.Auth != 1 && c.Opts.Auth != 2 {
		if !errors.Is(perr, winres.ErrSignedPE) {
			return fmt.Errorf("signed image: want ErrSignedPE, got %v", perr)
		}
		if dst.Len() != 0 {
			return fmt.Errorf("signed image: %d bytes were written", dst.Len())
		}
		r.Label("refused: signed")
		return nil
	}
	if errors.Is(perr, winres.ErrSignedPE) {
		return fmt.Errorf("refused as signed: signed=%v, %v", in.signed(), c.Opts)
	}
	if perr != nil {
		return nil
	}
	out, err := parsePE(dst.Bytes())
	if err != nil {
		return fmt.Errorf("patched image: %v", err)
	}
	if err := signaturePreserved(in, out, c.Opts); err != nil {
		return err
	}
	s, err = winres.IsSignedEXE(bytes.NewReader(dst.Bytes()))
	if err != nil || s != (in.signed() && c.Opts.Auth == 2) {
		return fmt.Errorf("IsSignedEXE on the patched image = %v, %v", s, err)
	}
	if in.signed() && c.Opts.Auth == 1 {
		// exactly the signature is gone
		want := in.raw[in.rawEnd():]
		if in.sigAtEnd() {
			want = in.raw[in.rawEnd():max(in.rawEnd(), int(in.dirs[dirSecurity][0]))]
			r.Label("signature dropped")
		}
		// Something that isn't a signature may be kept
		if got := out.raw[out.rawEnd():]; !bytes.Equal(got, want) && !in.sigKept(got) {
			return fmt.Errorf("after removing the signature, data after the sections: %s", diffBytes(got, want))
		}
	}
	return nil
}

// SeqCase is a history of patches.
type SeqCase struct {
	PE   *PESpec   `json:"pe"`
	Sets [][]Res   `json:"sets"`
	Alt  []Res     `json:"alt"` // instead of the second-last set
	Opts PatchOpts `json:"opts"`
}

func patchBytes(o PatchOpts, rs *winres.ResourceSet, src []byte) ([]byte, error) {
	var b bytes.Buffer
	err := o.patch(rs, &b, bytes.NewReader(src))
	return b.Bytes(), err
}

func runPatchSeq(c SeqCase, r *Rec) error {
	orig := c.PE.build()
	in, err := parsePE(orig)
	if err != nil {
		return harnessf("generated image: %v", err)
	}
	place := in.place()
	describe(in, PatchCase{PE: c.PE}, r)
	cur := orig
	firstLen := 0
	done := 0
	for i, set := range c.Sets {
		m := modelOf(set)
		rs, err := buildSet(set)
		if err != nil {
			return err
		}
		next, err := patchBytes(c.Opts, rs, cur)
		if err != nil {
			if !in.enoughRoom() && (place == placeMiddle || i == 0) {
				r.Label("refused")
				return nil
			}
			return fmt.Errorf("patch %d: %v", i, err)
		}
		done++
		out, err := parsePE(next)
		if err != nil {
			return fmt.Errorf("patch %d: %v", i, err)
		}
		if err := preserved(in, out, c.Opts); err != nil {
			return fmt.Errorf("patch %d, compared to the original: %v", i, err)
		}
		if err := validImage(in, out, m); err != nil {
			return fmt.Errorf("patch %d: %v", i, err)
		}
		loaded, err := winres.LoadFromEXE(bytes.NewReader(next))
		if err != nil {
			return fmt.Errorf("patch %d: LoadFromEXE: %v", i, err)
		}
		if err := sameItems(walkItems(loaded), m.items()); err != nil {
			return fmt.Errorf("patch %d: loaded set: %v", i, err)
		}
		// idempotent, with the same set and with the set that was just loaded
		for j, again := range []*winres.ResourceSet{rs, loaded} {
			b, err := patchBytes(c.Opts, again, next)
			if err != nil {
				return fmt.Errorf("patch %d, repeated: %v", i, err)
			}
			if !bytes.Equal(b, next) {
				return fmt.Errorf("patch %d, repeated with the %s set: %s", i, []string{"same", "loaded"}[j], diffBytes(b, next))
			}
		}
		// going elsewhere and back changes nothing, and no growth
		if place != placeMiddle {
			alt, err := buildSet(c.Alt)
			if err != nil {
				return err
			}
			b, err := patchBytes(c.Opts, alt, next)
			if err != nil {
				return fmt.Errorf("patch %d, detour: %v", i, err)
			}
			b, err = patchBytes(c.Opts, rs, b)
			if err != nil {
				return fmt.Errorf("patch %d, after a detour: %v", i, err)
			}
			if !bytes.Equal(b, next) {
				return fmt.Errorf("patch %d, after a detour: %s", i, diffBytes(b, next))
			}
		} else {
			limit := len(orig) + out.secs[out.rsrcIndex()].size + out.fileAlign()
			if len(next) > limit {
				return fmt.Errorf("patch %d: %d bytes, original was %d and resources take %d", i, len(next), len(orig), out.secs[out.rsrcIndex()].size)
			}
		}
		if i == 0 {
			firstLen = len(next)
		}
		cur = next
	}
	_ = firstLen
	if done >= 2 {
		r.NonTrivial()
	}
	return nil
}

func init() {
	n := "patching succeeded"
	reg("C04", "patched", n+" with at least one resource", 20000, 400000,
		func(t *rapid.T) PatchCase { return genPatchCase(t, peGenOpts{allowSig: true}) }, runLoadBack)
	reg("C04", "foreign", "at least two resources", 30000, 600000,
		func(t *rapid.T) LoadCase {
			c := LoadCase{PE: genPE(t, peGenOpts{allowSig: true, small: rapid.Bool().Draw(t, "small")})}
			if len(c.PE.Rsrc) > 0 && rapid.IntRange(0, 2).Draw(t, "related") == 0 {
				// icons and groups next to each other
				for i := range c.PE.Rsrc {
					if x := rapid.IntRange(0, 6).Draw(t, "icontype"); x < 4 {
						c.PE.Rsrc[i].T = Ident{ID: []uint16{3, 14, 1, 12}[x]}
					}
				}
				c.PE.Rsrc = dedupe(c.PE.Rsrc)
			}
			c.Types = []Ident{{ID: 14}, {ID: 12}, {ID: 3}, {ID: 1}, {ID: 999}, {Name: "absent"}}
			for _, x := range c.PE.Rsrc {
				c.Types = append(c.Types, x.T)
			}
			c.Pos = rapid.IntRange(0, 600).Draw(t, "pos")
			return c
		}, runLoadForeign)
	reg("C04", "big-patched", n+" with at least one resource", 300, 12000,
		func(t *rapid.T) PatchCase { return genBigPatch(t, peGenOpts{allowSig: true}) }, runLoadBack)
	reg("C04", "big-foreign", "at least two resources", 300, 12000,
		func(t *rapid.T) LoadCase {
			c := LoadCase{PE: genPE(t, peGenOpts{allowSig: true, rsrc: 1})}
			enlarge(t, c.PE)
			if rapid.Bool().Draw(t, "tree") {
				c.PE.Rsrc = genLargeRes(t)
			}
			c.Types = []Ident{{ID: 14}, {Name: "absent"}}
			for i, x := range c.PE.Rsrc {
				if i < 3 {
					c.Types = append(c.Types, x.T)
				}
			}
			return c
		}, runLoadForeign)
	for _, b := range []struct {
		prop, rule string
		check      func(PatchCase, *Rec) error
	}{
		{"C05", n + " on an image with at least three sections, a resource section or data after the sections", runPreserved},
		{"C06", n, runValid},
		{"C07", "the checksum had to be set", runCheckSum},
		{"C08", "the image is signed", runSigned},
	} {
		b := b
		reg(b.prop, "big", b.rule, 300, 12000, func(t *rapid.T) PatchCase {
			c := genBigPatch(t, peGenOpts{allowSig: true})
			if b.prop == "C08" && c.PE.SigSize == 0 && c.PE.SigIn == 0 {
				c.PE.SigSize = 8 * rapid.OneOf(rapid.IntRange(1, 40), rapid.SampledFrom([]int{8191, 8192, 8193, 40000})).Draw(t, "sigsize2")
			}
			return c
		}, b.check)
	}
	for _, b := range []struct {
		prop, rule string
		check      func(PatchCase, *Rec) error
	}{
		{"C04", n + " with at least one resource", runLoadBack},
		{"C06", n, runValid},
		{"C07", "the checksum had to be set", runCheckSum},
	} {
		reg(b.prop, "huge", b.rule, 5, 1000, func(t *rapid.T) PatchCase {
			return PatchCase{PE: genPE(t, peGenOpts{small: true}), Res: genHugeRes(t), Opts: genPatchOpts(t)}
		}, b.check)
	}
	reg("C09", "big", "at least two successful patches", 100, 4000,
		func(t *rapid.T) SeqCase {
			p := genBigPatch(t, peGenOpts{allowSig: true})
			p.PE.SigIn = 0
			c := SeqCase{PE: p.PE, Sets: [][]Res{p.Res, genPatchRes(t, p.PE)}, Alt: genPatchRes(t, p.PE)}
			switch rapid.IntRange(0, 2).Draw(t, "order") {
			case 0:
				c.Sets = append(c.Sets, genLargeRes(t))
			case 1:
				c.Sets[0], c.Sets[1] = c.Sets[1], c.Sets[0]
			}
			c.Opts = PatchOpts{Force: rapid.IntRange(0, 3).Draw(t, "force") == 0, Auth: rapid.IntRange(1, 2).Draw(t, "auth")}
			return c
		}, runPatchSeq)
	reg("C05", "preserved", n+" on an image with at least three sections, a resource section or data after the sections", 30000, 600000,
		func(t *rapid.T) PatchCase { return genPatchCase(t, peGenOpts{allowSig: true}) }, runPreserved)
	reg("C06", "valid", n, 30000, 600000,
		func(t *rapid.T) PatchCase { return genPatchCase(t, peGenOpts{allowSig: true}) }, runValid)
	reg("C07", "checksum", "the checksum had to be set", 30000, 600000,
		func(t *rapid.T) PatchCase {
			c := genPatchCase(t, peGenOpts{allowSig: true})
			if rapid.Bool().Draw(t, "chunks") {
				c.Rd = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 7, 64, 511, 4097, 100000}), 1, 6).Draw(t, "rd")
			}
			return c
		}, runCheckSum)
	reg("C08", "signed", "the image is signed", 30000, 600000,
		func(t *rapid.T) PatchCase {
			c := genPatchCase(t, peGenOpts{allowSig: true, small: true})
			if c.PE.SigSize == 0 && c.PE.SigIn == 0 && rapid.IntRange(0, 3).Draw(t, "sign") > 0 {
				c.PE.SigSize = 8 * rapid.IntRange(1, 40).Draw(t, "sigsize2")
			}
			c.Opts.Auth = rapid.IntRange(0, 3).Draw(t, "auth")
			c.Pos = rapid.SampledFrom([]int{0, 1, 0x3C, 100, 512, 100000}).Draw(t, "pos")
			return c
		}, runSigned)
	reg("C09", "history", "at least two successful patches", 12000, 250000,
		func(t *rapid.T) SeqCase {
			c := SeqCase{PE: genPE(t, peGenOpts{allowSig: true, small: rapid.Bool().Draw(t, "small")})}
			c.PE.SigIn = 0 // a certificate directory that designates resources has no meaning
			for i, n := 0, rapid.IntRange(1, 4).Draw(t, "npatches"); i < n; i++ {
				c.Sets = append(c.Sets, genPatchRes(t, c.PE))
			}
			c.Alt = genPatchRes(t, c.PE)
			c.Opts = PatchOpts{Force: rapid.IntRange(0, 3).Draw(t, "force") == 0, Auth: rapid.IntRange(1, 2).Draw(t, "auth")}
			return c
		}, runPatchSeq)
}

func dedupe(rs []Res) []Res {
	seen := map[Key]bool{}
	var out []Res
	for _, r := range rs {
		if !seen[r.Key] {
			seen[r.Key] = true
			out = append(out, r)
		}
	}
	return out
}
