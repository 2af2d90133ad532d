package main

// C13, C14: icons and cursors made from images.

import (
	"bytes"
	"fmt"
	"image"
	"image/color"
	"image/png"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// Pic describes a generated image.
type Pic struct {
	Kind  string `json:"kind"`
	W     int    `json:"w"`
	H     int    `json:"h"`
	X     int    `json:"x,omitempty"` // origin
	Y     int    `json:"y,omitempty"`
	Crop  int    `json:"crop,omitempty"` // the image is a part of a larger one, by that many pixels on each side
	Seed  uint32 `json:"seed"`
	Fill  int    `json:"fill"`            // 0: noise, 1: opaque noise, 2: plain opaque, 3: transparent, 4: gradient, 5: opaque but one pixel
	Dirty bool   `json:"dirty,omitempty"` // transparent pixels keep a color
}

var picKinds = []string{"nrgba", "nrgba", "nrgba", "rgba", "rgba", "gray", "gray16", "pal", "pal", "ycbcr", "nycbcra", "nrgba64", "rgba64", "alpha", "alpha16", "cmyk", "custom"}

// customImage is an image of a type that no library knows.
type customImage struct{ image.Image }

func (p Pic) rnd(i int) uint32 {
	x := uint32(i)*2654435761 ^ p.Seed*0x85EBCA6B
	x ^= x >> 15
	x *= 0x2C1B3C6D
	x ^= x >> 12
	x *= 0x297A2D39
	x ^= x >> 15
	return x
}

func (p Pic) pixel(x, y, w, h int) color.NRGBA {
	v := p.rnd(y*5003 + x)
	c := color.NRGBA{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16), A: uint8(v >> 24)}
	switch p.Fill {
	case 0:
		switch c.A & 3 {
		case 0:
			c.A = 0
		case 1:
			c.A = 0xFF
		}
	case 1:
		c.A = 0xFF
	case 2:
		v := p.rnd(7)
		c = color.NRGBA{R: uint8(v), G: uint8(v >> 8), B: uint8(v >> 16), A: 0xFF}
	case 3:
		c.A = 0
	case 4:
		c = color.NRGBA{R: uint8(x * 255 / w), G: uint8(y * 255 / h), B: uint8(p.Seed), A: uint8(255 - (x+y)*200/(w+h))}
	case 5:
		c.A = 0xFF
		n := int(p.Seed % uint32(w*h))
		if x == n%w && y == n/w {
			c.A = 0x80
		}
	}
	if c.A == 0 && !p.Dirty {
		c = color.NRGBA{}
	}
	return c
}

// image makes the image. With Crop, it is a part of a larger image.
func (p Pic) image() image.Image {
	k := p.Crop
	r := image.Rect(p.X-k, p.Y-k, p.X+p.W+k, p.Y+p.H+k)
	inner := image.Rect(p.X, p.Y, p.X+p.W, p.Y+p.H)
	if p.W <= 0 || p.H <= 0 {
		r = image.Rectangle{Min: image.Pt(p.X, p.Y), Max: image.Pt(p.X+p.W, p.Y+p.H)}
		return &image.NRGBA{Rect: r, Stride: 4}
	}
	type setter interface {
		image.Image
		Set(x, y int, c color.Color)
		SubImage(r image.Rectangle) image.Image
	}
	var img setter
	switch p.Kind {
	case "nrgba", "custom":
		img = image.NewNRGBA(r)
	case "rgba":
		img = image.NewRGBA(r)
	case "gray":
		img = image.NewGray(r)
	case "gray16":
		img = image.NewGray16(r)
	case "nrgba64":
		img = image.NewNRGBA64(r)
	case "rgba64":
		img = image.NewRGBA64(r)
	case "alpha":
		img = image.NewAlpha(r)
	case "alpha16":
		img = image.NewAlpha16(r)
	case "cmyk":
		img = image.NewCMYK(r)
	case "pal":
		var pal color.Palette
		for i := 0; i < 16; i++ {
			v := p.rnd(100000 + i)
			c := color.NRGBA{uint8(v), uint8(v >> 8), uint8(v >> 16), 0xFF}
			if p.Fill == 0 || p.Fill == 3 {
				c.A = uint8(v >> 24)
			}
			pal = append(pal, c)
		}
		if p.Fill == 0 || p.Fill == 3 {
			pal[0] = color.NRGBA{}
		}
		m := image.NewPaletted(r, pal)
		for i := range m.Pix {
			m.Pix[i] = uint8(p.rnd(i) % 16)
			if p.Fill == 3 {
				m.Pix[i] = 0
			}
		}
		return m.SubImage(inner)
	case "ycbcr":
		ratio := []image.YCbCrSubsampleRatio{image.YCbCrSubsampleRatio444, image.YCbCrSubsampleRatio420, image.YCbCrSubsampleRatio422}[p.Seed%3]
		if r.Min.X < 0 || r.Min.Y < 0 {
			ratio = image.YCbCrSubsampleRatio444 // package image doesn't support others with negative coordinates
		}
		m := image.NewYCbCr(r, ratio)
		fill(p, m.Y, 1)
		fill(p, m.Cb, 2)
		fill(p, m.Cr, 3)
		return m.SubImage(inner)
	case "nycbcra":
		m := image.NewNYCbCrA(r, image.YCbCrSubsampleRatio444)
		fill(p, m.Y, 1)
		fill(p, m.Cb, 2)
		fill(p, m.Cr, 3)
		fill(p, m.A, 4)
		if p.Fill == 1 || p.Fill == 2 {
			for i := range m.A {
				m.A[i] = 0xFF
			}
		}
		return m.SubImage(inner)
	}
	for y := r.Min.Y; y < r.Max.Y; y++ {
		for x := r.Min.X; x < r.Max.X; x++ {
			img.Set(x, y, p.pixel(x-r.Min.X, y-r.Min.Y, r.Dx(), r.Dy()))
		}
	}
	m := img.SubImage(inner)
	if p.Kind == "custom" {
		return customImage{m}
	}
	return m
}

func fill(p Pic, b []byte, salt int) {
	for i := range b {
		b[i] = uint8(p.rnd(i + salt*1000003))
	}
}

// pixels gives the pixels of an image from its top left corner, in the color model of icons.
func pixels(img image.Image) [][]color.NRGBA {
	b := img.Bounds()
	out := make([][]color.NRGBA, b.Dy())
	for y := range out {
		out[y] = make([]color.NRGBA, b.Dx())
		for x := range out[y] {
			out[y][x] = color.NRGBAModel.Convert(img.At(b.Min.X+x, b.Min.Y+y)).(color.NRGBA)
		}
	}
	return out
}

// sameColor ignores the color of fully transparent pixels.
func sameColor(a, b color.NRGBA) bool { return a == b || a.A == 0 && b.A == 0 }

// placed tells whether got is want, placed at (dx,dy) on a transparent background.
func placed(got, want [][]color.NRGBA, dx, dy int) error {
	for y := range got {
		for x := range got[y] {
			var w color.NRGBA
			if sy, sx := y-dy, x-dx; sy >= 0 && sy < len(want) && sx >= 0 && sx < len(want[sy]) {
				w = want[sy][sx]
			}
			if !sameColor(got[y][x], w) {
				return fmt.Errorf("pixel (%d,%d) is %v, want %v", x, y, got[y][x], w)
			}
		}
	}
	return nil
}

func genPicSize(t *rapid.T) (int, int) {
	one := func(l string) int {
		switch rapid.IntRange(0, 9).Draw(t, "class") {
		case 0, 1:
			return rapid.SampledFrom([]int{1, 2, 16, 31, 32, 33, 64, 127, 128}).Draw(t, l)
		case 2:
			return rapid.SampledFrom([]int{255, 256, 254}).Draw(t, l)
		case 3:
			return rapid.IntRange(1, 256).Draw(t, l)
		default:
			return rapid.IntRange(1, 40).Draw(t, l)
		}
	}
	w := one("w")
	if rapid.Bool().Draw(t, "square") {
		return w, w
	}
	return w, one("h")
}

func genPic(t *rapid.T) Pic {
	p := Pic{
		Kind:  rapid.SampledFrom(picKinds).Draw(t, "kind"),
		Seed:  rapid.Uint32().Draw(t, "seed"),
		Fill:  rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3, 4, 5}).Draw(t, "fill"),
		Dirty: rapid.IntRange(0, 3).Draw(t, "dirty") == 0,
	}
	p.W, p.H = genPicSize(t)
	switch rapid.IntRange(0, 3).Draw(t, "origin") {
	case 1:
		p.X, p.Y = rapid.IntRange(0, 300).Draw(t, "x"), rapid.IntRange(0, 300).Draw(t, "y")
	case 2:
		p.X, p.Y = rapid.IntRange(-300, 300).Draw(t, "x"), rapid.IntRange(-300, 300).Draw(t, "y")
	}
	if rapid.IntRange(0, 3).Draw(t, "part") == 0 {
		p.Crop = rapid.IntRange(1, 9).Draw(t, "crop")
	}
	return p
}

// badPics make an icon or a cursor impossible.
func genBadPic(t *rapid.T) Pic {
	p := genPic(t)
	p.Crop = 0
	switch rapid.IntRange(0, 5).Draw(t, "bad") {
	case 0:
		p.W = 0
	case 1:
		p.H = 0
	case 2:
		p.W, p.H = 0, 0
	case 3:
		p.W = rapid.IntRange(257, 600).Draw(t, "w")
	case 4:
		p.H = rapid.IntRange(257, 600).Draw(t, "h")
	default:
		p.W = rapid.SampledFrom([]int{257, 512, 256 + 16}).Draw(t, "w")
		p.H = p.W
	}
	return p
}

// PicsCase is a list of images.
type PicsCase struct {
	Pics []Pic       `json:"pics"`
	Hot  [][2]uint16 `json:"hot,omitempty"`
	K    Ident       `json:"k"`
	L    uint16      `json:"l,omitempty"`
}

func genPicsCase(hot bool) func(t *rapid.T) PicsCase {
	return func(t *rapid.T) PicsCase {
		c := PicsCase{Pics: []Pic{}, K: genIdent(t, resPool), L: genLang(t)}
		for i, n := 0, rapid.SampledFrom([]int{1, 1, 2, 3, 5, 0}).Draw(t, "npics"); i < n; i++ {
			if rapid.IntRange(0, 19).Draw(t, "bad") == 0 {
				c.Pics = append(c.Pics, genBadPic(t))
			} else {
				c.Pics = append(c.Pics, genPic(t))
			}
			if hot {
				c.Hot = append(c.Hot, [2]uint16{
					rapid.OneOf(rapid.Uint16Range(0, 256), rapid.Uint16()).Draw(t, "hotx"),
					rapid.OneOf(rapid.Uint16Range(0, 256), rapid.Uint16()).Draw(t, "hoty"),
				})
			}
		}
		return c
	}
}

func (p Pic) bad() bool { return p.W < 1 || p.H < 1 || p.W > 256 || p.H > 256 }

// snapshot tells if images were modified.
func snapshot(imgs []image.Image) [][][]color.NRGBA {
	var out [][][]color.NRGBA
	for _, m := range imgs {
		out = append(out, pixels(m))
	}
	return out
}

// memories copies all the memory of images, with what surrounds their bounds.
func memories(imgs []image.Image) [][]byte {
	var out [][]byte
	for _, m := range imgs {
		if c, ok := m.(customImage); ok {
			m = c.Image
		}
		var b []byte
		switch m := m.(type) {
		case *image.NRGBA:
			b = m.Pix
		case *image.RGBA:
			b = m.Pix
		case *image.NRGBA64:
			b = m.Pix
		case *image.RGBA64:
			b = m.Pix
		case *image.Gray:
			b = m.Pix
		case *image.Gray16:
			b = m.Pix
		case *image.Alpha:
			b = m.Pix
		case *image.Alpha16:
			b = m.Pix
		case *image.CMYK:
			b = m.Pix
		case *image.Paletted:
			b = m.Pix
		}
		out = append(out, append([]byte{}, b...))
	}
	return out
}

func samePixels(a, b [][]color.NRGBA) bool {
	for y := range a {
		for x := range a[y] {
			if a[y][x] != b[y][x] {
				return false
			}
		}
	}
	return true
}

func side(p Pic) int {
	if p.W > p.H {
		return p.W
	}
	return p.H
}

// orderPics sorts indices of images as the library does.
func orderPics(ps []Pic) []int {
	var es []Entry
	for i, p := range ps {
		es = append(es, Entry{W: side(p), Bits: 32, X: uint16(i)})
	}
	orderEntries(es)
	var out []int
	for _, e := range es {
		out = append(out, int(e.X))
	}
	return out
}

func countBad(ps []Pic, r *Rec) bool {
	bad, off := false, false
	for _, p := range ps {
		r.Label(p.Kind)
		if p.bad() {
			bad = true
		}
		if !p.bad() && (p.W != p.H || p.Crop > 0 || p.X != 0) {
			off = true
		}
	}
	if off && !bad {
		r.NonTrivial()
	}
	return bad
}

func runIconFromImages(c PicsCase, r *Rec) error {
	var imgs []image.Image
	for _, p := range c.Pics {
		imgs = append(imgs, p.image())
	}
	bad := countBad(c.Pics, r)
	before, mem := snapshot(imgs), memories(imgs)
	ic, err := winres.NewIconFromImages(imgs)
	if bad != (err != nil) {
		return fmt.Errorf("error %v, want an error: %v", err, bad)
	}
	for i := range imgs {
		if !samePixels(before[i], pixels(imgs[i])) || !bytes.Equal(mem[i], memories(imgs[i : i+1])[0]) {
			return fmt.Errorf("image %d was modified", i)
		}
	}
	if bad {
		r.Label("refused")
		if ic != nil {
			return fmt.Errorf("an icon came with the error")
		}
		return nil
	}
	b, err := pics{ic: ic}.bytes()
	if err != nil {
		return err
	}
	es, err := parseIconFile(1, b)
	if err != nil {
		return err
	}
	if len(es) != len(c.Pics) {
		return fmt.Errorf("%d images, want %d", len(es), len(c.Pics))
	}
	for i, n := range orderPics(c.Pics) {
		if err := checkPNGEntry(es[i], c.Pics[n], before[n]); err != nil {
			return fmt.Errorf("image %d (from %d): %v", i, n, err)
		}
	}
	// and the same images are stored in a set
	rs := &winres.ResourceSet{}
	if err := rs.SetIconTranslation(c.K.w(), c.L, ic); err != nil {
		return err
	}
	got, ok := expectPics(1, modelOfSet(rs), rs.Get(winres.RT_GROUP_ICON, c.K.w(), c.L))
	if !ok {
		return fmt.Errorf("the set doesn't contain a valid icon")
	}
	return sameEntries(got, es)
}

func modelOfSet(rs *winres.ResourceSet) Model {
	m := Model{}
	for _, it := range walkItems(rs) {
		m[it.Key] = it.D
	}
	return m
}

func decodePNG(e Entry) ([][]color.NRGBA, error) {
	rd := bytes.NewReader(e.Data)
	img, err := png.Decode(rd)
	if err != nil {
		return nil, fmt.Errorf("not a valid PNG: %v", err)
	}
	if rd.Len() > 0 {
		return nil, fmt.Errorf("%d bytes after the PNG", rd.Len())
	}
	b := img.Bounds()
	if b.Dx() != e.W || b.Dy() != e.H {
		return nil, fmt.Errorf("the PNG is %dx%d, the entry says %dx%d", b.Dx(), b.Dy(), e.W, e.H)
	}
	if e.Bits != 32 || e.Planes != 1 || e.CC != 0 || e.Res != 0 {
		return nil, fmt.Errorf("entry says %v", e)
	}
	return pixels(img), nil
}

func checkPNGEntry(e Entry, p Pic, want [][]color.NRGBA) error {
	s := side(p)
	if e.W != s || e.H != s {
		return fmt.Errorf("%dx%d, want a square of %d", e.W, e.H, s)
	}
	got, err := decodePNG(e)
	if err != nil {
		return err
	}
	// With an odd number of pixels to share, both halves are a center.
	var first error
	for _, up := range []int{0, 1} {
		err := placed(got, want, (s-p.W+up)/2, (s-p.H+up)/2)
		if err == nil {
			return nil
		}
		if first == nil {
			first = err
		}
	}
	return first
}

// C13: resized

// ResizeCase is one image and a list of sizes.
type ResizeCase struct {
	P     Pic   `json:"p"`
	Sizes []int `json:"sizes"` // nil: default
}

func genResizeCase(t *rapid.T) ResizeCase {
	c := ResizeCase{P: genPic(t)}
	c.P.Crop = 0
	if rapid.IntRange(0, 3).Draw(t, "thick") > 0 {
		if c.P.W < c.P.H/4 {
			c.P.W = c.P.H/4 + 1
		}
		if c.P.H < c.P.W/4 {
			c.P.H = c.P.W/4 + 1
		}
	}
	switch rapid.IntRange(0, 9).Draw(t, "size") {
	case 0:
		c.P.W, c.P.H = rapid.IntRange(257, 400).Draw(t, "w"), rapid.IntRange(1, 400).Draw(t, "h")
	case 1:
		c.P = genBadPic(t)
	}
	if rapid.Bool().Draw(t, "plain") {
		c.P.Fill = 2
		c.P.Kind = rapid.SampledFrom([]string{"nrgba", "rgba", "nrgba64", "custom"}).Draw(t, "plainkind")
	}
	switch rapid.IntRange(0, 19).Draw(t, "sizes") {
	case 0: // default
	case 1: // too many
		n := rapid.SampledFrom([]int{30, 31, 32, 100}).Draw(t, "nsizes")
		for i := 0; i < n; i++ {
			c.Sizes = append(c.Sizes, 1+i%5)
		}
	case 2: // impossible
		n := rapid.IntRange(0, 2).Draw(t, "nsizes")
		for i := 0; i < n; i++ {
			c.Sizes = append(c.Sizes, rapid.IntRange(1, 30).Draw(t, "sz"))
		}
		c.Sizes = append(c.Sizes, rapid.SampledFrom([]int{0, -1, 257, 256 + 16, 512, -256, 65536, 1 << 20, -1 << 31, 1<<32 + 16}).Draw(t, "impossible"))
	default:
		c.Sizes = []int{}
		for i, n := 0, rapid.IntRange(0, 6).Draw(t, "nsizes"); i < n; i++ {
			c.Sizes = append(c.Sizes, rapid.OneOf(rapid.IntRange(8, 48), rapid.IntRange(1, 48), rapid.IntRange(1, 256), rapid.SampledFrom([]int{16, 32, 255, 256})).Draw(t, "sz"))
		}
	}
	return c
}

func runIconResized(c ResizeCase, r *Rec) error {
	img := c.P.image()
	sizes := append([]int{}, c.Sizes...)
	if c.Sizes == nil {
		sizes = []int{256, 64, 48, 32, 16}
		r.Label("default sizes")
	}
	empty := c.P.W < 1 || c.P.H < 1
	bad, thin := empty || len(sizes) > 30, false
	for _, s := range sizes {
		if s < 1 || s > 256 {
			bad = true
		} else if !empty {
			minor, major := c.P.W, c.P.H
			if minor > major {
				minor, major = major, minor
			}
			if 2*minor*s < 2*major { // less than about one pixel
				thin = true
			}
		}
	}
	if len(sizes) == 0 && empty {
		bad = false // nothing to make
	}
	ic, err := winres.NewIconFromResizedImage(img, c.Sizes)
	if bad && err == nil {
		return fmt.Errorf("no error")
	}
	if err != nil {
		if !bad && !thin {
			return fmt.Errorf("error: %v", err)
		}
		if ic != nil {
			return fmt.Errorf("an icon came with the error")
		}
		r.Label("refused")
		return nil
	}
	if !empty && c.P.W != c.P.H && len(sizes) > 0 {
		r.NonTrivial()
	}
	r.LabelIf(c.P.W > 256 || c.P.H > 256, "source over 256 pixels")
	b, err := pics{ic: ic}.bytes()
	if err != nil {
		return err
	}
	es, err := parseIconFile(1, b)
	if err != nil {
		return err
	}
	var want []Entry
	for _, s := range sizes {
		want = append(want, Entry{W: s, Bits: 32})
	}
	orderEntries(want)
	if len(es) != len(want) {
		return fmt.Errorf("%d images, want %d", len(es), len(want))
	}
	src := pixels(img)
	for i, e := range es {
		s := want[i].W
		if e.W != s || e.H != s {
			return fmt.Errorf("image %d is %dx%d, want %d", i, e.W, e.H, s)
		}
		px, err := decodePNG(e)
		if err != nil {
			return fmt.Errorf("image %d: %v", i, err)
		}
		if err := checkResized(px, src, c.P, s); err != nil {
			return fmt.Errorf("image %d (%d pixels): %v", i, s, err)
		}
	}
	return nil
}

// checkResized checks where the picture is, and what it looks like when that can be told for sure.
func checkResized(px, src [][]color.NRGBA, p Pic, s int) error {
	if p.W == s && p.H == s {
		// Not resized at all, but it may have been filtered
		for y := range px {
			for x := range px[y] {
				if !nearColor(px[y][x], src[y][x], 2) {
					return fmt.Errorf("pixel (%d,%d) is %v, want %v as it needn't be resized", x, y, px[y][x], src[y][x])
				}
			}
		}
	}
	// Where the picture must be: the whole square but for the margins that its proportions make.
	inside := func(v, dim, major int) (in, out bool) {
		n := float64(dim) * float64(s) / float64(major) // exact size of the picture in this direction
		lo, hi := (float64(s)-n)/2, (float64(s)+n)/2
		return float64(v) >= lo+1.5 && float64(v+1) <= hi-1.5, float64(v+1) <= lo-1.5 || float64(v) >= hi+1.5
	}
	major := side(p)
	plain := true
	for _, row := range src {
		for _, c := range row {
			plain = plain && c == src[0][0] && c.A == 0xFF
		}
	}
	for y := range px {
		for x := range px[y] {
			inX, outX := inside(x, p.W, major)
			inY, outY := inside(y, p.H, major)
			if p.W == major {
				inX = true
			}
			if p.H == major {
				inY = true
			}
			if (outX || outY) && px[y][x].A != 0 {
				return fmt.Errorf("pixel (%d,%d) is %v, want a transparent margin", x, y, px[y][x])
			}
			if plain && inX && inY && !nearColor(px[y][x], src[0][0], 3) {
				return fmt.Errorf("pixel (%d,%d) is %v, want %v as the whole picture", x, y, px[y][x], src[0][0])
			}
		}
	}
	return nil
}

func near(a, b uint8, d int) bool { return int(a)-int(b) <= d && int(b)-int(a) <= d }

// nearColor compares colors as they look: the less opaque, the less the color matters.
func nearColor(a, b color.NRGBA, d int) bool {
	if !near(a.A, b.A, d) {
		return false
	}
	pm := func(v, al uint8) uint8 { return uint8(int(v) * int(al) / 255) }
	return near(pm(a.R, a.A), pm(b.R, b.A), d) && near(pm(a.G, a.A), pm(b.G, b.A), d) && near(pm(a.B, a.A), pm(b.B, b.A), d)
}

// C14

// decodeDIB reads a 32 bits bitmap of a cursor, strictly.
func decodeDIB(d []byte, w, h int) ([][]color.NRGBA, error) {
	if len(d) < 40 || le.Uint32(d) != 40 {
		return nil, fmt.Errorf("not a bitmap with a 40 bytes header: % x", d[:min(16, len(d))])
	}
	if int(le.Uint32(d[4:])) != w || int(le.Uint32(d[8:])) != 2*h {
		return nil, fmt.Errorf("the bitmap header says %dx%d, want %dx%d", le.Uint32(d[4:]), le.Uint32(d[8:]), w, 2*h)
	}
	if le.Uint16(d[12:]) != 1 || le.Uint16(d[14:]) != 32 || le.Uint32(d[16:]) != 0 {
		return nil, fmt.Errorf("the bitmap has %d planes of %d bits, compression %d", le.Uint16(d[12:]), le.Uint16(d[14:]), le.Uint32(d[16:]))
	}
	if n := int(le.Uint32(d[20:])); n != 0 && n != 4*w*h {
		return nil, fmt.Errorf("the bitmap header says %d bytes, want %d", n, 4*w*h)
	}
	if le.Uint32(d[32:]) != 0 {
		return nil, fmt.Errorf("the bitmap says it has a palette of %d colors", le.Uint32(d[32:]))
	}
	// An AND mask is allowed after the pixels, if complete
	mask := (w + 31) / 32 * 4 * h
	if len(d) != 40+4*w*h && len(d) != 40+4*w*h+mask {
		return nil, fmt.Errorf("%d bytes for a %dx%d bitmap", len(d), w, h)
	}
	out := make([][]color.NRGBA, h)
	for y := range out {
		out[y] = make([]color.NRGBA, w)
		for x := range out[y] {
			o := 40 + 4*((h-1-y)*w+x)
			out[y][x] = color.NRGBA{B: d[o], G: d[o+1], R: d[o+2], A: d[o+3]}
		}
	}
	return out, nil
}

func runCursorFromImages(c PicsCase, r *Rec) error {
	var imgs []image.Image
	var in []winres.CursorImage
	for i, p := range c.Pics {
		m := p.image()
		imgs = append(imgs, m)
		in = append(in, winres.CursorImage{Image: m, HotSpot: winres.HotSpot{X: c.Hot[i][0], Y: c.Hot[i][1]}})
	}
	bad := countBad(c.Pics, r)
	before, mem := snapshot(imgs), memories(imgs)
	cu, err := winres.NewCursorFromImages(in)
	if bad != (err != nil) {
		return fmt.Errorf("error %v, want an error: %v", err, bad)
	}
	for i := range imgs {
		if !samePixels(before[i], pixels(imgs[i])) || !bytes.Equal(mem[i], memories(imgs[i : i+1])[0]) {
			return fmt.Errorf("image %d was modified", i)
		}
	}
	if bad {
		r.Label("refused")
		if cu != nil {
			return fmt.Errorf("a cursor came with the error")
		}
		return nil
	}
	b, err := pics{cu: cu}.bytes()
	if err != nil {
		return err
	}
	es, err := parseIconFile(2, b)
	if err != nil {
		return err
	}
	if len(es) != len(c.Pics) {
		return fmt.Errorf("%d images, want %d", len(es), len(c.Pics))
	}
	for i, n := range orderPics(c.Pics) {
		p, s := c.Pics[n], side(c.Pics[n])
		if es[i].W != s || es[i].H != s {
			return fmt.Errorf("image %d (from %d) is %dx%d, want %d", i, n, es[i].W, es[i].H, s)
		}
		if es[i].X != c.Hot[n][0] || es[i].Y != c.Hot[n][1] {
			return fmt.Errorf("hot spot %d (from %d) is (%d,%d), want %v", i, n, es[i].X, es[i].Y, c.Hot[n])
		}
		px, err := decodeDIB(es[i].Data, s, s)
		if err != nil {
			return fmt.Errorf("image %d (from %d): %v", i, n, err)
		}
		if err := placed(px, before[n], 0, 0); err != nil {
			return fmt.Errorf("image %d (from %d): %v", i, n, err)
		}
		opaque := true
		for _, row := range before[n] {
			for _, q := range row {
				opaque = opaque && q.A == 0xFF
			}
		}
		r.LabelIf(opaque && p.W == p.H, "opaque square")
	}
	rs := &winres.ResourceSet{}
	if err := rs.SetCursorTranslation(c.K.w(), c.L, cu); err != nil {
		return err
	}
	g := rs.Get(winres.RT_GROUP_CURSOR, c.K.w(), c.L)
	got, ok := expectPics(2, modelOfSet(rs), g)
	if !ok {
		return fmt.Errorf("the set doesn't contain a valid cursor")
	}
	ge, err := parseGroup(2, g)
	if err != nil {
		return err
	}
	for i := range ge {
		if int(ge[i].Size) != len(es[i].Data)+4 || ge[i].Bits != 32 || ge[i].Planes != 1 {
			return fmt.Errorf("group entry %d says %v, %d bytes, want %d", i, ge[i].Entry, ge[i].Size, len(es[i].Data)+4)
		}
	}
	return sameEntries(got, es)
}

func init() {
	reg("C13", "images", "an accepted image that isn't square, or whose bounds don't start at the origin, or which is a part of a larger one", 8000, 150000, genPicsCase(false), runIconFromImages)
	reg("C13", "resized", "an image that isn't square is resized", 2400, 50000, genResizeCase, runIconResized)
	reg("C14", "images", "an accepted image that isn't square, or whose bounds don't start at the origin, or which is a part of a larger one", 8000, 150000, genPicsCase(true), runCursorFromImages)
}
