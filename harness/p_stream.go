package main

// C23: faults are reported. C24: the kind of stream does not matter.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// StreamOp is an operation of the library that reads or writes streams.
type StreamOp struct {
	Op   string    `json:"op"` // object, patch, load, loadtype, issigned, loadico, loadcur, saveico, savecur
	PE   *PESpec   `json:"pe,omitempty"`
	Res  []Res     `json:"res,omitempty"`
	Opts PatchOpts `json:"opts"`
	Ico  *IcoFile  `json:"ico,omitempty"`
	Cur  *CurFile  `json:"cur,omitempty"`
	N    int       `json:"n,omitempty"`
}

func genStreamOp(t *rapid.T, ops ...string) StreamOp {
	o := StreamOp{Op: rapid.SampledFrom(ops).Draw(t, "op"), N: rapid.IntRange(0, 3).Draw(t, "n")}
	switch o.Op {
	case "object":
		o.Res = genResources(t, 6, 600)
	case "patch":
		o.PE = genPE(t, peGenOpts{small: rapid.IntRange(0, 3).Draw(t, "small") > 0, allowSig: true})
		o.Res = genPatchRes(t, o.PE)
		o.Opts = PatchOpts{Force: rapid.Bool().Draw(t, "force"), Auth: rapid.IntRange(1, 2).Draw(t, "auth")}
	case "load", "loadtype", "issigned":
		o.PE = genPE(t, peGenOpts{small: true, allowSig: true, rsrc: 1})
	case "loadico", "saveico":
		f := genIcoFile(t, 5, 500)
		o.Ico = &f
	case "loadcur", "savecur":
		f := genCurFile(t, 5, 500)
		o.Cur = &f
	}
	return o
}

func (o StreamOp) source() []byte {
	switch {
	case o.PE != nil:
		return o.PE.build()
	case o.Ico != nil:
		return o.Ico.build()
	case o.Cur != nil:
		return o.Cur.build()
	}
	return nil
}

func (o StreamOp) reads() bool {
	return o.Op != "object" && o.Op != "saveico" && o.Op != "savecur"
}

// rewinds: the operation starts from the beginning of the source whatever its position is.
func (o StreamOp) rewinds() bool {
	return o.Op == "patch" || o.Op == "load" || o.Op == "loadtype" || o.Op == "issigned"
}

func (o StreamOp) writes() bool {
	return o.Op == "patch" || !o.reads()
}

// prepare returns a function that performs the operation. The returned string
// represents the result, apart from what was written.
func (o StreamOp) prepare() (func(src io.ReadSeeker, dst io.Writer) (string, error), error) {
	dump := func(rs *winres.ResourceSet) string {
		var b bytes.Buffer
		for _, it := range walkItems(rs) {
			fmt.Fprintf(&b, "%v %x\n", it.Key, it.D)
		}
		return b.String()
	}
	switch o.Op {
	case "object", "patch":
		rs, err := buildSet(o.Res)
		if err != nil {
			return nil, err
		}
		if o.Op == "object" {
			return func(_ io.ReadSeeker, dst io.Writer) (string, error) { return "", rs.WriteObject(dst, archs[o.N]) }, nil
		}
		return func(src io.ReadSeeker, dst io.Writer) (string, error) { return "", o.Opts.patch(rs, dst, src) }, nil
	case "load", "loadtype":
		ty := Ident{ID: 10}
		if len(o.PE.Rsrc) > 0 {
			ty = o.PE.Rsrc[o.N%len(o.PE.Rsrc)].T
		}
		return func(src io.ReadSeeker, _ io.Writer) (string, error) {
			var rs *winres.ResourceSet
			var err error
			if o.Op == "load" {
				rs, err = winres.LoadFromEXE(src)
			} else {
				rs, err = winres.LoadFromEXESingleType(src, ty.w())
			}
			if err != nil {
				return "", err
			}
			return dump(rs), nil
		}, nil
	case "issigned":
		return func(src io.ReadSeeker, _ io.Writer) (string, error) {
			s, err := winres.IsSignedEXE(src)
			return fmt.Sprint(s), err
		}, nil
	case "loadico":
		return func(src io.ReadSeeker, _ io.Writer) (string, error) {
			ic, err := winres.LoadICO(src)
			if err != nil {
				return "", err
			}
			var b bytes.Buffer
			err = ic.SaveICO(&b)
			return b.String(), err
		}, nil
	case "loadcur":
		return func(src io.ReadSeeker, _ io.Writer) (string, error) {
			c, err := winres.LoadCUR(src)
			if err != nil {
				return "", err
			}
			var b bytes.Buffer
			err = c.SaveCUR(&b)
			return b.String(), err
		}, nil
	case "saveico":
		ic, err := winres.LoadICO(bytes.NewReader(o.Ico.build()))
		if err != nil {
			return nil, err
		}
		return func(_ io.ReadSeeker, dst io.Writer) (string, error) { return "", ic.SaveICO(dst) }, nil
	case "savecur":
		c, err := winres.LoadCUR(bytes.NewReader(o.Cur.build()))
		if err != nil {
			return nil, err
		}
		return func(_ io.ReadSeeker, dst io.Writer) (string, error) { return "", c.SaveCUR(dst) }, nil
	}
	return nil, harnessf("unknown operation %s", o.Op)
}

var errInjected = errors.New("injected fault")

// faultErrors are errors that streams return.
var faultErrors = []error{errInjected, io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress, os.ErrClosed, os.ErrDeadlineExceeded, syscall.EINTR, syscall.ENOSPC, syscall.EPIPE}

// faultSource is a source on which one call, or every call from some point, fails.
type faultSource struct {
	b            []byte
	pos          int64
	reads, seeks int
	failRead     int // number of the read that fails, from 1
	failSeek     int
	mode         int // 0: error once, 1: error from then on, 2: partial read then error, 3: end of file from then on, 4: partial read and end of file from then on
	sticky       error
	limit        int // largest read; 0: no limit
	hit          bool
	err          int // index in faultErrors
}

func (f *faultSource) fault() error { return faultErrors[f.err] }

func (f *faultSource) Read(p []byte) (int, error) {
	f.reads++
	if f.sticky != nil {
		f.hit = true
		return 0, f.sticky
	}
	if len(p) == 0 {
		return 0, nil
	}
	if f.limit > 0 && len(p) > f.limit {
		p = p[:f.limit]
	}
	n := 0
	if f.pos < int64(len(f.b)) {
		n = copy(p, f.b[f.pos:])
	}
	if f.reads == f.failRead {
		f.hit = true
		switch f.mode {
		case 0:
			return 0, f.fault()
		case 1:
			f.sticky = f.fault()
			return 0, f.fault()
		case 2:
			f.sticky = f.fault()
			f.pos += int64(n / 2)
			return n / 2, f.fault()
		case 3:
			f.sticky = io.EOF
			return 0, io.EOF
		default:
			f.sticky = io.EOF
			f.pos += int64(n / 2)
			return n / 2, io.EOF
		}
	}
	f.pos += int64(n)
	if n == 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (f *faultSource) Seek(off int64, whence int) (int64, error) {
	f.seeks++
	if f.sticky != nil && f.sticky != io.EOF {
		f.hit = true
		return 0, f.sticky
	}
	if f.seeks == f.failSeek {
		f.hit = true
		if f.mode != 0 {
			f.sticky = f.fault()
		}
		return 0, f.fault()
	}
	switch whence {
	case io.SeekCurrent:
		off += f.pos
	case io.SeekEnd:
		off += int64(len(f.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	f.pos = off
	return off, nil
}

// sizedSource also has a Size method.
type sizedSource struct{ *faultSource }

func (s sizedSource) Size() int64 { return int64(len(s.b)) }

func (f *faultSource) as(sized bool) io.ReadSeeker {
	if sized {
		return sizedSource{f}
	}
	return f
}

// faultWriter fails at some byte, after accepting what fits.
type faultWriter struct {
	buf   bytes.Buffer
	limit int
	call  int // fail at that call instead, writing nothing
	calls int
	once  bool
	hit   bool
	err   int // index in faultErrors
}

func (w *faultWriter) fault() error { return faultErrors[w.err] }

func (w *faultWriter) Write(p []byte) (int, error) {
	w.calls++
	if w.hit && !w.once {
		return 0, w.fault()
	}
	if w.call > 0 {
		if w.calls == w.call {
			w.hit = true
			return 0, w.fault()
		}
		return w.buf.Write(p)
	}
	if !w.hit && w.buf.Len()+len(p) > w.limit {
		w.hit = true
		n := w.limit - w.buf.Len()
		w.buf.Write(p[:n])
		return n, w.fault()
	}
	return w.buf.Write(p)
}

// FaultCase is an operation, whose every call to a stream is made to fail in turn.
type FaultCase struct {
	StreamOp
	Mode  int   `json:"mode"`
	Limit int   `json:"limit,omitempty"`
	Sized bool  `json:"sized,omitempty"`
	At    []int `json:"at,omitempty"` // write limits, as per-thousands of the output
	Once  bool  `json:"once,omitempty"`
	Err   int   `json:"err,omitempty"` // index in faultErrors
}

func runFaults(c FaultCase, r *Rec) error {
	op, err := c.prepare()
	if err != nil {
		return err
	}
	src := c.source()
	clean := &faultSource{b: src, limit: c.Limit}
	var want bytes.Buffer
	wantRes, wantErr := op(clean.as(c.Sized), &want)
	if wantErr != nil {
		r.Label("fault-free run refused")
		return nil
	}
	judge := func(what string, res string, err error, out []byte) error {
		if !bytes.HasPrefix(want.Bytes(), out) {
			return fmt.Errorf("%s: what was written is not a prefix of the fault-free output: %s", what, diffBytes(out, want.Bytes()))
		}
		if err == nil && (res != wantRes || len(out) != want.Len()) {
			return fmt.Errorf("%s: success was reported, with %d bytes written instead of %d, same result: %v", what, len(out), want.Len(), res == wantRes)
		}
		return nil
	}
	faults := 0
	const maxFaults = 250
	step := func(n int) int { return n/maxFaults + 1 }
	if c.reads() {
		for k := 1; k <= clean.reads; k += step(clean.reads) {
			f := &faultSource{b: src, limit: c.Limit, failRead: k, mode: c.Mode, err: c.Err}
			var out bytes.Buffer
			res, err := op(f.as(c.Sized), &out)
			if f.hit {
				faults++
			}
			if err := judge(fmt.Sprintf("read %d of %d fails (mode %d)", k, clean.reads, c.Mode), res, err, out.Bytes()); err != nil {
				return err
			}
		}
		for k := 1; k <= clean.seeks; k++ {
			f := &faultSource{b: src, limit: c.Limit, failSeek: k, mode: c.Mode % 2, err: c.Err}
			var out bytes.Buffer
			res, err := op(f.as(c.Sized), &out)
			if f.hit {
				faults++
				r.Label("seek fault")
			}
			if err := judge(fmt.Sprintf("seek %d of %d fails (mode %d)", k, clean.seeks, c.Mode%2), res, err, out.Bytes()); err != nil {
				return err
			}
		}
		// the source is shorter than it says
		for _, at := range c.At {
			n := len(src) * at / 1000
			f := &truncSource{faultSource{b: src[:n], limit: c.Limit}, int64(len(src))}
			var out bytes.Buffer
			res, err := op(f, &out)
			faults++
			if err := judge(fmt.Sprintf("source of %d bytes ends at %d", len(src), n), res, err, out.Bytes()); err != nil {
				return err
			}
		}
	}
	if c.writes() {
		limits := []int{}
		for _, at := range c.At {
			limits = append(limits, want.Len()*at/1000)
		}
		limits = append(limits, 0, want.Len()-1)
		for _, l := range limits {
			if l < 0 || l >= want.Len() {
				continue
			}
			w := &faultWriter{limit: l, once: c.Once, err: c.Err}
			res, err := op((&faultSource{b: src, limit: c.Limit}).as(c.Sized), w)
			faults++
			if err == nil {
				return fmt.Errorf("writing fails after %d of %d bytes, success was reported", l, want.Len())
			}
			if err := judge(fmt.Sprintf("writing fails after %d bytes", l), res, err, w.buf.Bytes()); err != nil {
				return err
			}
		}
		count := &faultWriter{limit: 1 << 40}
		op((&faultSource{b: src, limit: c.Limit}).as(c.Sized), count)
		for k := 1; k <= count.calls; k += step(count.calls) {
			w := &faultWriter{call: k, once: c.Once, err: c.Err}
			res, err := op((&faultSource{b: src, limit: c.Limit}).as(c.Sized), w)
			if !w.hit {
				continue
			}
			faults++
			if err == nil && w.buf.Len() != want.Len() {
				return fmt.Errorf("write %d of %d fails, success was reported", k, count.calls)
			}
			if err := judge(fmt.Sprintf("write %d of %d fails", k, count.calls), res, err, w.buf.Bytes()); err != nil {
				return err
			}
		}
	}
	r.Label(c.Op)
	for i := 0; i < faults; i++ {
		r.Label("injected faults")
	}
	if faults > 3 {
		r.NonTrivial()
	}
	return nil
}

// truncSource pretends to be longer than it is.
type truncSource struct {
	faultSource
	size int64
}

func (s *truncSource) Size() int64 { return s.size }

func (s *truncSource) Seek(off int64, whence int) (int64, error) {
	if whence == io.SeekEnd {
		off, whence = off+s.size, io.SeekStart
	}
	return s.faultSource.Seek(off, whence)
}

// C24

// StreamCase is an operation with other kinds of streams than the reference.
type StreamCase struct {
	StreamOp
	Src   string `json:"src"`
	Dst   string `json:"dst"`
	Sizes []int  `json:"sizes,omitempty"`
	Pos   int    `json:"pos,omitempty"`
	Prev  int    `json:"prev,omitempty"` // length of previous content of the destination
	At    int    `json:"at,omitempty"`   // position in the previous content
}

// anyReader is a ReadSeeker, with reads of given sizes, maybe data along with EOF, maybe empty reads.
type anyReader struct {
	b       []byte
	pos     int64
	sizes   []int
	i       int
	dataEOF bool
	empty   bool
}

func (a *anyReader) Read(p []byte) (int, error) {
	a.i++
	if a.empty && a.i%3 == 0 {
		return 0, nil
	}
	if len(a.sizes) > 0 {
		if n := a.sizes[a.i%len(a.sizes)]; n < len(p) {
			p = p[:n]
		}
	}
	if a.pos >= int64(len(a.b)) {
		if len(p) == 0 {
			return 0, nil
		}
		return 0, io.EOF
	}
	n := copy(p, a.b[a.pos:])
	a.pos += int64(n)
	if a.dataEOF && a.pos == int64(len(a.b)) {
		return n, io.EOF
	}
	return n, nil
}

func (a *anyReader) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += a.pos
	case io.SeekEnd:
		off += int64(len(a.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	a.pos = off
	return off, nil
}

// memFile is a seekable writer in memory, with previous content.
type memFile struct {
	b   []byte
	pos int64
}

func (m *memFile) Write(p []byte) (int, error) {
	for int64(len(m.b)) < m.pos+int64(len(p)) {
		m.b = append(m.b, 0)
	}
	copy(m.b[m.pos:], p)
	m.pos += int64(len(p))
	return len(p), nil
}

func (m *memFile) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += m.pos
	case io.SeekEnd:
		off += int64(len(m.b))
	}
	if off < 0 {
		return 0, errors.New("negative position")
	}
	m.pos = off
	return off, nil
}

type plainWriter struct{ w io.Writer }

func (p plainWriter) Write(b []byte) (int, error) { return p.w.Write(b) }

func runStreams(c StreamCase, r *Rec) error {
	op, err := c.prepare()
	if err != nil {
		return err
	}
	src := c.source()
	var want bytes.Buffer
	wantRes, wantErr := op(bytes.NewReader(src), &want)

	tmp := func(content []byte, flags int) (*os.File, error) {
		f, err := os.CreateTemp("", "verif-stream-")
		if err != nil {
			return nil, harnessf("%v", err)
		}
		name := f.Name()
		_, err = f.Write(content)
		if err == nil {
			err = f.Close()
		}
		if err != nil {
			os.Remove(name)
			return nil, harnessf("%v", err)
		}
		f, err = os.OpenFile(name, flags, 0)
		if err != nil {
			os.Remove(name)
			return nil, harnessf("%v", err)
		}
		return f, nil
	}
	// source
	pos := int64(0)
	if c.rewinds() {
		pos = int64(c.Pos)
	}
	var in io.ReadSeeker
	switch c.Src {
	case "bytes":
		in = bytes.NewReader(src)
	case "short":
		in = &anyReader{b: src, sizes: c.Sizes}
	case "dataeof":
		in = &anyReader{b: src, sizes: c.Sizes, dataEOF: true}
	case "empty":
		in = &anyReader{b: src, sizes: c.Sizes, empty: true}
	case "section":
		in = io.NewSectionReader(bytes.NewReader(append([]byte("prefix"), src...)), 6, int64(len(src)))
	case "file":
		f, err := tmp(src, os.O_RDONLY)
		if err != nil {
			return err
		}
		defer os.Remove(f.Name())
		defer f.Close()
		in = f
	default:
		return harnessf("unknown source %s", c.Src)
	}
	if _, err := in.Seek(pos, io.SeekStart); err != nil {
		return harnessf("%v", err)
	}
	// destination
	prev := Blob{N: c.Prev, K: 1}.bytes()
	at := c.At
	if at > len(prev) {
		at = len(prev)
	}
	var dst io.Writer
	var finish func() ([]byte, error)
	overwrite := func(after []byte, err error) ([]byte, error) {
		// what was written at position `at`; anything else must be as before
		if err != nil {
			return nil, err
		}
		n := want.Len()
		if len(after) < at+n && wantErr == nil {
			return nil, fmt.Errorf("destination has %d bytes, want at least %d", len(after), at+n)
		}
		end := min(at+n, len(after))
		if !bytes.Equal(after[:at], prev[:at]) {
			return nil, fmt.Errorf("content before the initial position was changed")
		}
		if !bytes.Equal(after[end:], prev[min(end, len(prev)):]) {
			return nil, fmt.Errorf("content after the output was changed")
		}
		return after[at:end], nil
	}
	switch c.Dst {
	case "buffer":
		b := &bytes.Buffer{}
		dst, finish = b, func() ([]byte, error) { return b.Bytes(), nil }
	case "plain":
		b := &bytes.Buffer{}
		dst, finish = plainWriter{b}, func() ([]byte, error) { return b.Bytes(), nil }
	case "memfile":
		m := &memFile{b: append([]byte{}, prev...), pos: int64(at)}
		dst, finish = m, func() ([]byte, error) { return overwrite(m.b, nil) }
	case "file", "append":
		flags := os.O_RDWR
		if c.Dst == "append" {
			flags |= os.O_APPEND
			at = len(prev)
		}
		f, err := tmp(prev, flags)
		if err != nil {
			return err
		}
		defer os.Remove(f.Name())
		defer f.Close()
		if _, err := f.Seek(int64(at), io.SeekStart); err != nil {
			return harnessf("%v", err)
		}
		dst, finish = f, func() ([]byte, error) { return overwrite(os.ReadFile(f.Name())) }
	case "pipe":
		pr, pw, err := os.Pipe()
		if err != nil {
			return harnessf("%v", err)
		}
		defer pr.Close()
		ch := make(chan []byte, 1)
		go func() {
			b, _ := io.ReadAll(pr)
			ch <- b
		}()
		dst, finish = pw, func() ([]byte, error) {
			pw.Close()
			return <-ch, nil
		}
	default:
		return harnessf("unknown destination %s", c.Dst)
	}
	res, err := func() (res string, err error) {
		defer func() {
			if c.Dst == "pipe" {
				if p := recover(); p != nil {
					finish()
					panic(p)
				}
			}
		}()
		return op(in, dst)
	}()
	got, ferr := finish()
	if ferr != nil {
		if he := (*errHarness)(nil); errors.As(ferr, &he) {
			return ferr
		}
		return fmt.Errorf("from %s to %s: %v", c.Src, c.Dst, ferr)
	}
	if (err == nil) != (wantErr == nil) {
		return fmt.Errorf("from %s to %s: error %v, reference: %v", c.Src, c.Dst, err, wantErr)
	}
	if res != wantRes {
		return fmt.Errorf("from %s: result differs from the reference", c.Src)
	}
	if err == nil && !bytes.Equal(got, want.Bytes()) {
		return fmt.Errorf("from %s to %s: %s", c.Src, c.Dst, diffBytes(got, want.Bytes()))
	}
	r.Label(c.Op)
	if c.reads() {
		r.Label("source: %s", c.Src)
	}
	if c.writes() {
		r.Label("destination: %s", c.Dst)
	}
	r.LabelIf(c.rewinds() && c.Pos > 0, "source not at its start")
	if err == nil {
		r.NonTrivial()
	}
	return nil
}

func init() {
	reg("C23", "faults", "more than three faults were injected in the case; every call number of reads, seeks and writes is made to fail in turn (stepping beyond 250)", 4000, 80000,
		func(t *rapid.T) FaultCase {
			c := FaultCase{StreamOp: genStreamOp(t, "object", "patch", "patch", "patch", "load", "loadtype", "issigned", "loadico", "loadcur", "saveico", "savecur")}
			c.Mode = rapid.IntRange(0, 4).Draw(t, "mode")
			c.Limit = rapid.SampledFrom([]int{0, 0, 1000, 100, 37}).Draw(t, "limit")
			c.Sized = rapid.Bool().Draw(t, "sized")
			c.Once = rapid.Bool().Draw(t, "once")
			c.Err = max(0, rapid.IntRange(-5, len(faultErrors)-1).Draw(t, "err"))
			c.At = rapid.SliceOfN(rapid.IntRange(0, 999), 1, 12).Draw(t, "at")
			return c
		}, runFaults)
	reg("C24", "streams", "the operation succeeds", 20000, 300000,
		func(t *rapid.T) StreamCase {
			c := StreamCase{StreamOp: genStreamOp(t, "object", "patch", "patch", "patch", "load", "loadtype", "issigned", "loadico", "loadcur", "saveico", "savecur")}
			c.Src = rapid.SampledFrom([]string{"bytes", "short", "dataeof", "empty", "section", "file"}).Draw(t, "src")
			c.Dst = rapid.SampledFrom([]string{"buffer", "plain", "memfile", "memfile", "file", "append", "pipe"}).Draw(t, "dst")
			c.Sizes = rapid.SliceOfN(rapid.SampledFrom([]int{1, 2, 3, 13, 64, 1000, 100000}), 0, 5).Draw(t, "sizes")
			c.Pos = rapid.IntRange(0, 3000).Draw(t, "pos")
			c.Prev = rapid.SampledFrom([]int{0, 10, 100, 5000, 20000}).Draw(t, "prev")
			c.At = rapid.SampledFrom([]int{0, 0, 5, 100, 2000}).Draw(t, "at")
			return c
		}, runStreams)
}
