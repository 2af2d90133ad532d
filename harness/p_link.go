package main

// C28: objects go through real linkers, and the programs made by these linkers are patched.

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"github.com/tc-hib/winres"
	"pgregory.net/rapid"
)

// linkEnv is where what every link needs has been prepared: VERIF_LINK_DIR, or a directory made on first use.
const linkEnv = "VERIF_LINK_DIR"

var goArchs = map[winres.Arch]string{winres.ArchAMD64: "amd64", winres.ArchI386: "386", winres.ArchARM64: "arm64"}

const linkProgram = `
int counter = 42;
int zeroes[3000];
static const char text[] = "a program";
const char *pointer = text;
int table[] = {1, 2, 3, 4, 5, 6, 7, 8};
int _fltused;
int entry(void) { counter += table[counter & 7] + pointer[0]; zeroes[7] = counter; return counter; }
`

func command(dir string, env []string, name string, args ...string) (string, error) {
	var out bytes.Buffer
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = append(os.Environ(), env...)
	c.Stdout, c.Stderr = &out, &out
	if err := c.Start(); err != nil {
		return "", harnessf("%s: %v", name, err)
	}
	timer := time.AfterFunc(120*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	timer.Stop()
	if err != nil && (c.ProcessState == nil || !c.ProcessState.Exited()) {
		return out.String(), harnessf("%s: %v", name, err)
	}
	return strings.TrimSpace(out.String()), err
}

// prepareLinks compiles a program for each linker and architecture.
func prepareLinks(dir string) error {
	if err := os.WriteFile(filepath.Join(dir, "prog.c"), []byte(linkProgram), 0o644); err != nil {
		return harnessf("%v", err)
	}
	for arch, target := range map[winres.Arch]string{winres.ArchAMD64: "x86_64", winres.ArchI386: "i386", winres.ArchARM: "thumbv7", winres.ArchARM64: "aarch64"} {
		for _, abi := range []string{"msvc", "gnu"} {
			o := fmt.Sprintf("prog_%s_%s.o", arch, abi)
			if out, err := command(dir, nil, "clang", "--target="+target+"-pc-windows-"+abi, "-O1", "-ffreestanding", "-fno-stack-protector", "-c", "prog.c", "-o", o); err != nil {
				return harnessf("clang: %v: %s", err, out)
			}
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "main.go"), []byte("package main\n\nfunc main() { println(\"a program\") }\n"), 0o644); err != nil {
		return harnessf("%v", err)
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module demo\n\ngo 1.21\n"), 0o644); err != nil {
		return harnessf("%v", err)
	}
	for _, a := range goArchs {
		env := []string{"GOOS=windows", "GOARCH=" + a, "CGO_ENABLED=0", "GOFLAGS=-mod=mod"}
		cfg, err := command(dir, env, "go", "list", "-deps", "-export", "-f", "{{if .Export}}packagefile {{.ImportPath}}={{.Export}}{{end}}", "runtime")
		if err != nil {
			return harnessf("go list: %v: %s", err, cfg)
		}
		if err := os.WriteFile(filepath.Join(dir, "cfg_"+a), []byte(cfg+"\n"), 0o644); err != nil {
			return harnessf("%v", err)
		}
		if out, err := command(dir, env, "go", "tool", "compile", "-p", "main", "-pack", "-importcfg", "cfg_"+a, "-o", "main_"+a+".a", "main.go"); err != nil {
			return harnessf("go tool compile: %v: %s", err, out)
		}
	}
	return nil
}

var (
	linkOnce sync.Once
	linkPath string
	linkErr  error
)

func linkDir() (string, error) {
	linkOnce.Do(func() {
		if linkPath = os.Getenv(linkEnv); linkPath != "" {
			return
		}
		if linkPath, linkErr = os.MkdirTemp("", "verif-link-"); linkErr == nil {
			linkErr = prepareLinks(linkPath)
		}
	})
	return linkPath, linkErr
}

// removeLinkDir removes what linkDir made.
func removeLinkDir() {
	if linkPath != "" && os.Getenv(linkEnv) == "" {
		os.RemoveAll(linkPath)
	}
}

// LinkCase is a set, made into an object and linked, and another set which replaces it in the program.
type LinkCase struct {
	Linker string    `json:"linker"` // lld, gnu, go
	Arch   int       `json:"arch"`
	Alone  bool      `json:"alone,omitempty"` // no program besides the resources
	First  bool      `json:"first,omitempty"` // the object comes before the program
	Flags  []string  `json:"flags,omitempty"`
	Res    []Res     `json:"res"`
	Other  []Res     `json:"other"`
	Opts   PatchOpts `json:"opts"`
}

func (c LinkCase) arch() winres.Arch { return archs[c.Arch] }

// link makes a program of an object.
func (c LinkCase) link(obj []byte) ([]byte, error) {
	base, err := linkDir()
	if err != nil {
		return nil, err
	}
	dir, err := os.MkdirTemp("", "verif-linked-")
	if err != nil {
		return nil, harnessf("%v", err)
	}
	defer os.RemoveAll(dir)
	file := filepath.Join(dir, "rsrc.o")
	if err := os.WriteFile(file, obj, 0o644); err != nil {
		return nil, harnessf("%v", err)
	}
	exe := filepath.Join(dir, "out.exe")
	files := []string{file}
	withProgram := func(abi string) {
		p := filepath.Join(base, fmt.Sprintf("prog_%s_%s.o", c.arch(), abi))
		if c.First {
			files = append(files, p)
		} else {
			files = append([]string{p}, files...)
		}
	}
	var out string
	switch c.Linker {
	case "lld":
		m := map[winres.Arch]string{winres.ArchAMD64: "x64", winres.ArchI386: "x86", winres.ArchARM: "arm", winres.ArchARM64: "arm64"}[c.arch()]
		args := []string{"/nologo", "/nodefaultlib", "/safeseh:no", "/machine:" + m, "/out:" + exe}
		if c.Alone {
			args = append(args, "/dll", "/noentry")
		} else {
			withProgram("msvc")
			args = append(args, "/subsystem:console", "/entry:entry")
		}
		out, err = command(dir, nil, "lld-link", append(append(args, c.Flags...), files...)...)
	case "gnu":
		m := map[winres.Arch]string{winres.ArchAMD64: "i386pep", winres.ArchI386: "i386pe"}[c.arch()]
		if m == "" {
			return nil, harnessf("no GNU linker for %s", c.arch())
		}
		args := []string{"-m", m, "-o", exe}
		if c.Alone {
			args = append(args, "--dll", "--entry=0")
		} else {
			withProgram("gnu")
			args = append(args, "--entry="+map[bool]string{true: "_entry", false: "entry"}[c.arch() == winres.ArchI386])
		}
		out, err = command(dir, nil, "ld", append(append(args, c.Flags...), files...)...)
	case "go":
		a := goArchs[c.arch()]
		if a == "" {
			return nil, harnessf("no Go linker for %s", c.arch())
		}
		lib, rerr := os.ReadFile(filepath.Join(base, "main_"+a+".a"))
		if rerr != nil {
			return nil, harnessf("%v", rerr)
		}
		// what "go tool pack r" does
		lib = append(lib, fmt.Sprintf("%-16s%-12d%-6d%-6d%-8o%-10d`\n", "rsrc.syso", 0, 0, 0, 0o644, len(obj))...)
		lib = append(lib, obj...)
		if len(obj)%2 == 1 {
			lib = append(lib, 0)
		}
		if err := os.WriteFile(filepath.Join(dir, "main.a"), lib, 0o644); err != nil {
			return nil, harnessf("%v", err)
		}
		args := append([]string{"tool", "link", "-importcfg", filepath.Join(base, "cfg_"+a), "-o", exe}, c.Flags...)
		out, err = command(base, []string{"GOOS=windows", "GOARCH=" + a, "CGO_ENABLED=0"}, "go", append(args, filepath.Join(dir, "main.a"))...)
	default:
		return nil, harnessf("unknown linker %s", c.Linker)
	}
	if _, ok := err.(*errHarness); ok {
		return nil, err
	}
	if err != nil {
		return nil, fmt.Errorf("linker %s, %s: %v: %s", c.Linker, c.arch(), err, strings.ReplaceAll(cut(out), dir, ""))
	}
	b, err := os.ReadFile(exe)
	if err != nil {
		return nil, harnessf("%v", err)
	}
	return b, nil
}

func runLinked(c LinkCase, r *Rec) error {
	rs, err := buildSet(c.Res)
	if err != nil {
		return err
	}
	m := modelOf(c.Res)
	var obj bytes.Buffer
	if err := rs.WriteObject(&obj, c.arch()); err != nil {
		return fmt.Errorf("WriteObject: %v", err)
	}
	exe, err := c.link(obj.Bytes())
	if err != nil {
		return err
	}
	in, err := parsePE(exe)
	if err != nil {
		return harnessf("linker %s: %v", c.Linker, err)
	}
	if got, want := le.Uint16(in.fileHdr), map[winres.Arch]uint16{winres.ArchAMD64: 0x8664, winres.ArchI386: 0x14C, winres.ArchARM: 0x1C4, winres.ArchARM64: 0xAA64}[c.arch()]; got != want {
		return fmt.Errorf("linker %s made an executable for machine %#x, want %#x", c.Linker, got, want)
	}
	tr, err := in.resources()
	if err != nil {
		return fmt.Errorf("linked by %s: %v", c.Linker, err)
	}
	if err := sameItems(tr.Items, m.items()); err != nil {
		return fmt.Errorf("linked by %s: %v", c.Linker, err)
	}
	back, err := winres.LoadFromEXE(bytes.NewReader(exe))
	if err != nil {
		return fmt.Errorf("linked by %s: LoadFromEXE: %v", c.Linker, err)
	}
	if err := sameItems(walkItems(back), m.items()); err != nil {
		return fmt.Errorf("linked by %s: LoadFromEXE: %v", c.Linker, err)
	}
	r.Label("%s, %s", c.Linker, c.arch())
	r.Label([]string{"no resource section", "resource section last", "resource section in the middle"}[in.place()])
	r.LabelIf(len(in.raw) > in.rawEnd(), "data after sections")
	r.LabelIf(hasSymbols(in), "symbol table")
	if len(m) >= 2 {
		r.NonTrivial()
	}
	// Then replaces these resources
	other, err := buildSet(c.Other)
	if err != nil {
		return err
	}
	om := modelOf(c.Other)
	var dst bytes.Buffer
	perr := c.Opts.patch(other, &dst, bytes.NewReader(exe))
	want, why := expectRefusal(in, treeSize(om), c.Opts)
	switch {
	case want == 1 && perr == nil:
		return fmt.Errorf("linked by %s: patched in spite of: %s", c.Linker, why)
	case want == 0 && perr != nil:
		return fmt.Errorf("linked by %s: refused to patch: %v", c.Linker, perr)
	}
	if perr != nil {
		r.Label("refused: %s", why)
		return nil
	}
	out, err := parsePE(dst.Bytes())
	if err != nil {
		return fmt.Errorf("linked by %s, patched: %v", c.Linker, err)
	}
	if err := validImage(in, out, om); err != nil {
		return fmt.Errorf("linked by %s, patched: %v", c.Linker, err)
	}
	if err := preserved(in, out, c.Opts); err != nil {
		return fmt.Errorf("linked by %s, patched: %v", c.Linker, err)
	}
	r.Label("patched")
	// And back
	var again bytes.Buffer
	if err := c.Opts.patch(rs, &again, bytes.NewReader(dst.Bytes())); err != nil {
		if want, _ := expectRefusal(out, treeSize(m), c.Opts); want == 0 {
			return fmt.Errorf("linked by %s, patched: refused to patch again: %v", c.Linker, err)
		}
		return nil
	}
	if back, err = winres.LoadFromEXE(bytes.NewReader(again.Bytes())); err != nil {
		return fmt.Errorf("linked by %s, patched twice: LoadFromEXE: %v", c.Linker, err)
	}
	if err := sameItems(walkItems(back), m.items()); err != nil {
		return fmt.Errorf("linked by %s, patched twice: %v", c.Linker, err)
	}
	return nil
}

func hasSymbols(v *PEView) bool { return le.Uint32(v.fileHdr[8:]) != 0 }

func genLinkRes(t *rapid.T) []Res {
	var out []Res
	switch rapid.IntRange(0, 19).Draw(t, "sets") {
	case 0:
		out = genLargeRes(t)
	case 1, 2, 3:
		out = genManyResources(t)
	default:
		out = genResources(t, 8, 3000)
	}
	if len(out) == 0 {
		out = []Res{{genKey(t), genBlobN(t, rapid.IntRange(0, 40).Draw(t, "size"))}}
	}
	return out
}

func genLinkCase(linker string) func(t *rapid.T) LinkCase {
	return func(t *rapid.T) LinkCase {
		c := LinkCase{Linker: linker, Res: genLinkRes(t), Other: genLinkRes(t), Opts: genPatchOpts(t)}
		flags := func(n string, f ...string) {
			if x := rapid.SampledFrom(append([]string{""}, f...)).Draw(t, n); x != "" {
				c.Flags = append(c.Flags, x)
			}
		}
		switch linker {
		case "lld":
			c.Arch = rapid.IntRange(0, 3).Draw(t, "arch")
			c.Alone = rapid.IntRange(0, 2).Draw(t, "alone") == 0
			if c.Arch < 2 { // ARM programs must be relocatable
				flags("fixed", "/fixed", "/dynamicbase:no")
			}
			flags("filealign", "/filealign:512", "/filealign:4096", "/filealign:32")
			flags("align", "/align:8192", "/align:65536")
			flags("debug", "/debug:symtab")
			flags("release", "/release")
		case "gnu":
			c.Arch = rapid.IntRange(0, 1).Draw(t, "arch")
			c.Alone = rapid.IntRange(0, 2).Draw(t, "alone") == 0
			flags("strip", "-s")
			flags("filealign", "--file-alignment=4096", "--file-alignment=1024")
			flags("align", "--section-alignment=8192", "--section-alignment=65536")
			flags("base", "--dynamicbase", "--disable-dynamicbase")
		case "go":
			c.Arch = rapid.SampledFrom([]int{0, 1, 3}).Draw(t, "arch")
			flags("strip", "-s", "-w")
			flags("gui", "-H=windowsgui")
			flags("mode", "-buildmode=pie")
		}
		c.First = rapid.Bool().Draw(t, "first")
		return c
	}
}

func init() {
	n := "at least two resources"
	reg("C28", "lld", n, 2000, 60000, genLinkCase("lld"), runLinked)
	reg("C28", "gnu", n, 4000, 200000, genLinkCase("gnu"), runLinked)
	reg("C28", "go", n, 200, 12000, genLinkCase("go"), runLinked)
}
