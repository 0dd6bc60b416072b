package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath  = "gitee.com/coco/go808"
	linkPath = modPath + "/zzlink"
)

var (
	repoDir  = "/repo"
	verifDir = "/verif"
)

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOWORK=off", "TZ=UTC")
}

// Harness is one harness function with its directives.
type Harness struct {
	Name     string
	Property string
	Pkg      string // "" or "protocol"
	Bounds   string
	Opts     map[string]string
	Fn       *ssa.Function
}

type Loaded struct {
	prog      *ssa.Program
	harnesses []*Harness
	overlay   map[string][]byte
	tmp       string
	pruned    []string // harness functions that do not fit this tree
	files     []string // files of the repository that were read
}

var reHarness = regexp.MustCompile(`^vh(C\d\d)_`)

// properties for which the statements of the protocol packages are scheduling
// points too
var finerProps = map[string]bool{"C29": true}

// buildOverlay reads the repository's current sources, rewrites them and adds
// the vf package, the link copy and the harnesses.
func buildOverlay(prop string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedSyntax | packages.NeedTypes | packages.NeedTypesInfo | packages.NeedImports | packages.NeedDeps | packages.NeedModule,
		Dir:  repoDir, Env: goEnv(), BuildFlags: []string{"-tags=math_big_pure_go,purego"},
	}
	pkgs, err := packages.Load(cfg, ".", "./protocol/...", "./errors/...", "github.com/funny/link")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("/repo does not compile: %v", p.Errors[0])
		}
	}
	ld := &Loaded{overlay: map[string][]byte{}}
	for _, p := range pkgs {
		for i, f := range p.Syntax {
			name := p.CompiledGoFiles[i]
			src, err := os.ReadFile(name)
			if err != nil {
				return nil, err
			}
			r := &rewriter{fset: p.Fset, info: p.TypesInfo, src: src, base: p.Fset.File(f.Pos()).Base(), file: f, pkg: p.Types,
				fine: p.PkgPath == modPath, finer: finerProps[prop] && strings.HasPrefix(p.PkgPath, modPath+"/protocol"), uses: map[*types.PkgName]int{}, gone: map[*types.PkgName]int{}}
			out := r.rewriteFile()
			if p.PkgPath == "github.com/funny/link" {
				name = filepath.Join(repoDir, "zzlink", filepath.Base(name))
			} else {
				ld.files = append(ld.files, name)
			}
			ld.overlay[name] = []byte(out)
		}
	}
	add := func(dir, target, prefix string) error {
		fs, err := filepath.Glob(filepath.Join(verifDir, "harness", dir, "*.go"))
		if err != nil {
			return err
		}
		for _, f := range fs {
			src, err := os.ReadFile(f)
			if err != nil {
				return err
			}
			ld.overlay[filepath.Join(repoDir, target, prefix+filepath.Base(f))] = src
		}
		return nil
	}
	if err := add("vf", "zzvf", ""); err != nil {
		return nil, err
	}
	if err := add("protocol", "protocol", "zz_verif_"); err != nil {
		return nil, err
	}
	if err := add("root", "", "zz_verif_"); err != nil {
		return nil, err
	}
	if err := ld.registry(); err != nil {
		return nil, err
	}
	return ld, nil
}

// registry finds the harness functions and writes the table used by the replay program
func (ld *Loaded) registry() error {
	for _, pk := range []string{"protocol", "root"} {
		fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", pk, "*.go"))
		sort.Strings(fs)
		pname, dir, exp := "protocol", "protocol", "VhProtocol"
		if pk == "root" {
			pname, dir, exp = "go808", "", "VhRoot"
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "package %s\n\nfunc %s() map[string]func() {\n\treturn map[string]func(){\n", pname, exp)
		for _, f := range fs {
			file, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ParseComments)
			if err != nil {
				return err
			}
			for _, d := range file.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				m := reHarness.FindStringSubmatch(fd.Name.Name)
				if m == nil {
					continue
				}
				h := &Harness{Name: fd.Name.Name, Property: m[1], Opts: map[string]string{}, Pkg: dir}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "vf:") {
							kv := strings.SplitN(strings.TrimPrefix(t, "vf:"), " ", 2)
							v := ""
							if len(kv) > 1 {
								v = strings.TrimSpace(kv[1])
							}
							h.Opts[kv[0]] = v
						} else {
							h.Bounds += strings.TrimSpace(t) + " "
						}
					}
				}
				h.Bounds = strings.TrimSpace(h.Bounds)
				ld.harnesses = append(ld.harnesses, h)
				fmt.Fprintf(&sb, "\t\t%q: %s,\n", h.Name, h.Name)
			}
		}
		sb.WriteString("\t}\n}\n")
		ld.overlay[filepath.Join(repoDir, dir, "zz_verif_all.go")] = []byte(sb.String())
	}
	ld.overlay[filepath.Join(repoDir, "zzmain", "main.go")] = []byte(`package main

import (
	"fmt"
	"os"

	root "gitee.com/coco/go808"
	"gitee.com/coco/go808/protocol"
	zzvf "gitee.com/coco/go808/zzvf"
)

func main() {
	all := protocol.VhProtocol()
	for k, v := range root.VhRoot() {
		all[k] = v
	}
	root.SetLogLevel(root.PanicLevel)
	if err := zzvf.RunReplay(all); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}
`)
	return nil
}

// loadSSA type-checks the overlaid program and builds SSA for everything.
func (ld *Loaded) loadSSA() error {
	var pkgs []*packages.Package
	var bad []string
	for round := 0; ; round++ {
		cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repoDir, Env: goEnv(), BuildFlags: []string{"-tags=math_big_pure_go,purego"}, Overlay: ld.overlay}
		var err error
		pkgs, err = packages.Load(cfg, ".", "./protocol/...", "./zzvf")
		if err != nil {
			return err
		}
		bad = nil
		again := false
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				bad = append(bad, e.Error())
			}
		})
		if len(bad) > 0 && round < 6 {
			again = ld.prune(bad)
		}
		if !again {
			break
		}
	}
	if len(bad) > 0 {
		if len(bad) > 6 {
			bad = bad[:6]
		}
		return fmt.Errorf("the rewritten tree does not compile: %s", strings.Join(bad, "; "))
	}
	prog, sp := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	ld.prog = prog
	byPath := map[string]*ssa.Package{}
	for _, p := range sp {
		if p != nil {
			byPath[p.Pkg.Path()] = p
		}
	}
	for _, h := range ld.harnesses {
		path := modPath
		if h.Pkg != "" {
			path += "/" + h.Pkg
		}
		if p := byPath[path]; p != nil {
			h.Fn = p.Func(h.Name)
		}
		if h.Fn == nil {
			return fmt.Errorf("harness %s not found", h.Name)
		}
	}
	return nil
}

var reErrPos = regexp.MustCompile(`^(\S+/zz_verif_\w+\.go):(\d+):(\d+): (.*)`)

// prune takes out of the harnesses what does not compile against this tree
// (because it uses something that the tree no longer has under that name): the
// body of such a function becomes a call of vf.Incompatible.
func (ld *Loaded) prune(bad []string) bool {
	type edit struct {
		from, to int
		text     string
	}
	edits := map[string][]edit{}
	done := map[string]bool{}
	for _, b := range bad {
		m := reErrPos.FindStringSubmatch(b)
		if m == nil {
			continue
		}
		src, ok := ld.overlay[m[1]]
		if !ok {
			continue
		}
		line, _ := strconv.Atoi(m[2])
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, m[1], src, parser.ParseComments)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			from, to := fset.Position(d.Pos()), fset.Position(d.End())
			if line < from.Line || line > to.Line {
				continue
			}
			key := fmt.Sprint(m[1], ":", from.Line)
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Body == nil || done[key] {
					continue
				}
				done[key] = true
				edits[m[1]] = append(edits[m[1]], edit{fset.Position(x.Body.Pos()).Offset, fset.Position(x.Body.End()).Offset, "{ panic(vf.Incompatible()) }"})
				ld.pruned = append(ld.pruned, x.Name.Name+": "+m[4])
			case *ast.GenDecl:
				if x.Tok != token.IMPORT || !strings.Contains(m[4], "not used") {
					continue
				}
				for _, sp := range x.Specs {
					if fset.Position(sp.Pos()).Line == line && !done[fmt.Sprint(m[1], line)] {
						done[fmt.Sprint(m[1], line)] = true
						edits[m[1]] = append(edits[m[1]], edit{fset.Position(sp.Pos()).Offset, fset.Position(sp.End()).Offset, ""})
					}
				}
			}
		}
	}
	for name, es := range edits {
		sort.Slice(es, func(i, j int) bool { return es[i].from > es[j].from })
		src := ld.overlay[name]
		for _, e := range es {
			src = []byte(string(src[:e.from]) + e.text + string(src[e.to:]))
		}
		ld.overlay[name] = src
	}
	return len(edits) > 0
}

// writeTmp stores the overlay in a scratch directory for the go command
func (ld *Loaded) writeTmp() (string, error) {
	if ld.tmp != "" {
		return filepath.Join(ld.tmp, "overlay.json"), nil
	}
	tmp, err := os.MkdirTemp("", "symgo")
	if err != nil {
		return "", err
	}
	ld.tmp = tmp
	rep := map[string]string{}
	i := 0
	for name, text := range ld.overlay {
		i++
		f := filepath.Join(tmp, fmt.Sprintf("%d_%s", i, filepath.Base(name)))
		if err := os.WriteFile(f, text, 0644); err != nil {
			return "", err
		}
		rep[name] = f
	}
	js, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ov := filepath.Join(tmp, "overlay.json")
	return ov, os.WriteFile(ov, js, 0644)
}

// buildReplay compiles the harnesses and the code under test natively
func (ld *Loaded) buildReplay() (string, error) {
	ov, err := ld.writeTmp()
	if err != nil {
		return "", err
	}
	bin := filepath.Join(ld.tmp, "replay")
	cmd := exec.Command("go", "build", "-overlay", ov, "-o", bin, "./zzmain")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v: %s", err, tail(string(out), 2000))
	}
	return bin, nil
}

func (ld *Loaded) cleanup() {
	if ld.tmp != "" {
		os.RemoveAll(ld.tmp)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}
