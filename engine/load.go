package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/vanclief/finmod"

// Task is one harness function with fixed bounds.
type Task struct {
	Prop     string
	Fn       string
	Params   map[string]int
	Thorough bool
	Rounding bool
	Merge    bool
	Unwind   int
	Seconds  int
	QueryMS  int
}

func (t *Task) Name() string {
	var ks []string
	for k := range t.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := t.Fn
	for i, k := range ks {
		if i == 0 {
			s += "["
		} else {
			s += ","
		}
		s += fmt.Sprintf("%s=%d", k, t.Params[k])
	}
	if len(ks) > 0 {
		s += "]"
	}
	if !t.Rounding {
		s += "(real)"
	}
	return s
}

type Harness struct {
	Tasks  []*Task
	Labels map[string][]string // function -> assertion labels in its source
	files  map[string][]byte   // virtual path -> content
	tmp    string
}

// readHarness collects the harness sources needed for a property: the common
// files (lower-case names without a property prefix) and the files naming it.
func readHarness(dir, repo, prop, tmp string) (*Harness, error) {
	h := &Harness{Labels: map[string][]string{}, files: map[string][]byte{}, tmp: tmp}
	virt := func(parts ...string) string {
		return filepath.Join(append([]string{repo, "zzverif"}, parts...)...)
	}
	for _, p := range []string{"sym/sym.go", "srv/main.go"} {
		b, err := os.ReadFile(filepath.Join(dir, p))
		if err != nil {
			return nil, err
		}
		h.files[virt(p)] = b
	}
	fs, err := filepath.Glob(filepath.Join(dir, "h", "*.go"))
	if err != nil {
		return nil, err
	}
	sort.Strings(fs)
	var reg []string
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, b, parser.ParseComments)
		if err != nil {
			return nil, err
		}
		var tasks []*Task
		var fns []string
		any := false
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok {
				continue
			}
			var labels []string
			ast.Inspect(fd, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok {
					return true
				}
				if s, ok := c.Fun.(*ast.SelectorExpr); ok && len(c.Args) > 0 {
					if x, ok := s.X.(*ast.Ident); ok && x.Name == "sym" && s.Sel.Name == "Assert" {
						if l, ok := c.Args[len(c.Args)-1].(*ast.BasicLit); ok && l.Kind == token.STRING {
							v, _ := strconv.Unquote(l.Value)
							labels = append(labels, v)
						}
					}
				}
				return true
			})
			if fd.Doc == nil {
				continue
			}
			has := false
			for _, c := range fd.Doc.List {
				if !strings.HasPrefix(c.Text, "//verify ") {
					continue
				}
				any, has = true, true
				t, err := parseTask(strings.Fields(c.Text)[1:], fd.Name.Name)
				if err != nil {
					return nil, fmt.Errorf("%s: %v", f, err)
				}
				if t.Prop == prop {
					tasks = append(tasks, t)
				}
			}
			if has {
				fns = append(fns, fd.Name.Name)
				h.Labels[fd.Name.Name] = labels
			}
		}
		if any && len(tasks) == 0 {
			continue
		}
		h.files[virt("h", filepath.Base(f))] = b
		h.Tasks = append(h.Tasks, tasks...)
		reg = append(reg, fns...)
	}
	var sb strings.Builder
	sb.WriteString("package h\n\n// Registry lists the harness functions.\nvar Registry = map[string]func(){\n")
	for _, f := range reg {
		fmt.Fprintf(&sb, "\t%q: %s,\n", f, f)
	}
	sb.WriteString("}\n")
	h.files[virt("h", "registry_gen.go")] = []byte(sb.String())
	return h, nil
}

func parseTask(fs []string, fn string) (*Task, error) {
	t := &Task{Fn: fn, Params: map[string]int{}, Rounding: true, Merge: true, Unwind: 64, Seconds: 240, QueryMS: 20000}
	if len(fs) == 0 {
		return nil, fmt.Errorf("empty //verify")
	}
	t.Prop = fs[0]
	for _, f := range fs[1:] {
		switch f {
		case "thorough":
			t.Thorough = true
			continue
		case "real":
			t.Rounding = false
			continue
		case "nomerge":
			t.Merge = false
			continue
		}
		k, v, ok := strings.Cut(f, "=")
		n, err := strconv.Atoi(v)
		if !ok || err != nil {
			return nil, fmt.Errorf("bad option %q", f)
		}
		switch k {
		case "unwind":
			t.Unwind = n
		case "sec":
			t.Seconds = n
		case "qms":
			t.QueryMS = n
		default:
			t.Params[k] = n
		}
	}
	return t, nil
}

// prepare writes the overlay and the private copy of the module files.
func (h *Harness) prepare(repo string) error {
	ov := map[string]string{}
	i := 0
	for v, b := range h.files {
		i++
		p := filepath.Join(h.tmp, fmt.Sprintf("ov%d.go", i))
		if err := os.WriteFile(p, b, 0644); err != nil {
			return err
		}
		ov[v] = p
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	if err := os.WriteFile(filepath.Join(h.tmp, "overlay.json"), b, 0644); err != nil {
		return err
	}
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(h.tmp, f), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off")
}

func (h *Harness) buildNative(repo string) (string, error) {
	bin := filepath.Join(h.tmp, "srv")
	cmd := exec.Command("go", "build", "-overlay", filepath.Join(h.tmp, "overlay.json"),
		"-modfile", filepath.Join(h.tmp, "go.mod"), "-o", bin, modPath+"/zzverif/srv")
	cmd.Dir = repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("go build: %v\n%s", err, out)
	}
	return bin, nil
}

// load builds SSA for the repository, the harness and every dependency.
func (h *Harness) load(repo string) (*ssa.Program, *ssa.Package, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: h.files, Env: goEnv(),
		BuildFlags: []string{"-modfile=" + filepath.Join(h.tmp, "go.mod")}}
	ps, err := packages.Load(cfg, modPath+"/zzverif/h")
	if err != nil {
		return nil, nil, err
	}
	var msgs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			msgs = append(msgs, e.Error())
		}
	})
	if len(msgs) > 0 {
		return nil, nil, fmt.Errorf("load: %s", strings.Join(msgs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	return prog, prog.Package(ps[0].Types), nil
}
