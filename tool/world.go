package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	index  int
}

type LoopInfo struct {
	header map[*ssa.BasicBlock]*Loop
	list   []*Loop
	ipdom  map[*ssa.BasicBlock]*ssa.BasicBlock
}

type Contract struct {
	name     string // contract function
	pkgPath  string
	rel      string
	target   string // "" for a lemma
	props    []string
	use      bool // applied at call sites
	optional bool
	bounded  int
	timeout  int
	merge    []string
	exact    []string // functions whose loops are executed as they are, not cut by their invariants
	reveal   []string // opaque specification functions whose definition this contract needs
	heavy    bool
	unroll   int
	lemma    bool
	fuzz     bool // concrete sampling is meaningful
	file     string
	fn       *ssa.Function
	targetFn *ssa.Function
	broken   string
	doc      string
}

type Invariant struct {
	name   string
	target string
	loop   int
	fn     *ssa.Function
	pkg    string
	file   string
	broken bool
}

type World struct {
	verif   string
	repo    string
	gomod   string // /repo/go
	prog    *ssa.Program
	fset    *token.FileSet
	mu      sync.Mutex
	loops   map[*ssa.Function]*LoopInfo
	cons    []*Contract
	invs    []*Invariant
	byFn    map[*ssa.Function]*Contract
	spec    map[string]bool // overlay file names
	over    map[string][]byte
	pkgs    []*packages.Package
	spkgs   map[string]*ssa.Package
	consts  map[*ssa.Global]*constInfo
	rels    map[string]string // pkg path -> rel dir
	mergeT  map[string]bool
	unrolls map[string]int
}

const modPath = "github.com/nanobus/iota/go"

// contractFiles returns rel dir -> files.
func contractFiles(verif string) map[string][]string {
	root := filepath.Join(verif, "contracts")
	out := map[string][]string{}
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			rel, _ := filepath.Rel(root, filepath.Dir(p))
			out[rel] = append(out[rel], p)
		}
		return nil
	})
	for _, fs := range out {
		sort.Strings(fs)
	}
	return out
}

type directive struct{ key, arg string }

func directives(d *ast.FuncDecl) []directive {
	var out []directive
	if d.Doc == nil {
		return nil
	}
	for _, c := range d.Doc.List {
		t := c.Text
		if !strings.HasPrefix(t, "//@") && !strings.HasPrefix(t, "// @") {
			continue
		}
		t = strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(t, "//@"), "// @"))
		k, a, _ := strings.Cut(t, " ")
		out = append(out, directive{k, strings.TrimSpace(a)})
	}
	return out
}

var tparams = regexp.MustCompile(`\[[^\]]*\]`)

var targetDrop = strings.NewReplacer(" ", "", "(", "", ")", "", "*", "")

func normTarget(s string) string { return targetDrop.Replace(tparams.ReplaceAllString(s, "")) }

func targetName(fn *ssa.Function) string {
	if p := fn.Parent(); p != nil {
		n := fn.Name()
		i := strings.LastIndex(n, "$")
		if i < 0 {
			return targetName(p) + "$" + n
		}
		return targetName(p) + n[i:]
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	var pk *types.Package
	if fn.Pkg != nil {
		pk = fn.Pkg.Pkg
	}
	return normTarget(fn.RelString(pk))
}

func fnPkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		return obj.Pkg().Path()
	}
	return ""
}

// Load reads the contracts that mention prop (all when prop is "") and the packages they live in.
func Load(verif, repo, prop string) (*World, error) {
	w := &World{verif: verif, repo: repo, gomod: filepath.Join(repo, "go"), loops: map[*ssa.Function]*LoopInfo{}, byFn: map[*ssa.Function]*Contract{},
		spec: map[string]bool{}, over: map[string][]byte{}, spkgs: map[string]*ssa.Package{}, consts: map[*ssa.Global]*constInfo{},
		rels: map[string]string{}, mergeT: map[string]bool{}, unrolls: map[string]int{}}
	files := contractFiles(verif)
	var rels []string
	for rel, fs := range files {
		has := prop == ""
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				l = strings.TrimSpace(l)
				if strings.HasPrefix(l, "//@ prop") {
					for _, p := range strings.FieldsFunc(l[8:], func(r rune) bool { return r == ',' || r == ' ' }) {
						if p == prop {
							has = true
						}
					}
				}
			}
		}
		if has {
			rels = append(rels, rel)
		}
	}
	// a line "//@ load DIR ..." asks for the contracts of other packages to be at hand
	for i := 0; i < len(rels); i++ {
		for _, f := range files[rels[i]] {
			b, _ := os.ReadFile(f)
			for _, l := range strings.Split(string(b), "\n") {
				if !strings.HasPrefix(l, "//@ load ") {
					continue
				}
				for _, r := range strings.Fields(l[9:]) {
					known := false
					for _, q := range rels {
						known = known || q == r
					}
					if !known {
						if len(files[r]) == 0 {
							return nil, fmt.Errorf("%s: no contracts in %s", f, r)
						}
						rels = append(rels, r)
					}
				}
			}
		}
	}
	sort.Strings(rels)
	if len(rels) == 0 {
		return nil, fmt.Errorf("no contracts for %s", prop)
	}
	removed := map[string]map[string]string{} // file -> func -> reason
	for attempt := 0; ; attempt++ {
		errs, err := w.load(rels, files, removed)
		if err != nil {
			return nil, err
		}
		if len(errs) == 0 {
			break
		}
		if attempt > 6 {
			return nil, fmt.Errorf("contracts do not type-check: %v", errs)
		}
		for f, fs := range errs {
			if removed[f] == nil {
				removed[f] = map[string]string{}
			}
			for n, m := range fs {
				removed[f][n] = m
			}
		}
	}
	prog, _ := ssautil.AllPackages(w.pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	w.prog = prog
	for _, p := range w.pkgs {
		sp := prog.Package(p.Types)
		sp.Build()
		w.spkgs[p.PkgPath] = sp
	}
	if err := w.bind(rels, files, removed); err != nil {
		return nil, err
	}
	return w, nil
}

func overlayName(src string) string { return "gvc_" + filepath.Base(src) }

const pruned = "package %s\n"

// overlaySources builds the overlay for the given dirs. Functions listed in removed are cut out.
func (w *World) overlaySources(rels []string, files map[string][]string, removed map[string]map[string]string) (map[string][]byte, error) {
	over := map[string][]byte{}
	for _, rel := range rels {
		pkgName := ""
		for _, f := range files[rel] {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, b, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			pkgName = af.Name.Name
			for _, l := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(l, "//@ hook ") {
					for _, n := range strings.Fields(l[9:]) {
						if err := w.hook(over, rel, n); err != nil {
							return nil, err
						}
					}
				}
			}
			dst := filepath.Join(w.gomod, rel, overlayName(f))
			if rm := removed[dst]; len(rm) > 0 {
				for _, d := range af.Decls {
					if fd, ok := d.(*ast.FuncDecl); ok {
						if _, bad := rm[declName(fd)]; bad {
							for i := fs.Position(fd.Pos()).Offset; i < fs.Position(fd.End()).Offset; i++ {
								if b[i] != '\n' {
									b[i] = ' '
								}
							}
						}
					}
				}
				b = dropUnusedImports(f, b)
			}
			over[dst] = b
		}
		lib, err := os.ReadFile(filepath.Join(w.verif, "tool", "lib", "gv_intrinsics.go.txt"))
		if err != nil {
			return nil, err
		}
		over[filepath.Join(w.gomod, rel, "gvc_gv_intrinsics.go")] = []byte(strings.Replace(string(lib), "package PKG", "package "+pkgName, 1))
	}
	return over, nil
}

// hook makes the empty stub that stands for an imported host function call gvHook_<name>, the contract's
// stand-in for the host. Only a function without any statement is replaced.
func (w *World) hook(over map[string][]byte, rel, name string) error {
	dir := filepath.Join(w.gomod, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return err
	}
	n := 0
	for _, en := range ents {
		if !strings.HasSuffix(en.Name(), ".go") || strings.HasSuffix(en.Name(), "_test.go") {
			continue
		}
		f := filepath.Join(dir, en.Name())
		b := over[f]
		if b == nil {
			if b, err = os.ReadFile(f); err != nil {
				return err
			}
		}
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, b, 0)
		if err != nil {
			continue
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != name || fd.Body == nil || len(fd.Body.List) > 0 {
				continue
			}
			var args []string
			for _, p := range fd.Type.Params.List {
				for _, id := range p.Names {
					args = append(args, id.Name)
				}
			}
			at := fs.Position(fd.Body.Lbrace).Offset + 1
			over[f] = []byte(string(b[:at]) + " gvHook_" + name + "(" + strings.Join(args, ", ") + ") " + string(b[at:]))
			n++
		}
	}
	if n == 0 {
		return fmt.Errorf("%s: no empty stub %s to stand in for", rel, name)
	}
	return nil
}

func declName(fd *ast.FuncDecl) string {
	if fd.Recv != nil && len(fd.Recv.List) > 0 {
		t := fd.Recv.List[0].Type
		if s, ok := t.(*ast.StarExpr); ok {
			t = s.X
		}
		if id, ok := t.(*ast.Ident); ok {
			return id.Name + "." + fd.Name.Name
		}
	}
	return fd.Name.Name
}

func dropUnusedImports(name string, b []byte) []byte {
	fs := token.NewFileSet()
	af, err := parser.ParseFile(fs, name, b, 0)
	if err != nil {
		return b
	}
	used := map[string]bool{}
	ast.Inspect(af, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				used[id.Name] = true
			}
		}
		return true
	})
	for _, im := range af.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		n := filepath.Base(p)
		if im.Name != nil {
			n = im.Name.Name
		}
		if !used[n] && n != "_" {
			for i := fs.Position(im.Pos()).Offset; i < fs.Position(im.End()).Offset; i++ {
				b[i] = ' '
			}
		}
	}
	return b
}

// load type-checks; it returns type errors located in contract functions.
func (w *World) load(rels []string, files map[string][]string, removed map[string]map[string]string) (map[string]map[string]string, error) {
	over, err := w.overlaySources(rels, files, removed)
	if err != nil {
		return nil, err
	}
	w.over = over
	w.spec = map[string]bool{}
	var pats []string
	for f := range over {
		if strings.HasPrefix(filepath.Base(f), "gvc_") {
			w.spec[f] = true
		}
	}
	for _, rel := range rels {
		pats = append(pats, w.pkgPathOf(rel))
	}
	w.fset = token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo,
		Dir: w.gomod, Env: goEnv(), Fset: w.fset, Overlay: over, Tests: false,
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	w.pkgs = pkgs
	bad := map[string]map[string]string{}
	for _, p := range pkgs {
		var other []string
		for _, er := range p.Errors {
			file, line := splitPos(er.Pos)
			if w.spec[file] {
				if fn := enclosingFunc(w.fset, p.Syntax, file, line); fn != "" {
					if bad[file] == nil {
						bad[file] = map[string]string{}
					}
					bad[file][fn] = er.Msg
					continue
				}
			}
			other = append(other, er.Pos+": "+er.Msg)
		}
		if len(other) > 0 && len(bad) == 0 {
			return nil, fmt.Errorf("package %s: %s", p.PkgPath, strings.Join(other, "; "))
		}
	}
	return bad, nil
}

func (w *World) pkgPathOf(rel string) string {
	pp := modPath
	if rel != "." {
		pp += "/" + rel
	}
	return pp
}

func splitPos(p string) (string, int) {
	parts := strings.Split(p, ":")
	if len(parts) < 2 {
		return p, 0
	}
	n, _ := strconv.Atoi(parts[1])
	return parts[0], n
}

func enclosingFunc(fs *token.FileSet, files []*ast.File, file string, line int) string {
	for _, f := range files {
		if fs.Position(f.Pos()).Filename != file {
			continue
		}
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok {
				if fs.Position(fd.Pos()).Line <= line && line <= fs.Position(fd.End()).Line {
					return declName(fd)
				}
			}
		}
	}
	return ""
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k, _, _ := strings.Cut(kv, "=")
		switch k {
		case "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "GOWORK":
			continue
		}
		env = append(env, kv)
	}
	return append(env, "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=", "GONOSUMDB=*", "GONOSUMCHECK=1")
}

// bind connects contracts and invariants with SSA functions.
func (w *World) bind(rels []string, files map[string][]string, removed map[string]map[string]string) error {
	all := map[string]map[string]*ssa.Function{} // pkg -> target name -> fn
	for path, sp := range w.spkgs {
		m := map[string]*ssa.Function{}
		var add func(fn *ssa.Function)
		add = func(fn *ssa.Function) {
			if fn == nil {
				return
			}
			m[targetName(fn)] = fn
			for _, a := range fn.AnonFuncs {
				add(a)
			}
		}
		for _, mem := range sp.Members {
			switch x := mem.(type) {
			case *ssa.Function:
				add(x)
			case *ssa.Type:
				named, ok := x.Type().(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < named.NumMethods(); i++ {
					add(w.prog.FuncValue(named.Method(i)))
				}
			}
		}
		all[path] = m
	}
	for _, rel := range rels {
		path := w.pkgPathOf(rel)
		w.rels[path] = rel
		for _, f := range files[rel] {
			b, _ := os.ReadFile(f)
			fs := token.NewFileSet()
			af, err := parser.ParseFile(fs, f, b, parser.ParseComments)
			if err != nil {
				return err
			}
			dst := filepath.Join(w.gomod, rel, overlayName(f))
			for _, d := range af.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				ds := directives(fd)
				if len(ds) == 0 {
					continue
				}
				con := &Contract{name: fd.Name.Name, pkgPath: path, rel: rel, file: f, fuzz: true}
				isCon, invT := false, ""
				for _, x := range ds {
					switch x.key {
					case "contract":
						isCon = true
						con.target = normTarget(x.arg)
					case "lemma":
						isCon = true
						con.lemma = true
					case "prop":
						con.props = strings.FieldsFunc(x.arg, func(r rune) bool { return r == ',' || r == ' ' })
					case "use":
						con.use = true
					case "optional":
						con.optional = true
					case "nofuzz":
						con.fuzz = false
					case "bounded":
						con.bounded, _ = strconv.Atoi(x.arg)
					case "timeout":
						con.timeout, _ = strconv.Atoi(x.arg)
					case "unroll":
						con.unroll, _ = strconv.Atoi(x.arg)
					case "heavy":
						con.heavy = true
					case "exact":
						for _, t := range strings.Fields(x.arg) {
							con.exact = append(con.exact, normTarget(t))
						}
					case "merge":
						for _, t := range strings.Fields(x.arg) {
							con.merge = append(con.merge, normTarget(t))
						}
					case "reveal":
						con.reveal = append(con.reveal, strings.Fields(x.arg)...)
					case "invariant":
						invT = x.arg
					default:
						return fmt.Errorf("%s: unknown directive %q", f, x.key)
					}
				}
				fn := all[path][fd.Name.Name]
				if invT != "" {
					t, n, _ := strings.Cut(invT, "#")
					li, _ := strconv.Atoi(n)
					inv := &Invariant{name: fd.Name.Name, target: normTarget(t), loop: li, fn: fn, pkg: path, file: f}
					if _, bad := removed[dst][declName(fd)]; bad {
						inv.broken = true
					}
					w.invs = append(w.invs, inv)
					continue
				}
				if !isCon {
					continue
				}
				if msg, bad := removed[dst][declName(fd)]; bad {
					con.broken = "does not type-check against the current code: " + msg
				} else {
					con.fn = fn
					if con.target != "" {
						con.targetFn = all[path][con.target]
						if con.targetFn == nil {
							con.broken = "function " + con.target + " no longer exists"
						} else {
							w.byFn[con.targetFn] = con
						}
					}
				}
				w.cons = append(w.cons, con)
			}
		}
	}
	return nil
}

func (w *World) isSpec(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Syntax() == nil && fn.Object() == nil {
		return false
	}
	p := fn.Pos()
	if !p.IsValid() && fn.Syntax() != nil {
		p = fn.Syntax().Pos()
	}
	if !p.IsValid() {
		return false
	}
	return w.spec[w.fset.Position(p).Filename]
}

func (w *World) contractFor(fn *ssa.Function) *Contract { return w.byFn[fn] }

func (w *World) invariantFor(fn *ssa.Function, lp *Loop) *Invariant {
	t := targetName(fn)
	p := fnPkgPath(fn)
	for _, inv := range w.invs {
		if inv.target == t && inv.pkg == p && inv.loop == lp.index && inv.fn != nil && !inv.broken {
			return inv
		}
	}
	return nil
}

func (w *World) loopsOf(fn *ssa.Function) *LoopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	if li, ok := w.loops[fn]; ok {
		return li
	}
	li := &LoopInfo{header: map[*ssa.BasicBlock]*Loop{}}
	w.loops[fn] = li
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				lp := li.header[s]
				if lp == nil {
					lp = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					li.header[s] = lp
					li.list = append(li.list, lp)
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if lp.blocks[x] {
						continue
					}
					lp.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	sort.Slice(li.list, func(i, j int) bool {
		a, b := loopPos(li.list[i]), loopPos(li.list[j])
		if a != b {
			return a < b
		}
		return li.list[i].header.Index < li.list[j].header.Index
	})
	for i, l := range li.list {
		l.index = i
	}
	li.ipdom = postDoms(fn)
	return li
}

func loopPos(l *Loop) token.Pos {
	best := token.Pos(0)
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			if p := in.Pos(); p.IsValid() && (best == 0 || p < best) {
				best = p
			}
		}
	}
	return best
}

// postDoms computes immediate post-dominators (nil when there is none).
func postDoms(fn *ssa.Function) map[*ssa.BasicBlock]*ssa.BasicBlock {
	n := len(fn.Blocks)
	sets := make([]map[int]bool, n)
	all := map[int]bool{}
	for i := range fn.Blocks {
		all[i] = true
	}
	for i, b := range fn.Blocks {
		if len(b.Succs) == 0 {
			sets[i] = map[int]bool{i: true}
		} else {
			sets[i] = all
		}
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if len(b.Succs) == 0 {
				continue
			}
			var in map[int]bool
			for _, s := range b.Succs {
				if in == nil {
					in = map[int]bool{}
					for k := range sets[s.Index] {
						in[k] = true
					}
				} else {
					for k := range in {
						if !sets[s.Index][k] {
							delete(in, k)
						}
					}
				}
			}
			in[i] = true
			if len(in) != len(sets[i]) {
				sets[i] = in
				changed = true
			}
		}
	}
	out := map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for i, b := range fn.Blocks {
		// the immediate post-dominator is the one with the largest set among the others
		var best *ssa.BasicBlock
		for k := range sets[i] {
			if k == i {
				continue
			}
			if best == nil || len(sets[k]) > len(sets[best.Index]) {
				best = fn.Blocks[k]
			}
		}
		out[b] = best
	}
	return out
}

// ---- constant globals

type constInfo struct {
	isConst bool // neither the variable nor what it refers to changes
	fixed   bool // the variable itself does not change
	done    bool
}

func (w *World) constGlobal(e *Engine, g *ssa.Global) (Value, bool) {
	if g.Pkg == nil {
		return nil, false
	}
	w.mu.Lock()
	ci, ok := w.consts[g]
	if !ok {
		ci = &constInfo{}
		g.Pkg.Build()
		ci.isConst = w.neverAssigned(g, readOnlyUse)
		ci.fixed = ci.isConst
		if _, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Slice); ok && !ci.isConst {
			ci.fixed = w.neverAssigned(g, func(in ssa.Instruction, v ssa.Value, depth int) bool {
				switch in.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
					return true
				}
				return false
			})
		}
		w.consts[g] = ci
	}
	w.mu.Unlock()
	if !ci.fixed {
		return nil, false
	}
	v, err := e.evalInit(g)
	if err != "" {
		dbg("global %s: %s", g, err)
		return nil, false
	}
	if !ci.isConst {
		// the slice variable is fixed but its elements may be written through copies of it
		if sl, ok := v.(Slice); !ok || !(sl.cp.isConst() && sl.cp.val == 0) {
			return nil, false
		}
	}
	return v, true
}

func (w *World) pkgFuncs(p *ssa.Package) []*ssa.Function {
	var out []*ssa.Function
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		out = append(out, fn)
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	for _, mem := range p.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			add(x)
		case *ssa.Type:
			if named, ok := x.Type().(*types.Named); ok {
				for i := 0; i < named.NumMethods(); i++ {
					add(w.prog.FuncValue(named.Method(i)))
				}
			}
		}
	}
	return out
}

// neverAssigned: outside package initialisation the global is only read (unexported, or every
// package's uses checked for loaded packages).
func (w *World) neverAssigned(g *ssa.Global, readOnlyUse func(in ssa.Instruction, v ssa.Value, depth int) bool) bool {
	pk := []*ssa.Package{g.Pkg}
	for _, sp := range w.spkgs {
		if sp != g.Pkg {
			pk = append(pk, sp)
		}
	}
	for _, p := range pk {
		for _, fn := range w.pkgFuncs(p) {
			if fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					for _, op := range in.Operands(nil) {
						if *op == ssa.Value(g) {
							if !readOnlyUse(in, g, 0) {
								return false
							}
						}
					}
				}
			}
		}
	}
	return true
}

func readOnlyUse(in ssa.Instruction, v ssa.Value, depth int) bool {
	if depth > 4 {
		return false
	}
	refsOK := func(x ssa.Value) bool {
		if x.Referrers() == nil {
			return true
		}
		for _, r := range *x.Referrers() {
			if !readOnlyUse(r, x, depth+1) {
				return false
			}
		}
		return true
	}
	switch x := in.(type) {
	case *ssa.UnOp:
		switch x.Type().Underlying().(type) {
		case *types.Map, *types.Slice, *types.Pointer:
			return refsOK(x)
		}
		return true
	case *ssa.FieldAddr, *ssa.IndexAddr:
		return refsOK(x.(ssa.Value))
	case *ssa.Lookup, *ssa.Range, *ssa.BinOp, *ssa.DebugRef, *ssa.If:
		return true
	case *ssa.Slice:
		return refsOK(x)
	case *ssa.MakeInterface:
		return false
	case *ssa.Call:
		// methods on the global: allow len/cap only
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			return true
		}
		if fn := x.Call.StaticCallee(); fn != nil && (fn.String() == "bytes.Equal" || fn.String() == "bytes.Compare" || fn.String() == "bytes.HasPrefix") {
			return true
		}
		// passing a loaded slice as copy source
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "copy" && x.Call.Args[0] != v {
			return true
		}
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" && x.Call.Args[0] != v {
			return true
		}
		return false
	}
	return false
}

func rootAddr(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Slice:
			v = x.X
		default:
			return v
		}
	}
}

// evalInit evaluates the part of the package initialiser that g depends on.
func (e *Engine) evalInit(g *ssa.Global) (val Value, errs string) {
	t := g.Type().(*types.Pointer).Elem()
	init := g.Pkg.Func("init")
	if init == nil || init.Blocks == nil {
		return e.zero(t), ""
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				val, errs = nil, u.msg
				return
			}
			panic(r)
		}
	}()
	needed := map[ssa.Value]bool{g: true}
	for changed := true; changed; {
		changed = false
		add := func(v ssa.Value) {
			if v == nil || needed[v] {
				return
			}
			switch v.(type) {
			case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
				return
			}
			needed[v] = true
			changed = true
		}
		for _, b := range init.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case *ssa.Store:
					if needed[rootAddr(x.Addr)] {
						add(x.Val)
						add(x.Addr)
					}
				case *ssa.MapUpdate:
					if needed[x.Map] {
						add(x.Key)
						add(x.Value)
					}
				}
				if v, ok := in.(ssa.Value); ok && needed[v] {
					for _, op := range in.Operands(nil) {
						if *op != nil {
							add(*op)
						}
					}
				}
			}
		}
	}
	st := &State{heap: map[int]Value{}}
	gobj := e.globals[g]
	st.heap[gobj] = e.zero(t)
	fr := &Frame{fn: init, env: map[ssa.Value]Value{}, visits: map[int]int{}}
	c := &Conf{st, fr}
	r := &run{e: e}
	e.fnStack = append(e.fnStack, init)
	defer func() { e.fnStack = e.fnStack[:len(e.fnStack)-1] }()
	saved := e.sinks
	e.sinks = nil
	defer func() { e.sinks = saved }()
	any := false
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if needed[rootAddr(x.Addr)] {
					any = true
					e.store(c.st, e.val(c, x.Addr).(Ptr), e.val(c, x.Val))
				}
				continue
			case *ssa.MapUpdate:
				if needed[x.Map] {
					e.mapUpdate(c.st, e.val(c, x.Map).(MapV), e.val(c, x.Key), e.val(c, x.Value))
				}
				continue
			}
			v, ok := in.(ssa.Value)
			if !ok || !needed[v] {
				continue
			}
			switch x := in.(type) {
			case *ssa.Call:
				fv, args, ok := r.callee(c, &x.Call, x.Pos())
				if !ok {
					unsup("init call")
				}
				var outs []Outcome
				if fv.builtin != "" {
					outs = r.builtin(c, fv.builtin, args, x)
				} else {
					outs = e.callFunc(c.st, fv, args, &x.Call)
				}
				if len(outs) != 1 || outs[0].panic != nil || outs[0].block {
					unsup("init call has several outcomes")
				}
				if !r.resume(c, x, outs) {
					unsup("init call")
				}
			case *ssa.Phi:
				unsup("branching initialiser")
			default:
				gs, cont := r.value(c, v)
				if !cont || len(gs) != 1 {
					unsup("init value")
				}
				c.fr.env[v] = gs[0].v
			}
		}
	}
	_ = any
	// objects allocated during initialisation become pre-existing objects
	for o, v := range c.st.heap {
		if o == gobj {
			continue
		}
		vv := v
		if _, ok := e.objInit[o]; !ok {
			e.objInit[o] = func() Value { return vv }
		}
	}
	return c.st.heap[gobj], ""
}
