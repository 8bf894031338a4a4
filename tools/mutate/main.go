// Command mutate is a development aid: it alters the library in many small ways, one at a time, in scratch copies, keeps
// those alterations that compile and pass the stable tests, and reports which the checks (with reduced numbers of cases)
// do not see. Usage: go run main.go REPO HARNESS OUT [FILE-SUBSTRING...]
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

type mutant struct {
	File, Op, Old, New string
	Line, From, To     int
	Status             string
}

func main() {
	repo, harness, out := os.Args[1], os.Args[2], os.Args[3]
	var ms []*mutant
	filepath.Walk(repo, func(p string, i os.FileInfo, err error) error {
		if err != nil || i.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") || strings.Contains(p, "/testdata/") {
			return nil
		}
		ok := len(os.Args) == 4
		for _, s := range os.Args[4:] {
			ok = ok || strings.Contains(p, s)
		}
		if ok {
			rel, _ := filepath.Rel(repo, p)
			ms = append(ms, mutants(repo, rel)...)
		}
		return nil
	})
	done := map[string]bool{}
	if b, err := os.ReadFile(out); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			var m mutant
			if json.Unmarshal([]byte(l), &m) == nil {
				done[key(&m)] = true
			}
		}
	}
	var todo []*mutant
	for _, m := range ms {
		if !done[key(m)] {
			todo = append(todo, m)
		}
	}
	// in an order that has nothing to do with that of the source
	sort.Slice(todo, func(i, j int) bool { return hash(key(todo[i])) < hash(key(todo[j])) })
	fmt.Println(len(ms), "mutants,", len(todo), "to do")
	if os.Getenv("LIST") != "" {
		return
	}
	f, err := os.OpenFile(out, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0666)
	if err != nil {
		panic(err)
	}
	slots := 7
	if n, err := strconv.Atoi(os.Getenv("SLOTS")); err == nil {
		slots = n
	}
	ch := make(chan *mutant)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < slots; k++ {
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			s := newSlot(repo, harness, k)
			for m := range ch {
				s.judge(m)
				b, _ := json.Marshal(m)
				mu.Lock()
				f.Write(append(b, '\n'))
				mu.Unlock()
			}
			os.RemoveAll(s.dir)
		}(k)
	}
	for _, m := range todo {
		ch <- m
	}
	close(ch)
	wg.Wait()
}

func key(m *mutant) string {
	return fmt.Sprint(m.File, m.From, m.To, m.Op, m.Old, m.New)
}

func hash(s string) uint32 {
	h := fnv.New32a()
	h.Write([]byte(s))
	return h.Sum32()
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<"}, token.GTR: {">=", "<="}, token.GEQ: {">"}, token.EQL: {"!=", ">="}, token.NEQ: {"=="},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"}, token.AND: {"|"}, token.OR: {"&", "^"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&"}, token.XOR: {"|"},
}

func mutants(repo, rel string) (ms []*mutant) {
	src, err := os.ReadFile(filepath.Join(repo, rel))
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, rel, src, 0)
	if err != nil {
		panic(err)
	}
	at := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[at(n.Pos()):at(n.End())]) }
	seen := map[string]bool{}
	add := func(op string, from, to token.Pos, repl string) {
		m := &mutant{File: rel, Op: op, Old: string(src[at(from):at(to)]), New: repl, Line: fs.Position(from).Line, From: at(from), To: at(to)}
		if m.Old != m.New && !seen[key(m)] {
			seen[key(m)] = true
			ms = append(ms, m)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.CallExpr:
			if strings.HasPrefix(text(x.Fun), "logrus.") || strings.HasPrefix(text(x.Fun), "errors.New") || strings.HasPrefix(text(x.Fun), "fmt.Errorf") {
				return false
			}
			if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
				narrow := map[string]string{"int": "uint16", "uint32": "uint16", "int64": "int32", "offset32": "uint16", "rune": "uint16", "CharCode": "uint16"}
				if w := narrow[id.Name]; w != "" && !strings.Contains(text(x.Args[0]), "num") {
					add("narrow", x.Args[0].Pos(), x.Args[0].End(), w+"("+text(x.Args[0])+")")
				}
				if id.Name == "make" {
					return true
				}
			}
		case *ast.BinaryExpr:
			for _, s := range swaps[x.Op] {
				add("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s)
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add("literal", x.Pos(), x.End(), fmt.Sprint(v+1))
					if v > 0 && !strings.Contains(rel, "pdfdoc") {
						add("literal", x.Pos(), x.End(), fmt.Sprint(v-1))
					}
				}
			}
		case *ast.IfStmt:
			if text(x.Cond) != "err != nil" {
				add("condition", x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")")
			}
			add("condition", x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")")
		case *ast.ReturnStmt:
			if len(x.Results) > 0 {
				last := x.Results[len(x.Results)-1]
				if t := text(last); t == "err" || strings.HasPrefix(t, "err") || strings.HasPrefix(t, "errors.New") {
					add("nil error", last.Pos(), last.End(), "nil")
				}
				for _, r := range x.Results {
					if t := text(r); t == "true" {
						add("bool", r.Pos(), r.End(), "false")
					} else if t == "false" {
						add("bool", r.Pos(), r.End(), "true")
					}
				}
			}
		case *ast.BranchStmt:
			if x.Label == nil {
				switch x.Tok {
				case token.CONTINUE:
					add("branch", x.Pos(), x.End(), "break")
				case token.BREAK:
					add("branch", x.Pos(), x.End(), "continue")
				}
				add("branch", x.Pos(), x.End(), "{}")
			}
		case *ast.ExprStmt:
			if !strings.HasPrefix(text(x), "logrus.") {
				add("deleted", x.Pos(), x.End(), "{}")
			}
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				var us []string
				for _, r := range x.Rhs {
					us = append(us, "_ = "+text(r))
				}
				if len(x.Lhs) == len(x.Rhs) {
					add("deleted", x.Pos(), x.End(), strings.Join(us, "; "))
				}
			}
			for _, r := range x.Rhs {
				// shared instead of copied
				if c, ok := r.(*ast.CallExpr); ok && text(c.Fun) == "append" && c.Ellipsis.IsValid() && strings.Contains(text(c.Args[0]), "nil") {
					add("alias", r.Pos(), r.End(), text(c.Args[1]))
				}
				if s, ok := r.(*ast.StarExpr); ok && x.Tok == token.DEFINE && len(x.Lhs) == 1 {
					_ = s
				}
				if s, ok := r.(*ast.SliceExpr); ok && s.Slice3 {
					add("capacity", s.High.End(), s.Max.End(), "")
				}
			}
		case *ast.IncDecStmt:
			add("deleted", x.Pos(), x.End(), "{}")
		case *ast.DeferStmt:
			add("deleted", x.Pos(), x.End(), "{}")
		case *ast.CompositeLit:
			for _, e := range x.Elts {
				if kv, ok := e.(*ast.KeyValueExpr); ok {
					if _, ok := kv.Key.(*ast.Ident); ok {
						end := at(kv.End())
						if end < len(src) && src[end] == ',' {
							add("field", kv.Pos(), kv.End()+1, "")
						}
					}
				}
			}
		case *ast.CaseClause:
			if len(x.List) > 1 {
				for i, e := range x.List {
					if i > 0 {
						add("case", x.List[i-1].End(), e.End(), "")
					}
				}
			}
		case *ast.SliceExpr:
			if x.Low != nil {
				add("slice", x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1")
			}
			if x.High != nil {
				add("slice", x.High.Pos(), x.High.End(), "("+text(x.High)+")-1")
			}
		}
		return true
	})
	return ms
}

type slot struct {
	dir, repo, harness string
	stable             []string
}

func newSlot(repo, harness string, k int) *slot {
	s := &slot{dir: fmt.Sprintf("/tmp/mut/%d", k), harness: harness}
	os.RemoveAll(s.dir)
	os.MkdirAll(s.dir+"/vd", 0777)
	s.repo = s.dir + "/repo"
	if o, err := exec.Command("cp", "-a", repo, s.repo).CombinedOutput(); err != nil {
		panic(string(o))
	}
	b, _ := os.ReadFile(harness + "/go.mod")
	os.WriteFile(s.dir+"/go.mod", []byte(strings.Replace(string(b), "=> /repo", "=> "+s.repo, 1)), 0666)
	b, _ = os.ReadFile(harness + "/go.sum")
	os.WriteFile(s.dir+"/go.sum", b, 0666)
	b, _ = os.ReadFile("/opt/vp/BASELINE.json")
	var base struct{ Stable []string }
	json.Unmarshal(b, &base)
	for _, t := range base.Stable {
		t = t[strings.LastIndex(t, "unitype/")+8:]
		s.stable = append(s.stable, strings.TrimPrefix(t, "internal/strutils/"))
	}
	return s
}

func (s *slot) run(dir string, limit time.Duration, env []string, name string, args ...string) (string, int) {
	c := exec.Command("timeout", append([]string{"-k", "5", fmt.Sprint(int(limit.Seconds())), name}, args...)...)
	c.Dir = dir
	c.Env = append(os.Environ(), "TMPDIR="+s.dir, "GOMAXPROCS=2")
	c.Env = append(c.Env, env...)
	b, err := c.CombinedOutput()
	if err != nil {
		if x, ok := err.(*exec.ExitError); ok {
			return string(b), x.ExitCode()
		}
		return string(b), -1
	}
	return string(b), 0
}

var first = map[string]string{"strutils": "X27", "truecli": "L26", "cmap": "P08 P10 S16 S15", "encoding": "P08 P10", "glyf": "S13 I28 S14", "hmtx": "P07", "loca": "P06 S16", "name": "P11", "post": "I28 P05", "os2": "P05", "validate": "P02 P03", "export": "S16 S15 S13 S14 P09"}

func order(file string) (out []string) {
	if p := os.Getenv("PROPS"); p != "" {
		return strings.Fields(p)
	}
	seen := map[string]bool{}
	all := "P01 S16 P08 P10 S15 P11 P05 I28 P02 P07 P03 P09 S19 S14 S13 S17 P06 P04 P12 S18 P20 R22 X27 R21 R24 R23 L26"
	for k, v := range first {
		if strings.Contains(file, k) {
			all = v + " " + all
		}
	}
	for _, p := range strings.Fields(all) {
		if p == "X27" && !strings.Contains(file, "strutils") {
			continue
		}
		if !seen[p] {
			seen[p] = true
			out = append(out, p)
		}
	}
	return out
}

func (s *slot) judge(m *mutant) {
	path := filepath.Join(s.repo, m.File)
	src, _ := os.ReadFile(path)
	defer os.WriteFile(path, src, 0666)
	os.WriteFile(path, []byte(string(src[:m.From])+m.New+string(src[m.To:])), 0666)
	bin := s.dir + "/vm"
	if _, rc := s.run(s.harness, 3*time.Minute, []string{"GOFLAGS=-mod=readonly"}, "go", "build", "-ldflags=-s -w", "-modfile="+s.dir+"/go.mod", "-o", bin, "."); rc != 0 {
		m.Status = "does not compile"
		return
	}
	o, _ := s.run(s.repo, 3*time.Minute, nil, "go", "test", "-vet=off", "-timeout", "60s", "-v", "./...")
	for _, t := range s.stable {
		if !strings.Contains(o, "--- PASS: "+t+" ") {
			m.Status = "tests"
			return
		}
	}
	if _, rc := s.run(s.repo+"/truecli", 3*time.Minute, []string{"GOFLAGS=-mod=mod"}, "go", "build", "-ldflags=-s -w", "-o", s.dir+"/truecli", "."); rc != 0 {
		m.Status = "does not compile"
		return
	}
	divs := strings.Fields(os.Getenv("DIV"))
	if len(divs) == 0 {
		divs = []string{"300", "100"}
	}
	for _, div := range divs {
		if s.phase(m, bin, div) {
			return
		}
	}
	m.Status = "survived"
}

func (s *slot) phase(m *mutant, bin, div string) bool {
	for _, p := range order(m.File) {
		o, rc := s.run(s.dir, 6*time.Minute, []string{"VERIF_DIR=" + s.dir + "/vd", "VERIF_REPO=" + s.repo, "VERIF_CLI=" + s.dir + "/truecli", "VERIF_DIV=" + div, "VERIF_SKIP=30", "VERIF_SHARDS=1", "VERIF_SEED=1", "VERIF_TIER=quick", "GOFLAGS=-mod=readonly"}, bin, "check", p)
		if rc == 1 && strings.Contains(o, "VIOLATION property=") {
			m.Status = "killed by " + p
			return true
		}
		if rc != 0 {
			m.Status = fmt.Sprintf("broken %s rc=%d %.200s", p, rc, o)
			return true
		}
	}
	return false
}
