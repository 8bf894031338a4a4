package props

import (
	"bytes"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "R25", Level: "exploration", Quick: 200, Thorough: 5000, Run: r25, NoMemLimit: true, Shards: 4, Procs: 4,
		Rule:   "under the race detector, 3 to 8 goroutines released together query, write and subset one shared font, query, write, prune and optimize fonts each derives from it, and parse the same bytes and others independently, with yields and sleeps injected at random between and inside operations (through the destinations and sources they use); every result is compared with the one obtained sequentially from another parse; non-trivial: distinct order in which operations began and ended",
		Assume: []string{"PruneTables and Optimize change their receiver, and are only called on fonts no other goroutine uses"}})
}

// jitter delays now and then.
type jitter struct{ r *rand.Rand }

func (j jitter) pause() {
	switch j.r.Intn(6) {
	case 0:
		runtime.Gosched()
	case 1:
		time.Sleep(time.Duration(j.r.Intn(60)) * time.Microsecond)
	}
}

type slowWriter struct {
	bytes.Buffer
	j jitter
}

func (w *slowWriter) Write(p []byte) (int, error) {
	w.j.pause()
	n, err := w.Buffer.Write(p)
	w.j.pause()
	return n, err
}

type slowReader struct {
	*bytes.Reader
	j jitter
}

func (r slowReader) Read(p []byte) (int, error) {
	if r.j.r.Intn(8) == 0 {
		r.j.pause()
	}
	return r.Reader.Read(p)
}

// cop is one operation of a goroutine: what it does, as text of its result.
type cop struct {
	name string
	run  func(f *unitype.Font, j jitter) string
}

func concOps(c *mon.C, s *sfnt.Sem, src, other []byte) []cop {
	wr := func(f *unitype.Font, j jitter) string {
		w := &slowWriter{j: j}
		err := f.Write(w)
		return fmt.Sprint(hash(w.Bytes()), err)
	}
	runes := randRunes(c, s)
	ops := []cop{
		{"queries", func(f *unitype.Font, j jitter) string { return strings.Join(observe(f, s.NumGlyphs, runes), "\n") }},
		{"lookup", func(f *unitype.Font, j jitter) string { return fmt.Sprint(f.LookupRunes(runes)) }},
		{"reports", func(f *unitype.Font, j jitter) string { return strings.Join(infos(f), "\n") }},
		{"write", wr},
		{"write", wr},
		{"string", func(f *unitype.Font, j jitter) string { return f.String() }},
	}
	for k := 0; k < 5; k++ {
		d := randDeriv(c, s)
		for d.Kind == "prune" || d.Kind == "optimize" {
			d = randDeriv(c, s)
		}
		if d.Kind == "first" && d.N >= s.NumGlyphs {
			d.N = s.NumGlyphs - 1 // the result must not be the shared font itself
			if d.N == 0 {
				d = derivation{Kind: "keep", Gids: []unitype.GlyphIndex{0}}
			}
		}
		s2, err := d.model(s)
		if err != nil {
			panic(err)
		}
		post := c.Intn(4)
		ops = append(ops, cop{d.String(), func(f *unitype.Font, j jitter) string {
			g, err := d.apply(f)
			if err != nil {
				return err.Error()
			}
			j.pause()
			var out []string
			switch post {
			case 0:
				out = observe(g, s2.NumGlyphs, runes)
			case 1:
				g.Optimize()
				j.pause()
				g.PruneTables("post", "name")
			case 2:
				if h, err := g.SubsetFirst(s2.NumGlyphs - 1); err == nil {
					out = append(out, wr(h, j))
				}
			}
			return strings.Join(append(out, wr(g, j)), "\n")
		}})
	}
	for k, b := range [][]byte{src, other} {
		ops = append(ops, cop{fmt.Sprintf("parse %d", k), func(_ *unitype.Font, j jitter) string {
			f, err := unitype.Parse(slowReader{bytes.NewReader(b), j})
			if err != nil {
				return err.Error()
			}
			return strings.Join(append(observe(f, 5, runes), wr(f, j), fmt.Sprint(unitype.ValidateBytes(b))), "\n")
		}})
	}
	return ops
}

func r25(c *mon.C, i int) {
	var x *fc
	if i%16 == 3 {
		r := reals()[(i/16)%len(reals())]
		x = &fc{r.name, r.b, r.sem, nil}
	} else {
		x = generated(c, gen.Opt{MaxN: 120, NeedComp: c.Intn(2) == 0, NeedCmap: c.Intn(4) > 0})
	}
	other := gen.Font(c.Rand, gen.Opt{MaxN: 60}).Bytes
	ref := mustParse(c, x.b, x.features())
	f := mustParse(c, x.b, x.features())
	if ref == nil || f == nil {
		return
	}
	s := x.sem
	if c.Intn(3) == 0 { // the shared font may be a derived one
		d := derivation{Kind: "keep", Gids: randGids(c, s)}
		var err, err2 error
		ref, err = d.apply(ref)
		f, err2 = d.apply(f)
		if err != nil || err2 != nil {
			c.Fail("subsetting fails", "%v %v", err, err2)
			return
		}
		s, _ = d.model(s)
		c.Count("shared derived fonts", 1)
	}
	ops := concOps(c, s, x.b, other)
	quiet := jitter{rand.New(rand.NewSource(1))}
	want := make([]string, len(ops))
	for k, o := range ops {
		want[k] = o.run(ref, quiet)
	}
	n := 3 + c.Intn(6)
	// Operations are ordered by the clock, not by a shared counter, which would order the accesses of different
	// goroutines for the race detector too.
	type ev struct {
		at   time.Duration
		text string
	}
	t0 := time.Now()
	logs := make([][]ev, n)
	bad := make([]string, n)
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		r := rand.New(rand.NewSource(c.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			j := jitter{r}
			<-start
			if p := mon.Guard(func() {
				for k := 0; k < 4+r.Intn(5); k++ {
					o := r.Intn(len(ops))
					j.pause()
					logs[g] = append(logs[g], ev{time.Since(t0), fmt.Sprintf("%d+%d", g, o)})
					got := ops[o].run(f, j)
					logs[g] = append(logs[g], ev{time.Since(t0), fmt.Sprintf("%d-%d", g, o)})
					if got != want[o] && bad[g] == "" {
						bad[g] = fmt.Sprintf("%s: %s", ops[o].name, firstDiff(strings.Split(want[o], "\n"), strings.Split(got, "\n")))
					}
				}
			}); p != "" {
				bad[g] = p
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, b := range bad {
		if b != "" {
			c.Fail("concurrent result differs", "%d goroutines on %s: %s", n, x.features(), b)
			return
		}
	}
	// afterwards the shared font is as it was
	for k, o := range ops {
		if got := o.run(f, quiet); got != want[k] {
			c.Fail("shared font changed", "%s after %d goroutines: %s", o.name, n, firstDiff(strings.Split(want[k], "\n"), strings.Split(got, "\n")))
			return
		}
	}
	var evs []ev
	for _, l := range logs {
		evs = append(evs, l...)
	}
	sort.SliceStable(evs, func(a, b int) bool { return evs[a].at < evs[b].at })
	total := len(evs)
	var order []string
	for _, e := range evs {
		order = append(order, e.text)
	}
	over := 0
	open := 0
	for _, e := range order {
		if strings.Contains(e, "+") {
			open++
			if open > 1 {
				over++
			}
		} else {
			open--
		}
	}
	c.Count("operations run concurrently", total/2)
	c.Count("operations begun while another ran", over)
	c.Count("goroutines", n)
	c.Eval("%s %s", hash(x.b), strings.Join(order, " "))
	if i < 3 {
		c.Sample(map[string]interface{}{"font": x.features(), "order": strings.Join(order, " ")})
	}
}
