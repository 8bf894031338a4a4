package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/unidoc/unitype"

	"github.com/unidoc/unitype/verifmon/gen"
	"github.com/unidoc/unitype/verifmon/mon"
	"github.com/unidoc/unitype/verifmon/sfnt"
)

func init() {
	reg(&mon.Prop{ID: "S18", Level: "exploration", Quick: 8000, Thorough: 40000, Run: s18,
		Rule: "histories of 4 to 14 operations (subset by count, glyphs or runes; prune; optimize; write; queries) on a growing pool of fonts derived from one or two parsed ones, all of them sharing data inside the library; after every operation every font of the pool other than the receiver of a prune or optimize is observed again (all queries, table reports, written bytes) and compared with what it answered before; non-trivial: distinct history and font"})
}

type member struct {
	f     *unitype.Font
	sem   *sfnt.Sem
	how   string
	obs   []string
	bytes []byte
}

// snapshot observes a font completely.
func snapshot(f *unitype.Font, n int, runes []rune) ([]string, []byte, error) {
	o := append(observe(f, n, runes), infos(f)...)
	b, err := write(f)
	return o, b, err
}

func s18(c *mon.C, i int) {
	maxN := 60
	if c.Intn(10) == 0 {
		maxN = 600
	}
	var pool []*member
	var hist []string
	var runes []rune
	add := func(f *unitype.Font, s *sfnt.Sem, how string) bool {
		m := &member{f: f, sem: s, how: how}
		var err error
		if m.obs, m.bytes, err = snapshot(f, s.NumGlyphs, runes); err != nil {
			c.Fail("write fails", "%s: %v", how, err)
			return false
		}
		got := readBack(c, m.bytes, how)
		if got == nil {
			return false
		}
		if d := sfnt.Diff(s.Written(), got, sfnt.AAll); len(d) > 0 {
			c.Fail("derived content", "%s: %s", how, strings.Join(d, "; "))
			return false
		}
		pool = append(pool, m)
		return true
	}
	for k := 0; k < 1+c.Intn(2); k++ {
		x := generated(c, gen.Opt{MaxN: maxN, NeedComp: c.Intn(2) == 0, NeedCmap: c.Intn(4) > 0})
		if i == 0 && k == 0 {
			r := reals()[c.Intn(len(reals()))]
			x = &fc{r.name, r.b, r.sem, nil}
		}
		f := mustParse(c, x.b, x.features())
		if f == nil {
			return
		}
		if k == 0 {
			runes = randRunes(c, x.sem)
		}
		if !add(f, x.sem, fmt.Sprintf("f%d: %s", k, x.features())) {
			return
		}
		// a second parse of the same bytes shares nothing
		if c.Intn(4) == 0 {
			if f = mustParse(c, x.b, x.features()); f == nil || !add(f, x.sem, "parsed again") {
				return
			}
		}
	}
	checkAll := func(changed *unitype.Font) bool {
		for k, m := range pool {
			if m.f == changed {
				continue
			}
			o, b, err := snapshot(m.f, m.sem.NumGlyphs, runes)
			if err != nil {
				c.Fail("write fails", "font %d (%s) after %v: %v", k, m.how, hist, err)
				return false
			}
			if d := firstDiff(m.obs, o); d != "" {
				c.Fail("another font changed", "history %v changed font %d (%s): %s", hist, k, m.how, d)
				return false
			}
			if !bytes.Equal(b, m.bytes) {
				c.Fail("another font changed", "history %v changed the output of font %d (%s): %s", hist, k, m.how, diffBytes(m.bytes, b))
				return false
			}
			c.Count("observations of uninvolved fonts", 1)
		}
		return true
	}
	steps := 4 + c.Intn(11)
	for k := 0; k < steps; k++ {
		at := c.Intn(len(pool))
		m := pool[at]
		d := randDeriv(c, m.sem)
		if len(pool) > 9 && d.Kind != "prune" && d.Kind != "optimize" {
			d = derivation{Kind: "optimize"}
		}
		exp, err := d.model(m.sem)
		if err != nil {
			panic(err)
		}
		hist = append(hist, fmt.Sprintf("f%d.%v", at, d))
		g, err := d.apply(m.f)
		if err != nil {
			c.Fail("derivation fails", "%v: %v", hist, err)
			return
		}
		c.Count("operation "+d.Kind, 1)
		var changed *unitype.Font
		if d.Kind == "prune" || d.Kind == "optimize" {
			changed = m.f
		}
		if !checkAll(changed) {
			return
		}
		if changed != nil {
			// the receiver, under every name it has
			for _, q := range pool {
				if q.f == changed {
					q.sem = exp
					var err error
					if q.obs, q.bytes, err = snapshot(q.f, exp.NumGlyphs, runes); err != nil {
						c.Fail("write fails", "%v: %v", hist, err)
						return
					}
				}
			}
			if got := readBack(c, m.bytes, fmt.Sprint(hist)); got == nil {
				return
			} else if df := sfnt.Diff(exp.Written(), got, sfnt.AAll); len(df) > 0 {
				c.Fail("derived content", "%v: %s", hist, strings.Join(df, "; "))
				return
			}
		} else if !add(g, exp, fmt.Sprintf("f%d: %v of f%d", len(pool), d, at)) {
			return
		}
	}
	c.Count("operations", steps)
	c.EvalBytes(pool[0].bytes, []byte(fmt.Sprint(hist)))
	c.Sample(map[string]interface{}{"fonts": pool[0].how, "history": hist})
}
