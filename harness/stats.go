package main

import (
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/network"
)

func init() { commands["stats"] = cmdStats }

// printed collects what f writes to the standard output.
func printed(f func()) string {
	path := filepath.Join(outDir, "stdout")
	out, err := os.Create(path)
	must(err)
	old := os.Stdout
	os.Stdout = out
	defer func() { os.Stdout = old }()
	f()
	must(out.Close())
	b, err := os.ReadFile(path)
	must(err)
	return string(b)
}

// averages finds the reports of average sample sizes, in thousandths.
func averages(text string) [][]int {
	r := [][]int{}
	for _, line := range strings.Split(text, "\n") {
		if !strings.HasPrefix(line, "Avg sample size") {
			continue
		}
		l := []int{}
		for _, f := range strings.Fields(strings.TrimPrefix(line, "Avg sample size")) {
			x, err := strconv.ParseFloat(f, 64)
			if err != nil || math.IsNaN(x) || math.Abs(x) > 1e5 {
				x = -1
			}
			l = append(l, int(math.Round(x*1000)))
		}
		r = append(r, l)
	}
	return r
}

func cmdStats() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(120, 700); i++ {
		s := &netSpec{fam: fams[rng.Intn(4)], adam: rng.Intn(2) == 0, mode: []int{1, 4, 1, 4, 2, 3}[i%6], owner: firstOwner(),
			batch: 1 + rng.Intn(6), dim: 8 + rng.Intn(8), lr: 0.01}
		depth, widest := 1+rng.Intn(4), 12
		switch i % 20 {
		case 4:
			s.batch = 20 + rng.Intn(200)
		case 5:
			depth = 5 + rng.Intn(3)
		case 6:
			widest, depth = 1200, 1+rng.Intn(2)
		}
		layers := []Ev{}
		sel := []string{}
		for d := 0; d < depth; d++ {
			n := 8 + rng.Intn(widest)
			s.sizes = append(s.sizes, n)
			s.k, s.l, s.pow = append(s.k, 1), append(s.l, 2+rng.Intn(6)), append(s.pow, rangeBits(s.fam, 1))
			s.sparsity = append(s.sparsity, []float64{1, 0.5, 0.1, 0.95}[rng.Intn(4)])
			what := "all"
			if s.sparsity[d] < 1 {
				what = map[int]string{1: "threshold", 4: "sampling", 2: "open", 3: "open"}[s.mode]
			}
			sel = append(sel, what)
			layers = append(layers, Ev{"sel": what})
		}
		for d := 0; d < depth; d++ { // predictions use others
			s.sparsity = append(s.sparsity, []float64{1, 0.5}[rng.Intn(2)])
		}
		s.draw(func(d int) int { return []int{0, 1, 3}[rng.Intn(3)] })
		t := newTrace(Ev{"layers": layers})
		ts = append(ts, t)
		var n *network.Network
		if !t.do("building the network", func() { n = s.build() }) {
			continue
		}
		owner := s.owner
		iter := []int{0, 5, 6944}[rng.Intn(3)]
		for q := 0; q < 3; q++ {
			hits := make([][][]int, depth)
			if rng.Intn(4) == 0 {
				owner = newOwner()
			}
			ok := t.do("filling the tables", func() {
				for d, l := range layersOf(n) {
					l.ClearHashTables()
					hits[d] = [][]int{}
					tb := tablesOf(l)
					ids := rng.Perm(s.sizes[d])
					if rng.Intn(4) > 0 {
						ids = ids[:rng.Intn(len(ids)+1)]
					}
					if len(ids) > 100 {
						ids = ids[:100]
					}
					for _, id := range ids {
						in := rng.Perm(s.l[d])[:rng.Intn(s.l[d]+1)]
						if len(in) == 0 {
							continue
						}
						for _, x := range in {
							for b := 0; b < bucketsOf(s.fam, 1, 0); b++ {
								tb.AddSingle(x, b, id)
							}
						}
						hits[d] = append(hits[d], []int{id, len(in)})
					}
				}
			})
			if !ok {
				break
			}
			t.add(Ev{"op": "fill", "hits": hits})
			exs := s.examples(1 + rng.Intn(s.batch))
			if rng.Intn(3) == 0 {
				exs = s.examples(s.batch)
			}
			labels := [][]int{}
			for _, e := range exs {
				labels = append(labels, cp(e.Labels))
			}
			if rng.Intn(4) == 0 && !t.do("PredictClass", func() { _, n = n.PredictClass(owner, exs) }) {
				break
			}
			rehash, rebuild := rng.Intn(4) > 0, rng.Intn(4) == 0
			text := ""
			if !t.do("ProcessInput", func() {
				text = printed(func() { _, n = n.ProcessInput(owner, exs, iter, rehash, rebuild) })
			}) {
				break
			}
			iter++
			t.add(Ev{"op": "batch", "ex": labels, "rehash": rehash, "reports": averages(text)})
		}
	}
	saveTraces(ts)
}
