package main

import (
	"math"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/network"
)

func init() { commands["touch"] = cmdTouch }

// bits of every weight and bias: per layer and neuron, bias last.
func (s *netSpec) bits(n *network.Network) [][][]uint64 {
	var r [][][]uint64
	for d, l := range layersOf(n) {
		var rows [][]uint64
		for j := 0; j < s.sizes[d]; j++ {
			var row []uint64
			for _, x := range l.GetNodeById(j).Weights() {
				row = append(row, math.Float64bits(x))
			}
			rows = append(rows, append(row, math.Float64bits(l.GetNodeById(j).Bias())))
		}
		r = append(r, rows)
	}
	return r
}

func cmdTouch() {
	var ts []*Trace
	changes, kept := 0, 0
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(200, 1200); i++ {
		s := &netSpec{fam: fams[rng.Intn(4)], adam: i%2 == 0, mode: []int{1, 1, 3, 2, 4}[i%5], owner: firstOwner(),
			batch: 1 + rng.Intn(4), dim: 3 + rng.Intn(5), lr: []float64{0.01, 0.5}[rng.Intn(2)]}
		big := s.mode == 4
		if big && i%25 != 4 {
			s.mode, big = 1, false
		}
		depth := 1 + rng.Intn(3)
		widest := 8
		switch i % 20 {
		case 5: // wide
			s.dim, widest, depth = 30+rng.Intn(100), 80, 1+rng.Intn(2)
		case 6: // deep
			depth, widest = 4+rng.Intn(3), 5
		case 7: // many examples at once
			s.batch = 8 + rng.Intn(60)
		}
		sel := make([]string, depth)
		ids := make([][]int, depth)
		places := make([]int, depth)
		var trainSp, predSp []float64
		scale := 1.0 // of what the layer puts out
		var layers []Ev
		for d := 0; d < depth; d++ {
			n := 1 + rng.Intn(widest)
			l := 3 + rng.Intn(3)
			if big && d == depth-1 {
				n, l = 1100+rng.Intn(100), 8
			}
			s.sizes = append(s.sizes, n)
			s.k, s.l, s.pow = append(s.k, 1), append(s.l, l), append(s.pow, rangeBits(s.fam, 1))
			sp := 1.0
			sel[d], ids[d] = "all", []int{}
			if s.mode == 1 && rng.Intn(4) > 0 {
				sp, sel[d], ids[d] = 0.5, "ids", rng.Perm(n)[:rng.Intn(n+1)]
			}
			if d == depth-1 {
				switch {
				case big:
					sp, sel[d], ids[d] = 0.01, "ids", rng.Perm(n)[:8*127]
				case s.mode == 2 || s.mode == 3:
					sp = []float64{0.5, 0.25, 0.75}[rng.Intn(3)]
					sel[d] = map[int]string{2: "any", 3: "top"}[s.mode]
					places[d] = int(math.Floor(float64(n) * sp))
				}
			}
			trainSp, predSp = append(trainSp, sp), append(predSp, []float64{1, sp}[rng.Intn(2)])
			lim := 1 + rng.Intn(3)
			w, b := randInts(n*s.prev(d), lim), randInts(n, 2)
			// the specification knows the parameters up to a power of two
			by := math.Pow(2, float64([]int{0, 0, 0, -34, -60, -300, 20}[rng.Intn(7)]))
			if scale*by < 1e-100 {
				by = 1
			}
			scale *= by
			s.w, s.b = append(s.w, floats(w, by)), append(s.b, floats(b, scale))
			rows := [][]int{}
			for j := 0; j < n; j++ {
				rows = append(rows, w[j*s.prev(d):(j+1)*s.prev(d)])
			}
			layers = append(layers, Ev{"n": n, "w": rows, "b": b, "sel": sel[d], "ids": ids[d], "places": places[d]})
		}
		s.sparsity = append(trainSp, predSp...)
		t := newTrace(Ev{"layers": layers})
		ts = append(ts, t)
		var n *network.Network
		if !t.do("building the network", func() {
			n = s.build()
			for d, l := range layersOf(n) {
				if sel[d] == "ids" && len(ids[d]) <= 128 {
					fillTables(l, s.l[d], bucketsOf(s.fam, 1, 0), ids[d])
				} else if sel[d] == "ids" { // spread over the tables
					l.ClearHashTables()
					tb := tablesOf(l)
					for a, id := range ids[d] {
						for b := 0; b < bucketsOf(s.fam, 1, 0); b++ {
							tb.AddSingle(a%s.l[d], b, id)
						}
					}
				}
			}
		}) {
			continue
		}
		owner := s.owner
		draw := func(m int) ([]dataset.Example, []Ev) {
			var exs []dataset.Example
			log := []Ev{}
			for e := 0; e < m; e++ {
				x := randInts(s.dim, 3)
				feats := rng.Perm(s.dim)
				if s.mode != 1 && s.mode != 4 || trainSp[0] == 1 && predSp[0] == 1 {
					feats = feats[:rng.Intn(s.dim+1)]
				}
				x[feats0(feats)] = 4
				p, pl := []index_value.Pair{}, [][]int{}
				for _, f := range feats {
					p = append(p, index_value.Pair{Index: f, Value: float64(x[f])})
					pl = append(pl, []int{f, x[f]})
				}
				labels := distinctLabels(s.sizes[depth-1], 3)
				exs = append(exs, dataset.Example{Features: p, Labels: cp(labels)})
				log = append(log, Ev{"x": pl, "labels": labels})
			}
			return exs, log
		}
		ok := true
		if rng.Intn(2) == 0 { // predictions beforehand change nothing
			exs, _ := draw(s.batch)
			ok = t.do("PredictClass", func() { _, n = n.PredictClass(owner, exs) })
		}
		if rng.Intn(3) == 0 {
			owner = newOwner()
		}
		if !ok {
			continue
		}
		// without Adam nothing is pending after a batch either
		again := !s.adam && (s.mode == 1 || s.mode == 4) && rng.Intn(2) == 0
		for step := 0; step < 1 || again && step < 4; step++ {
			exs, log := draw(1 + rng.Intn(s.batch))
			var before, after [][][]uint64
			if !t.do("ProcessInput", func() {
				before = s.bits(n)
				_, n = n.ProcessInput(owner, exs, rng.Intn(4), !again && rng.Intn(5) == 0, !again && rng.Intn(5) == 0)
				after = s.bits(n)
			}) {
				break
			}
			changed := make([][]interface{}, depth)
			for d := range changed {
				changed[d] = []interface{}{}
				for j := range before[d] {
					at, bias := []int{}, 0
					for x, old := range before[d][j] {
						if after[d][j][x] == old {
							kept++
							continue
						}
						changes++
						if x == s.prev(d) {
							bias = 1
						} else {
							at = append(at, x)
						}
					}
					if len(at) > 0 || bias == 1 {
						changed[d] = append(changed[d], []interface{}{j, bias, at})
					}
				}
			}
			op := "train"
			if step > 0 {
				op = "later"
			}
			t.add(Ev{"op": op, "ex": log, "changed": changed})
		}
	}
	say("STAT changed=%d unchanged=%d", changes, kept)
	saveTraces(ts)
}

func feats0(f []int) int {
	if len(f) == 0 {
		return 0
	}
	return f[rng.Intn(len(f))]
}
