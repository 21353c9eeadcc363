package main

import (
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/network"
)

func init() { commands["predict"] = cmdPredict }

func everyone(n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = i
	}
	return v
}

func cmdPredict() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(120, 700); i++ {
		s := &netSpec{fam: fams[rng.Intn(4)], adam: false, mode: 1, owner: firstOwner(),
			batch: 1 + rng.Intn(6), dim: 3 + rng.Intn(5), lr: 0}
		if i%4 == 3 {
			s.mode = 3 + rng.Intn(2)
		}
		depth := 1 + rng.Intn(3)
		widest := 7
		switch i % 20 {
		case 4: // wide
			s.dim, widest, depth = 30+rng.Intn(100), 300, 1+rng.Intn(2)
		case 5: // deep
			depth, widest = 4+rng.Intn(3), 5
		case 6: // many examples at once
			s.batch = 20 + rng.Intn(200)
		}
		active := make([][]int, depth) // what a prediction selects
		inTables := make([][]int, depth)
		lim := []int{3, 3, 20}[rng.Intn(3)]
		if depth > 3 {
			lim = 1 + rng.Intn(3)
		}
		var layers []Ev
		var trainSp, predSp []float64
		for d := 0; d < depth; d++ {
			n := 1 + rng.Intn(widest)
			s.sizes = append(s.sizes, n)
			s.k, s.l, s.pow = append(s.k, 1), append(s.l, 3+rng.Intn(3)), append(s.pow, rangeBits(s.fam, 1))
			inTables[d] = rng.Perm(n)[:rng.Intn(n+1)]
			active[d] = everyone(n)
			pick := func() float64 {
				if s.mode == 3 && d < depth-1 {
					return 1
				}
				return []float64{1, 0.5, 0.25, 0.95}[rng.Intn(4)]
			}
			trainSp = append(trainSp, pick())
			sp := pick()
			predSp = append(predSp, sp)
			if sp < 1 {
				switch s.mode {
				case 1:
					active[d] = inTables[d]
				case 3: // the best ones; the very best is what matters
					if int(float64(n)*sp) == 0 {
						active[d] = []int{}
					}
				}
			}
			w, b := randInts(n*s.prev(d), lim), randInts(n, lim)
			if rng.Intn(4) == 0 && d == depth-1 {
				for j := range b {
					b[j] -= 3000
				}
			}
			s.w, s.b = append(s.w, floats(w, 1)), append(s.b, floats(b, 1))
			rows := [][]int{}
			for j := 0; j < n; j++ {
				rows = append(rows, w[j*s.prev(d):(j+1)*s.prev(d)])
			}
			layers = append(layers, Ev{"n": n, "w": rows, "b": b, "active": active[d]})
		}
		s.sparsity = append(trainSp, predSp...)
		t := newTrace(Ev{"layers": layers})
		ts = append(ts, t)
		var n *network.Network
		ok := t.do("building the network", func() {
			n = s.build()
			for d, l := range layersOf(n) {
				fillTables(l, s.l[d], bucketsOf(s.fam, s.k[d], 0), inTables[d])
			}
		})
		owner := s.owner
		for q := 0; q < 5 && ok; q++ {
			m := 1 + rng.Intn(s.batch)
			if rng.Intn(2) == 0 {
				m = s.batch
			}
			var exs []dataset.Example
			log := []Ev{}
			for e := 0; e < m; e++ {
				x := randInts(s.dim, 6)
				x[rng.Intn(s.dim)] = 7
				p := []index_value.Pair{}
				pl := [][]int{}
				for _, f := range rng.Perm(s.dim) {
					p = append(p, index_value.Pair{Index: f, Value: float64(x[f])})
					pl = append(pl, []int{f, x[f]})
				}
				labels := distinctLabels(s.sizes[depth-1], 1+rng.Intn(4))
				if n := s.sizes[depth-1]; n > 30 && rng.Intn(2) == 0 {
					labels = rng.Perm(n)[:rng.Intn(n)]
				}
				exs = append(exs, dataset.Example{Features: p, Labels: cp(labels)})
				log = append(log, Ev{"x": pl, "labels": labels})
			}
			if rng.Intn(4) == 0 {
				owner = newOwner()
			}
			if q > 0 && rng.Intn(3) == 0 { // the rate is 0: nothing is learned
				if ok = t.do("ProcessInput", func() { _, n = n.ProcessInput(owner, exs, q, false, false) }); ok {
					t.add(Ev{"op": "other"})
				}
				continue
			}
			for a := 0; a < 1+rng.Intn(2) && ok; a++ {
				correct := 0
				if ok = t.do("PredictClass", func() { correct, n = n.PredictClass(owner, exs) }); ok {
					t.add(Ev{"op": "predict", "ex": log, "correct": correct})
				}
			}
		}
	}
	saveTraces(ts)
}
