package main

import (
	"crypto/sha256"
	"fmt"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
)

func init() {
	commands["index"] = func() { cmdIndex(false) }
	commands["indexfork"] = func() { cmdIndex(true) }
	commands["layerfork"] = cmdLayerFork
}

// seenLayer shows tables, hash functions and the place of every neuron.
func seenLayer(l *layer.Layer, n, tables, buckets int, probes [][]float64) Ev {
	tab := make([][][]int, tables)
	lsh := tablesOf(l)
	for b := 0; b < buckets; b++ {
		ix := make([]int, tables)
		for t := range ix {
			ix[t] = b
		}
		res := lsh.RetrieveRaw(ix)
		for t := range tab {
			tab[t] = append(tab[t], cp(res[t]))
		}
	}
	h := sha256.New()
	for _, p := range probes {
		fmt.Fprintln(h, l.GetHashForInputProcessing(append([]float64(nil), p...)))
	}
	idx := make([][]int, n)
	for j := range idx {
		w := append([]float64(nil), l.GetNodeById(j).Weights()...)
		idx[j] = cp(l.HashesToIndex(l.GetHashForInputProcessing(w)))
	}
	return Ev{"tab": tab, "fp": fmt.Sprintf("%x", h.Sum(nil)[:12]), "idx": idx}
}

func probesFor(dim int) [][]float64 {
	var ps [][]float64
	for i := 0; i < 40; i++ {
		ps = append(ps, realVec(dim, 0))
	}
	return ps
}

func (s *netSpec) seen(n *network.Network, probes [][][]float64) []Ev {
	var r []Ev
	for d, l := range layersOf(n) {
		r = append(r, seenLayer(l, s.sizes[d], s.l[d], bucketsOf(s.fam, s.k[d], s.pow[d]), probes[d]))
	}
	return r
}

func (s *netSpec) examples(m int) []dataset.Example {
	var exs []dataset.Example
	for e := 0; e < m; e++ {
		feats := []index_value.Pair{}
		vals := realVec(s.dim, 0)
		for _, f := range rng.Perm(s.dim)[:1+rng.Intn(s.dim)] {
			feats = append(feats, index_value.Pair{Index: f, Value: vals[f]})
		}
		if s.fam == "minhash" && rng.Intn(2) == 0 {
			for i := range feats {
				feats[i].Value = float64(1+rng.Intn(50)) / 8
			}
		}
		exs = append(exs, dataset.Example{Features: feats, Labels: distinctLabels(s.sizes[s.depth()-1], 3)})
	}
	return exs
}

func cmdIndex(fork bool) {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(72, 1000); i++ {
		fam := fams[i%4]
		s := &netSpec{fam: fam, adam: rng.Intn(3) > 0, mode: []int{1, 4, 1, 4, 2, 3}[rng.Intn(6)], owner: firstOwner(),
			batch: 1 + rng.Intn(3)*rng.Intn(5), dim: 10 + rng.Intn(30), lr: []float64{0.01, 0.5, 2}[rng.Intn(3)]}
		depth := 1 + rng.Intn(3)
		if i%14 == 6 {
			depth = 4 + rng.Intn(2)
		}
		vast := i%250 == 68 && !fork // more neurons than sixteen bits can count
		if vast {
			depth, s.dim, s.batch = 1, 10, 2
		}
		for d := 0; d < depth; d++ {
			n := 10 + rng.Intn(30)
			if i%5 == 2 && d == depth-1 && !fork {
				n = []int{200 + rng.Intn(200), 1000 + rng.Intn(500)}[rng.Intn(2)]
			}
			s.sizes = append(s.sizes, n)
			s.k = append(s.k, 1+rng.Intn(2))
			s.l = append(s.l, 6/s.k[d]+rng.Intn(3))
			s.pow = append(s.pow, rangeBits(fam, s.k[d]))
			sp := []float64{1, 1, 0.5, 0.2, 0.95, 0.999999}[rng.Intn(6)]
			if d == depth-1 && rng.Intn(3) > 0 {
				sp = 0.3
			}
			if vast {
				s.sizes[d], s.k[d], s.l[d], s.pow[d], sp = 66000+rng.Intn(1000), 3, 1, rangeBits(fam, 3)+1, 0.0001
			}
			s.sparsity = append(s.sparsity, sp)
		}
		for d := 0; d < depth; d++ {
			s.sparsity = append(s.sparsity, []float64{1, s.sparsity[d]}[rng.Intn(2)])
		}
		s.draw(func(d int) int { return []int{0, 1, 4, 5}[rng.Intn(4)] })
		var layers []Ev
		var probes [][][]float64
		for d := range s.sizes {
			layers = append(layers, Ev{"n": s.sizes[d], "sparse": s.sparsity[d] < 1})
			probes = append(probes, probesFor(s.prev(d)))
		}
		t := newTrace(Ev{"layers": layers})
		ts = append(ts, t)
		nets := []*network.Network{nil}
		owners, frozen := []int{s.owner}, []bool{false}
		look := func() (seen [][]Ev, ok bool) {
			ok = t.do("observers", func() {
				for _, n := range nets {
					seen = append(seen, s.seen(n, probes))
				}
			})
			return
		}
		loaded := rng.Intn(2) == 0
		if !t.do("building the network", func() {
			if loaded {
				nets[0] = s.build()
				return
			}
			setMode(s.fam, s.mode)
			configuration.Global.UseAdam = s.adam
			configuration.Global.LoadWeight = false
			nets[0] = network.New(s.owner, s.depth(), s.sizes, s.types(), s.batch, s.lr, s.dim,
				s.k, s.l, s.pow, s.sparsity)
		}) {
			continue
		}
		seen, ok := look()
		if !ok {
			continue
		}
		t.add(Ev{"op": "built", "owner": ownerNo(s.owner), "seen": seen})
		iter := []int{0, 6944, 50}[rng.Intn(3)]
		steps := 5
		if vast {
			steps = 1
		}
		for q := 1; q <= steps; q++ {
			h := rng.Intn(len(nets))
			owner := owners[h]
			if frozen[h] || fork && rng.Intn(2) == 0 {
				owner = newOwner()
			}
			rehash, rebuild := rng.Intn(2) == 0, rng.Intn(3) == 0
			op := "train"
			if vast {
				rehash = true
			} else if rng.Intn(4) == 0 {
				op = "predict"
			}
			exs := s.examples(1 + rng.Intn(s.batch))
			if rng.Intn(6) == 0 {
				exs = nil // what is stored is renewed all the same
			}
			var res *network.Network
			if !t.do(op, func() {
				if op == "train" {
					_, res = nets[h].ProcessInput(owner, exs, iter, rehash, rebuild)
				} else {
					_, res = nets[h].PredictClass(owner, exs)
				}
			}) {
				break
			}
			iter++
			ret := 0
			for x, n := range nets {
				if n == res {
					ret = x + 1
				}
			}
			if ret == 0 {
				nets, owners, frozen = append(nets, res), append(owners, owner), append(frozen, false)
				ret = len(nets)
				frozen[h] = true
			}
			if seen, ok = look(); !ok {
				break
			}
			t.add(Ev{"op": op, "h": h + 1, "owner": ownerNo(owner), "rehash": rehash, "rebuild": rebuild, "ret": ret, "seen": seen})
		}
	}
	saveTraces(ts)
}

// cmdLayerFork works on single layers reached through several handles.
func cmdLayerFork() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(32, 160); i++ {
		fam := fams[i%4]
		n, dim, k := 8+rng.Intn(20), 12+rng.Intn(20), 1+rng.Intn(2)
		l := 6 / k
		setMode(fam, []int{1, 4, 2, 3}[rng.Intn(4)])
		configuration.Global.UseAdam = rng.Intn(2) == 0
		probes := probesFor(dim)
		t := newTrace(Ev{"layers": []Ev{{"n": n, "sparse": true}}})
		ts = append(ts, t)
		hs := []*layer.Layer{nil}
		owners, frozen := []int{firstOwner()}, []bool{false}
		pow := rangeBits(fam, k)
		look := func() (seen [][]Ev, ok bool) {
			ok = t.do("observers", func() {
				for _, h := range hs {
					seen = append(seen, []Ev{seenLayer(h, n, l, 1<<uint(pow), probes)})
				}
			})
			return
		}
		if !t.do("layer.New", func() {
			hs[0] = layer.New(owners[0], n, dim, 0, kindOf(true), 2, k, l, pow, 0.5,
				realVec(n*dim, 0), realVec(n, 0), make([]float64, n*dim), make([]float64, n*dim))
		}) {
			continue
		}
		seen, ok := look()
		if !ok {
			continue
		}
		t.add(Ev{"op": "built", "owner": ownerNo(owners[0]), "seen": seen})
		for q := 1; q <= 7; q++ {
			h := rng.Intn(len(hs))
			owner := owners[h]
			op := []string{"redraw", "query", "clear", "add"}[rng.Intn(4)]
			if frozen[h] || rng.Intn(2) == 0 && op != "clear" && op != "add" {
				owner = newOwner()
				op = []string{"redraw", "query"}[rng.Intn(2)]
			}
			e := Ev{"op": op, "h": h + 1, "owner": ownerNo(owner)}
			res := hs[h]
			if !t.do(op, func() {
				switch op {
				case "redraw":
					res = hs[h].UpdateTable(owner)
				case "query":
					per := make([][]index_value.Pair, 2)
					for f, x := range realVec(dim, 0) {
						per[0] = append(per[0], index_value.Pair{Index: f, Value: x})
					}
					_, res = hs[h].QueryActiveNodeAndComputeActivations(owner, per, 0, rng.Intn(2), []int{}, 0.5)
				case "clear":
					hs[h].ClearHashTables()
				case "add":
					b, id := rng.Intn(1<<uint(pow)), rng.Intn(n)
					ix := make([]int, l)
					for x := range ix {
						ix[x] = b
					}
					hs[h].HashTablesAdd(ix, id)
					e["b"], e["id"] = b, id
				}
			}) {
				break
			}
			ret := 0
			for x, y := range hs {
				if y == res {
					ret = x + 1
				}
			}
			if ret == 0 {
				hs, owners, frozen = append(hs, res), append(owners, owner), append(frozen, false)
				ret = len(hs)
				frozen[h] = true
			}
			if seen, ok = look(); !ok {
				break
			}
			e["ret"], e["seen"] = ret, seen
			t.add(e)
		}
	}
	saveTraces(ts)
}
