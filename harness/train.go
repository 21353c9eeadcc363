package main

import (
	"crypto/sha256"
	"fmt"
	"os"
	"reflect"
	"unsafe"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
)

func init() {
	commands["train"] = func() { cmdTrain("train") }
	commands["trainfork"] = func() { cmdTrain("fork") }
	commands["concurrent"] = func() { cmdTrain("concurrent") }
	commands["trainpredict"] = func() { cmdTrain("predict") }
}

// fieldByType returns a pointer to the first field of that type, in s or in
// what its fields point to.
func fieldByType(s interface{}, want reflect.Type) unsafe.Pointer {
	v := reflect.ValueOf(s).Elem()
	been := map[unsafe.Pointer]bool{}
	var find func(v reflect.Value) unsafe.Pointer
	find = func(v reflect.Value) unsafe.Pointer {
		if v.Kind() == reflect.Interface && !v.IsNil() {
			v = v.Elem()
			if v.Type() == want && v.Kind() == reflect.Ptr {
				p := v.UnsafePointer()
				return unsafe.Pointer(&p)
			}
		}
		if v.Kind() == reflect.Ptr && !v.IsNil() && !been[v.UnsafePointer()] {
			been[v.UnsafePointer()] = true
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct || !v.CanAddr() {
			return nil
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).Type() == want {
				return unsafe.Pointer(v.Field(i).UnsafeAddr())
			}
		}
		for i := 0; i < v.NumField(); i++ {
			if p := find(v.Field(i)); p != nil {
				return p
			}
		}
		return nil
	}
	p := find(v)
	if p == nil {
		fmt.Fprintf(os.Stderr, "harness error: no field of type %v in %T\n", want, s)
		os.Exit(4)
	}
	return p
}

func layersOf(n *network.Network) []*layer.Layer {
	return *(*[]*layer.Layer)(fieldByType(n, reflect.TypeOf([]*layer.Layer{})))
}

func tablesOf(l *layer.Layer) *lsh.LSH {
	return *(**lsh.LSH)(fieldByType(l, reflect.TypeOf(&lsh.LSH{})))
}

// netSpec describes a network to build.
type netSpec struct {
	fam      string
	adam     bool
	mode     int
	owner    int
	batch    int
	dim      int
	sizes    []int
	k, l     []int
	pow      []int
	sparsity []float64 // training, then prediction
	lr       float64
	w, b     [][]float64 // nil: random
}

func (s *netSpec) depth() int { return len(s.sizes) }

func (s *netSpec) prev(d int) int {
	if d == 0 {
		return s.dim
	}
	return s.sizes[d-1]
}

func (s *netSpec) types() []node.NodeType {
	ts := make([]node.NodeType, s.depth())
	ts[len(ts)-1] = node.Softmax
	return ts
}

// build makes the network with the specified parameters (drawing the
// missing ones), so that building it twice gives equal networks.
func (s *netSpec) build() *network.Network {
	setMode(s.fam, s.mode)
	configuration.Global.UseAdam = s.adam
	configuration.Global.BatchSize = s.batch
	configuration.Global.LoadWeight = false
	n := network.New(s.owner, s.depth(), s.sizes, s.types(), s.batch, s.lr, s.dim,
		s.k, s.l, s.pow, s.sparsity)
	configuration.Global.LoadWeight = true
	ls := layersOf(n)
	for d := range ls {
		w := append([]float64(nil), s.w[d]...)
		b := append([]float64(nil), s.b[d]...)
		ls[d] = layer.New(s.owner, s.sizes[d], s.prev(d), d, s.types()[d], s.batch,
			s.k[d], s.l[d], s.pow[d], s.sparsity[d], w, b,
			make([]float64, len(w)), make([]float64, len(w)))
	}
	configuration.Global.LoadWeight = false
	return n
}

func (s *netSpec) draw(style func(d int) int) {
	s.w, s.b = nil, nil
	for d := range s.sizes {
		s.w = append(s.w, realVec(s.sizes[d]*s.prev(d), style(d)))
		s.b = append(s.b, realVec(s.sizes[d], style(d)))
	}
}

// fillTables puts the ids in every bucket of every table of a layer.
func fillTables(l *layer.Layer, tables, buckets int, ids []int) {
	l.ClearHashTables()
	for b := 0; b < buckets; b++ {
		ix := make([]int, tables)
		for t := range ix {
			ix[t] = b
		}
		for _, id := range ids {
			l.HashTablesAdd(ix, id)
		}
	}
}

func bucketsOf(fam string, k, pow int) int { return 1 << uint(rangeBits(fam, k)) }

func (v numbers) observe(s *netSpec, n *network.Network, tag string) {
	ls := layersOf(n)
	for d := range ls {
		for j := 0; j < s.sizes[d]; j++ {
			nd := ls[d].GetNodeById(j)
			w := nd.Weights()
			for i := 0; i < s.prev(d); i++ {
				v.put(w[i], "ow/%s/%d/%d/%d", tag, d+1, j, i)
				if s.adam {
					v.put(nd.GetAdamAvgMom(i), "om/%s/%d/%d/%d", tag, d+1, j, i)
					v.put(nd.GetAdamAvgVel(i), "ov/%s/%d/%d/%d", tag, d+1, j, i)
					v.put(nd.GetT(i), "ot/%s/%d/%d/%d", tag, d+1, j, i)
				}
			}
			v.put(nd.Bias(), "ob/%s/%d/%d", tag, d+1, j)
			if s.adam {
				v.put(nd.GetAdamAvgMomBias(), "omb/%s/%d/%d", tag, d+1, j)
				v.put(nd.GetAdamAvgVelBias(), "ovb/%s/%d/%d", tag, d+1, j)
				v.put(nd.GetTBias(), "otb/%s/%d/%d", tag, d+1, j)
			}
		}
	}
}

// acts is a digest of the activations a network shows.
func (s *netSpec) acts(n *network.Network) string {
	h := sha256.New()
	for d, l := range layersOf(n) {
		for b := 0; b < s.batch; b++ {
			for j := 0; j < s.sizes[d]; j++ {
				fmt.Fprintln(h, l.GetNodeById(j).GetLastActivation(b))
			}
			if d == s.depth()-1 {
				fmt.Fprintln(h, l.GetNomalizationConstant(b))
			}
		}
	}
	return fmt.Sprintf("%x", h.Sum(nil)[:12])
}

func distinctLabels(n, most int) []int {
	k := rng.Intn(most + 1)
	if k > n {
		k = n
	}
	return append([]int{}, rng.Perm(n)[:k]...)
}

func isIn(s []int, x int) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func cmdTrain(what string) {
	var ts []*Trace
	vals := numbers{}
	fams := []string{"wta", "dwta", "minhash", "srp"}
	most := pick(140, 900)
	if what == "concurrent" {
		most = pick(90, 500)
	}
	for i := 0; i < most; i++ {
		s := &netSpec{fam: fams[rng.Intn(4)], adam: i%3 > 0, mode: 1, owner: firstOwner(),
			batch: 1 + rng.Intn(4), dim: 1 + rng.Intn(5), lr: []float64{0.01, 0.1, 0.0001, 0.5}[rng.Intn(4)]}
		depth := 1 + rng.Intn(3)
		widest, steps, big := 5, 2+rng.Intn(5), false
		switch i % 20 {
		case 7: // wide
			depth, widest, s.dim, steps = 1+rng.Intn(2), 40, 20+rng.Intn(50), 2
		case 8: // deep
			depth, widest = 4+rng.Intn(3), 4
			big = rng.Intn(2) == 0
		case 9: // many examples at once
			s.batch, steps = 8+rng.Intn(40), 3
		case 12: // and more than any in practice
			depth, widest, s.dim, s.batch, steps = 1+rng.Intn(2), 2, 1+rng.Intn(2), 130+rng.Intn(150), 1+rng.Intn(2)
		case 10: // for long
			depth, widest, s.dim, s.batch, steps = 2, 2, 2, 2, 40
		}
		if i%6 == 3 {
			s.mode = 4
		}
		free := what == "concurrent" && i%4 == 1 // what is selected is left open
		if free {
			s.mode = 2 + rng.Intn(2)
		}
		anytime := s.mode == 4 || i%2 == 0 // the tables do not matter
		chosen := make([][]int, depth)
		classes := i%20 == 11 // more classes, and labels, than usual
		if classes {
			depth, widest, s.dim, steps = 1+rng.Intn(2), 3, 1+rng.Intn(3), 2
			chosen = make([][]int, depth)
		}
		for d := 0; d < depth; d++ {
			s.sizes = append(s.sizes, 1+rng.Intn(widest))
			if classes && d == depth-1 {
				s.sizes[d] = 40 + rng.Intn(80)
			}
			s.k = append(s.k, 1)
			s.l = append(s.l, 3+rng.Intn(3))
			s.pow = append(s.pow, rangeBits(s.fam, 1))
			sp := 1.0
			if free && (s.mode == 2 || d == depth-1) {
				sp = []float64{0.5, 0.3, 0.9}[rng.Intn(3)]
			} else if i%2 == 1 && rng.Intn(3) > 0 && !free {
				sp = []float64{0.5, 0.1, 0.95, 0.99999}[rng.Intn(4)]
				chosen[d] = rng.Perm(s.sizes[d])[:rng.Intn(s.sizes[d]+1)]
				if s.mode == 4 { // fewer than 1000: all of them, whatever the tables say
					chosen[d] = everyone(s.sizes[d])
				}
			}
			s.sparsity = append(s.sparsity, sp)
		}
		for d := 0; d < depth; d++ { // prediction
			s.sparsity = append(s.sparsity, []float64{1, s.sparsity[d]}[rng.Intn(2)])
		}
		style := []int{0, 0, 1, 3, 4, 2}[rng.Intn(6)]
		if big {
			style = 2
		}
		s.draw(func(d int) int { return style })
		t := newTrace(nil)
		ts = append(ts, t)
		tn := len(ts)
		var layers []Ev
		for d := range s.sizes {
			layers = append(layers, Ev{"n": s.sizes[d], "prev": s.prev(d)})
			for j := 0; j < s.sizes[d]; j++ {
				for x := 0; x < s.prev(d); x++ {
					vals.put(s.w[d][j*s.prev(d)+x], "w/%d/0/%d/%d/%d", tn, d+1, j, x)
				}
				vals.put(s.b[d][j], "b/%d/0/%d/%d", tn, d+1, j)
			}
		}
		vals.put(s.lr, "lr/%d", tn)
		t.Cfg = Ev{"layers": layers, "batch": s.batch, "adam": s.adam, "owner": ownerNo(s.owner)}
		var nets []*network.Network
		owners := []int{s.owner}
		frozen := []bool{false}
		if !t.do("building the network", func() {
			n := s.build()
			for d, l := range layersOf(n) {
				if s.sparsity[d] < 1 {
					fillTables(l, s.l[d], bucketsOf(s.fam, s.k[d], 0), chosen[d])
				}
			}
			nets = append(nets, n)
			vals.observe(s, n, fmt.Sprintf("%d/0/1", tn))
			t.Cfg["acts"] = s.acts(n)
		}) {
			continue
		}
		drawBatch := func(q int) ([]dataset.Example, []Ev) {
			m := s.batch
			if rng.Intn(4) == 0 {
				m = rng.Intn(s.batch + 1)
			}
			var exs []dataset.Example
			exLog := []Ev{}
			for e := 0; e < m; e++ {
				labels := distinctLabels(s.sizes[depth-1], []int{3, 3, 100}[rng.Intn(3)])
				if classes && rng.Intn(2) == 0 {
					labels = rng.Perm(s.sizes[depth-1])[:s.sizes[depth-1]-rng.Intn(8)]
				}
				feats := someInput(s.dim)
				if s.sparsity[0] < 1 {
					// hashing wants something to hash
					feats = nil
					for f := range s.w[0][:s.dim] {
						feats = append(feats, index_value.Pair{Index: f, Value: realVec(1, 0)[0]})
					}
				}
				exs = append(exs, dataset.Example{Features: feats, Labels: cp(labels)})
				ix := []int{}
				for k, p := range feats {
					ix = append(ix, p.Index)
					vals.put(p.Value, "x/%d/%d/%d/%d", tn, q, e+1, k+1)
				}
				active := [][]int{}
				for d := range s.sizes {
					a := []int{}
					for j := 0; j < s.sizes[d]; j++ {
						if s.sparsity[d] == 1 || isIn(chosen[d], j) || d == depth-1 && isIn(labels, j) {
							a = append(a, j)
						}
					}
					active = append(active, a)
				}
				exLog = append(exLog, Ev{"ix": ix, "labels": labels, "active": active})
			}
			return exs, exLog
		}
		iter := []int{0, 0, 0, 1, 5, 100, 998, 6944, 6945, 9999, 65535, 100000, 1000000}[rng.Intn(13)]
		if what == "concurrent" && tn%5 == 0 {
			iter = 6945 // the owners redraw the fill order first
		}
		if what == "concurrent" {
			s.concurrently(t, tn, vals, nets[0], iter, anytime, free, drawBatch)
			continue
		}
		for q := 1; q <= steps; q++ {
			// a handle that may still be worked on
			h := rng.Intn(len(nets))
			owner := owners[h]
			if frozen[h] || what == "fork" && rng.Intn(2) == 0 {
				owner = newOwner()
			}
			op := "train"
			if what == "predict" && rng.Intn(2) == 0 || what == "fork" && rng.Intn(5) == 0 {
				op = "predict"
			}
			exs, exLog := drawBatch(q)
			last := q == steps || anytime
			var res *network.Network
			ok := t.do(op, func() {
				if op == "train" {
					_, res = nets[h].ProcessInput(owner, exs, iter, last && rng.Intn(2) == 0, last && rng.Intn(3) == 0)
				} else {
					_, res = nets[h].PredictClass(owner, exs)
				}
			})
			if !ok {
				break
			}
			ret := 0
			for x, n := range nets {
				if n == res {
					ret = x + 1
				}
			}
			if ret == 0 {
				nets, owners, frozen = append(nets, res), append(owners, owner), append(frozen, false)
				ret = len(nets)
				frozen[h] = true // its owner must leave it alone now
			}
			acts := []string{}
			if !t.do("observers", func() {
				for x, n := range nets {
					vals.observe(s, n, fmt.Sprintf("%d/%d/%d", tn, q, x+1))
					acts = append(acts, s.acts(n))
				}
			}) {
				break
			}
			if op == "train" {
				t.add(Ev{"op": op, "h": h + 1, "owner": ownerNo(owner), "iter": iter, "ex": exLog, "ret": ret, "acts": acts})
				iter += []int{1, 1, 1, 2}[rng.Intn(4)]
			} else {
				t.add(Ev{"op": op, "h": h + 1, "owner": ownerNo(owner), "ret": ret, "acts": acts})
			}
		}
	}
	writeJSON("values.json", vals)
	saveTraces(ts)
}
