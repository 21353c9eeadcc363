package main

import (
	"fmt"
	"math"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
)

func init() {
	commands["forward"] = func() { forward(false) }
	commands["forwardfork"] = func() { forward(true) }
}

// numbers are the recorded real values, by the names of spec/Terms.tla.
type numbers map[string]interface{}

func (v numbers) put(x float64, format string, a ...interface{}) {
	name := fmt.Sprintf(format, a...)
	switch {
	case math.IsNaN(x):
		v[name] = "NaN"
	case math.IsInf(x, 1):
		v[name] = "+Inf"
	case math.IsInf(x, -1):
		v[name] = "-Inf"
	default:
		v[name] = x
	}
}

// realVec fills n values of the given style.
func realVec(n, style int) []float64 {
	f := make([]float64, n)
	for i := range f {
		switch style {
		case 0:
			f[i] = rng.NormFloat64()
		case 1:
			f[i] = rng.NormFloat64() * 0.01
		case 2:
			f[i] = rng.NormFloat64() * 30
		case 3:
			f[i] = math.Abs(rng.NormFloat64())
		case 4: // integers, with ties and zeros
			f[i] = float64(rng.Intn(5) - 2)
		case 5:
			f[i] = -math.Abs(rng.NormFloat64()) * 5
		case 6: // far below zero
			f[i] = -800 - 20*rng.Float64()
		case 7: // tiny
			f[i] = rng.NormFloat64() * 1e-9
		case 8: // of any magnitude
			f[i] = rng.NormFloat64() * math.Pow(10, float64(rng.Intn(16)-13))
		case 9: // large
			f[i] = rng.NormFloat64() * math.Pow(10, float64(rng.Intn(7)))
		}
	}
	return f
}

func someInput(dim int) []index_value.Pair {
	m := rng.Intn(dim + 1)
	if rng.Intn(3) == 0 {
		m = dim
	}
	ps := make([]index_value.Pair, m)
	for k, i := range rng.Perm(dim)[:m] {
		ps[k] = index_value.Pair{Index: i, Value: realVec(1, rng.Intn(5))[0]}
	}
	if m > 0 && rng.Intn(5) == 0 { // an input listed more than once
		for n := 1 + rng.Intn(3); n > 0; n-- {
			at := rng.Intn(len(ps) + 1)
			p := index_value.Pair{Index: ps[rng.Intn(len(ps))].Index, Value: realVec(1, rng.Intn(5))[0]}
			if at > 0 && rng.Intn(2) == 0 {
				p.Index = ps[at-1].Index
			}
			ps = append(ps[:at], append([]index_value.Pair{p}, ps[at:]...)...)
		}
	}
	return ps
}

// oneStyle: a style of realVec up to max, or one of the small ones.
func oneStyle(max int) int {
	if s := rng.Intn(max + 3); s <= max {
		return s
	} else {
		return s - max + 6
	}
}

func forward(fork bool) {
	var ts []*Trace
	vals := numbers{}
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(60, 300); i++ {
		fam := fams[rng.Intn(4)]
		mode := 1 + i%4
		setMode(fam, mode)
		configuration.Global.UseAdam = rng.Intn(2) == 0
		slots := 1 + rng.Intn(4)
		depth := 1 + rng.Intn(3)
		dim := 2 + rng.Intn(7)
		widest := 8
		switch i % 20 {
		case 5: // wide
			dim, widest, depth = 40+rng.Intn(300), 40, 1+rng.Intn(2)
		case 15: // very wide
			dim, widest, depth = 257+rng.Intn(1500), 5, 1+rng.Intn(2)
		case 16: // very wide inside
			dim, widest, depth = 2+rng.Intn(2), 300, 2
		case 6: // deep
			depth, widest = 4+rng.Intn(4), 5
		case 7: // many slots
			slots = 9 + rng.Intn(150)
			depth, widest = 1+rng.Intn(2), 4
		}
		inDim := dim
		var ls []Ev
		var las []*layer.Layer // one per handle
		var owners, layerOf []int
		var sizes []int
		var soft []bool
		t := newTrace(nil)
		ts = append(ts, t)
		tn := len(ts)
		ok := true
		owner := firstOwner()
		for d := 0; d < depth && ok; d++ {
			n := 1 + rng.Intn(widest)
			if widest == 300 {
				n = []int{257 + rng.Intn(60), 1 + rng.Intn(4)}[d]
			}
			if mode == 4 && d == depth-1 && i%20 == 3 && !fork {
				n = 1010
			}
			softmax := d == depth-1
			if depth == 1 && rng.Intn(3) == 0 {
				softmax = false
			}
			w, b := realVec(n*dim, oneStyle(5)), realVec(n, oneStyle(6))
			if rng.Intn(5) == 0 {
				w, b = realVec(n*dim, 7), realVec(n, 7)
			}
			for j := 0; j < n; j++ {
				for x := 0; x < dim; x++ {
					vals.put(w[j*dim+x], "w/%d/%d/%d/%d", tn, d+1, j, x)
				}
				vals.put(b[j], "b/%d/%d/%d", tn, d+1, j)
			}
			k, l := 1+rng.Intn(2), 1+rng.Intn(6)
			ok = t.do("layer.New", func() {
				owners, layerOf = append(owners, owner), append(layerOf, d)
				las = append(las, layer.New(owner, n, dim, d, kindOf(softmax), slots, k, l, rangeBits(fam, k), 0.5,
					w, b, make([]float64, n*dim), make([]float64, n*dim)))
			})
			ls = append(ls, Ev{"n": n, "softmax": softmax})
			sizes, soft = append(sizes, n), append(soft, softmax)
			dim = n
		}
		t.Cfg = Ev{"layers": ls, "slots": slots, "owner": ownerNo(owner)}
		normed, frozen := map[int]bool{}, map[int]bool{}
		observe := func(q int) bool {
			return t.do("observers", func() {
				for h, la := range las {
					d := layerOf[h]
					for s := 0; s < slots; s++ {
						for j := 0; j < sizes[d]; j++ {
							vals.put(la.GetNodeById(j).GetLastActivation(s), "oact/%d/%d/%d/%d/%d", tn, q, h+1, s, j)
						}
						if soft[d] && normed[h*1000+s] {
							vals.put(la.GetNomalizationConstant(s), "onorm/%d/%d/%d/%d", tn, q, h+1, s)
						}
					}
				}
			})
		}
		outs := map[int][]index_value.Pair{}
		for round := 0; round < 5 && ok; round++ {
			s := rng.Intn(slots)
			src := 0
			in := someInput(inDim)
			var lists [][]int
			var used []int // handles
			for d := 0; d < depth && ok; d++ {
				sparsity := 1.0
				if soft[d] || mode == 1 || mode == 4 {
					sparsity = []float64{1, 0.3, 0.7, 0.97}[rng.Intn(4)]
				}
				labels := []int{}
				if soft[d] {
					labels = someLabels(sizes[d])
				}
				q := len(t.Ev) + 1
				h, owner := d, owners[d]
				if fork { // any handle of the layer, perhaps for a new owner
					for h = rng.Intn(len(las)); layerOf[h] != d; {
						h = rng.Intn(len(las))
					}
					owner = owners[h]
					if frozen[h] || rng.Intn(3) == 0 {
						owner = newOwner()
					}
				}
				e := Ev{"op": "forward", "h": h + 1, "owner": ownerNo(owner), "slot": s, "src": src, "input": []int{}}
				if src == 0 {
					ix := []int{}
					for k, p := range in {
						ix = append(ix, p.Index)
						vals.put(p.Value, "x/%d/%d/%d", tn, q, k+1)
					}
					e["input"] = ix
				}
				var out []index_value.Pair
				if ok = t.do("QueryActiveNodeAndComputeActivations", func() {
					per := make([][]index_value.Pair, 2)
					per[0] = append([]index_value.Pair{}, in...)
					_, la := las[h].QueryActiveNodeAndComputeActivations(owner, per, 0, s, labels, sparsity)
					out = per[1]
					from := h
					for h = 0; h < len(las) && las[h] != la; h++ {
					}
					if h == len(las) {
						frozen[from] = true // its owner must leave it alone now
						las, owners, layerOf = append(las, la), append(owners, owner), append(layerOf, d)
						for x := 0; x < slots; x++ {
							normed[h*1000+x] = normed[from*1000+x]
						}
					}
					e["ret"] = h + 1
				}); !ok {
					break
				}
				active := []int{}
				for k, p := range out {
					active = append(active, p.Index)
					vals.put(p.Value, "ov/%d/%d/%d", tn, q, k+1)
				}
				e["active"] = active
				t.add(e)
				normed[h*1000+s] = true
				ok = observe(q)
				outs[q] = out
				lists, used = append(lists, active), append(used, h)
				in, src = out, q
			}
			// put some of the active neurons to rest again
			for d := len(lists) - 1; d >= 0 && ok && rng.Intn(3) > 0; d-- {
				nodes := []int{}
				for _, j := range lists[d] {
					if rng.Intn(5) > 0 {
						nodes = append(nodes, j)
					}
				}
				q := len(t.Ev) + 1
				ok = t.do("BackPropagateFirstLayer", func() {
					for _, j := range nodes {
						la := las[used[d]]
						la.GetAllNodes()[j] = la.GetNodeById(j).BackPropagateFirstLayer(owners[used[d]], nil, 0.5, s)
					}
				})
				if !ok {
					break
				}
				t.add(Ev{"op": "rest", "h": used[d] + 1, "slot": s, "nodes": nodes})
				ok = observe(q)
			}
		}
	}
	writeJSON("values.json", vals)
	saveTraces(ts)
}
