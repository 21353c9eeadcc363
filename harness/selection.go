package main

import (
	"math"
	"sort"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/node"
)

func init() {
	commands["guided"] = cmdGuided
	commands["placed"] = cmdPlaced
}

func randInts(n, lim int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = rng.Intn(2*lim+1) - lim
	}
	return v
}

func setMode(fam string, mode int) {
	configuration.Global = configuration.Default()
	configuration.Global.HashFunction = families[fam]
	configuration.Global.LayerMode = configuration.LayerModeType(mode)
	configuration.Global.LoadWeight = true
	configuration.Global.UseAdam = false
}

func kindOf(softmax bool) node.NodeType {
	if softmax {
		return node.Softmax
	}
	return node.ReLU
}

// query runs one selection and returns the active list and reported size.
func query(t *Trace, l *layer.Layer, x vec, slot int, labels []int, sparsity float64) ([]int, int, bool) {
	var act []int
	in := 0
	ok := t.do("QueryActiveNodeAndComputeActivations", func() {
		per := make([][]index_value.Pair, 2)
		per[0] = x.pairs(1)
		in, _ = l.QueryActiveNodeAndComputeActivations(0, per, 0, slot, cp(labels), sparsity)
		act = []int{}
		for _, p := range per[1] {
			act = append(act, p.Index)
		}
	})
	return act, in, ok
}

func rangeBits(fam string, k int) int {
	switch fam {
	case "wta", "dwta":
		return 3 * k
	case "srp":
		return k
	}
	return 4
}

func someLabels(n int) []int {
	switch rng.Intn(6) {
	case 0:
		return []int{}
	case 1:
		x := rng.Intn(n)
		return []int{x, rng.Intn(n), x}
	case 2:
		x := rng.Intn(n)
		return []int{x, x, x, x}
	default:
		ls := []int{}
		for i := 0; i < 1+rng.Intn(5); i++ {
			ls = append(ls, rng.Intn(n))
		}
		return ls
	}
}

// chances queries until every neuron must have come up: a query leaves any
// given one out with probability at most out. With least > 0 it queries that
// often, and counts how many neighbours, other than labels, come up together.
func chances(t *Trace, la *layer.Layer, n int, out float64, least int, labels []int, q func() ([]int, bool)) bool {
	if out >= 1 {
		return true
	}
	seen := make([]bool, n)
	free := n
	isLabel := make([]bool, n)
	for _, j := range labels {
		if !isLabel[j] {
			isLabel[j] = true
			free--
		}
	}
	pairs, both := make([]int, 3), make([]int, 3)
	drawn, times := 0, 0
	for miss := float64(n); miss > 1e-15 || times < least; miss *= out {
		act, ok := q()
		if !ok {
			return false
		}
		times++
		on := make([]bool, n)
		drawn = 0
		for _, j := range act {
			if j >= 0 && j < n && !isLabel[j] {
				on[j] = true
				drawn++
			}
		}
		for d := range both {
			pairs[d] = 0
			for j := 0; j+d+1 < n; j++ {
				if !isLabel[j] && !isLabel[j+d+1] {
					pairs[d]++
					if on[j] && on[j+d+1] {
						both[d]++
					}
				}
			}
		}
		for _, j := range act {
			if j >= 0 && j < n {
				seen[j] = true
			}
		}
	}
	came := []int{}
	for j, s := range seen {
		if s {
			came = append(came, j)
		}
	}
	e := Ev{"op": "chance", "seen": came, "times": times, "drawn": drawn, "free": free, "together": [][]int{}}
	if least > 0 {
		together := [][]int{}
		for d := range both {
			together = append(together, []int{pairs[d], both[d]})
		}
		e["together"] = together
	}
	t.add(e)
	return true
}

// often asks the same thing over and over, and keeps it short.
func often(t *Trace, la *layer.Layer, n, times int, x vec, labels []int, buckets [][]int, mode string) bool {
	sizes := map[int]bool{}
	always, ever := make([]int, n), make([]bool, n)
	for r := 0; r < times; r++ {
		act, _, ok := query(t, la, x, r%3, labels, 0.5)
		if !ok {
			return false
		}
		sizes[len(act)] = true
		for _, j := range act {
			if j < 0 || j >= n {
				sizes[-1] = true
				continue
			}
			if always[j] == r { // counted once
				always[j]++
			}
			ever[j] = true
		}
	}
	e := Ev{"op": "often", "mode": mode, "labels": labels, "buckets": buckets, "times": times}
	ss, aa, ee := []int{}, []int{}, []int{}
	for s := range sizes {
		ss = append(ss, s)
	}
	sort.Ints(ss)
	for j := range always {
		if always[j] == times {
			aa = append(aa, j)
		}
		if ever[j] {
			ee = append(ee, j)
		}
	}
	e["sizes"], e["always"], e["ever"] = ss, aa, ee
	t.add(e)
	return true
}

func cmdGuided() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	sizes := []int{1, 2, 3, 5, 20, 60, 300, 998, 999, 1000, 1001, 1002, 1200, 1499, 1500, 1501, 1600, 2400}
	for i := 0; i < pick(72, 360); i++ {
		fam := fams[i%4]
		mode := []int{1, 4}[(i/4)%2]
		n := sizes[rng.Intn(len(sizes))]
		if mode == 1 && rng.Intn(3) > 0 {
			n = sizes[rng.Intn(8)]
		}
		k := 1 + rng.Intn(2)
		l := 1 + rng.Intn(7)
		if rng.Intn(3) == 0 && n >= 900 {
			l = 8 + rng.Intn(12)
		}
		if fam == "wta" || fam == "dwta" {
			if l > 7 {
				k = 1
			}
		}
		many := i%9 == 8 // so many tables that a byte cannot count them
		if many {
			n, k = sizes[rng.Intn(6)], 1
			l = []int{127, 128, 129, 130, 255, 256, 257, 258, 259, 300, 515}[rng.Intn(11)]
		}
		// so many neurons reach the threshold that a thousand are retrieved
		wide := i%24 == 0 || i%24 == 3 || i%24 == 9 || i%24 == 18
		if wide {
			mode, n, k, l = 1, 1190+rng.Intn(30), 1, 32
		}
		dim := []int{3, 5, 8, 12, 33, 300}[rng.Intn(6)]
		softmax := rng.Intn(4) > 0
		setMode(fam, mode)
		t := newTrace(Ev{"n": n, "softmax": softmax, "weights": []int{}, "bias": []int{}})
		ts = append(ts, t)
		var la *layer.Layer
		if !t.do("layer.New", func() {
			la = layer.New(0, n, dim, 1, kindOf(softmax), 3, k, l, rangeBits(fam, k), 0.5,
				floats(randInts(n*dim, 3), 1), floats(randInts(n, 3), 1), nil, nil)
		}) {
			continue
		}
		ok := true
		if mode == 4 && n > 1000 && i%8 < 6 {
			x := randVec(dim, dim, 0)
			slot := rng.Intn(3)
			ok = t.do("ClearHashTables", func() { la.ClearHashTables() }) &&
				chances(t, la, n, 1-1000/float64(n), 0, nil, func() ([]int, bool) {
					act, _, ok := query(t, la, x, slot, []int{}, 0.5)
					return act, ok
				})
		}
		for round := 0; round < 3 && ok; round++ {
			x := randVec(dim, dim, rng.Intn(4)).shuffled()
			var at []int
			ok = t.do("HashesToIndex", func() {
				la.ClearHashTables()
				at = cp(la.HashesToIndex(la.GetHashForInputProcessing(floats(x.dense(dim), 1))))
			})
			if !ok || len(at) != l {
				t.add(Ev{"op": "indices", "ret": at})
				ok = false
				break
			}
			buckets := make([][]int, l)
			for b := range buckets {
				buckets[b] = []int{}
			}
			put := func(id int, hit func(tb int) bool) bool {
				ix := make([]int, l)
				for tb := range ix {
					if len(buckets[tb]) < 127 && hit(tb) {
						ix[tb] = at[tb]
						buckets[tb] = append(buckets[tb], id)
					} else {
						ix[tb] = at[tb] ^ 1
					}
				}
				return t.do("HashTablesAdd", func() { la.HashTablesAdd(ix, id) })
			}
			ids := rng.Perm(n)
			style := rng.Intn(5)
			count := rng.Intn(n + 1)
			if many && round < 2 {
				style, count = []int{4, 2}[round], n
			}
			if wide && round == 0 {
				style, count = 5, n-rng.Intn(60)
			} else if mode == 1 && count > 400 {
				count = 400
			}
			for a := 0; a < count && ok; a++ {
				id := ids[a]
				switch style {
				case 0: // spread: one table each
					ok = put(id, func(tb int) bool { return tb == a%l })
				case 1: // few hits
					ok = put(id, func(tb int) bool { return rng.Intn(l) < 2 })
				case 2: // around the threshold: exactly h tables
					h, first := rng.Intn(5), rng.Intn(l)
					if many {
						h = min(l, []int{126, 128, 130, 254, 256, 257, 258, 260, 512}[rng.Intn(9)]+rng.Intn(3))
					}
					ok = put(id, func(tb int) bool { return (tb-first+l)%l < h })
				case 3:
					ok = put(id, func(tb int) bool { return rng.Intn(2) == 0 })
				case 5: // three tables each, some one less
					h := 3
					if rng.Intn(20) == 0 {
						h = 2
					}
					ok = put(id, func(tb int) bool { return (tb-3*a%l+l)%l < h })
				default: // neighbouring ids crowd every table
					ok = put(a, func(tb int) bool { return true })
				}
			}
			for q := 0; q < 4 && ok; q++ {
				labels := someLabels(n)
				if q == 1 && count > 0 { // a label that is retrieved too
					labels = append(labels, ids[rng.Intn(count)])
				}
				if q == 2 && rng.Intn(2) == 0 {
					ok = t.do("UpdateRandomNodes", func() { la.UpdateRandomNodes() })
				}
				var act []int
				in := 0
				if act, in, ok = query(t, la, x.shuffled(), rng.Intn(3), labels, []float64{0.5, 0.01, 0.999, 0.999999999, 1e-12}[rng.Intn(5)]); ok {
					bk := make([][]int, l)
					for b := range bk {
						bk[b] = cp(buckets[b])
					}
					op := "sampling"
					if mode == 1 {
						op = "threshold"
					}
					t.add(Ev{"op": op, "labels": labels, "buckets": bk, "active": act, "in": in})
					// rare starting points of the fill-in come up, too
					if q == 3 && (mode == 1 && round == 0 || mode == 4 && n >= 900 && n < 1300) {
						times := 20
						if mode == 4 {
							times = pick(1500, 6000)
						}
						ok = often(t, la, n, times, x, labels, bk, op)
					}
				}
			}
		}
	}
	saveTraces(ts)
}

func cmdPlaced() {
	var ts []*Trace
	for i := 0; i < pick(120, 2500); i++ {
		mode := []int{2, 3}[i%2]
		n := []int{1, 2, 3, 5, 8, 13, 40, 100, 257}[rng.Intn(9)]
		dim := 3 + rng.Intn(10)
		if i%13 == 2 && n <= 100 {
			dim = 100 + rng.Intn(400)
		}
		dense := i%5 == 4
		if dense {
			mode = 1 + rng.Intn(4)
		}
		if i%11 == 5 {
			n = 900 + rng.Intn([]int{0, 700, 2500, 700, 700}[mode])
			dim = 3
		}
		fam := []string{"wta", "dwta", "minhash", "srp"}[rng.Intn(4)]
		softmax := !dense || rng.Intn(2) == 0
		setMode(fam, mode)
		lim := []int{3, 40, 1000}[rng.Intn(3)]
		w, b := randInts(n*dim, lim), randInts(n, lim*5)
		if rng.Intn(3) == 0 { // every score far below zero
			for j := range b {
				b[j] -= 1000000
			}
		}
		rows := [][]int{}
		for j := 0; j < n; j++ {
			rows = append(rows, w[j*dim:(j+1)*dim])
		}
		cfg := Ev{"n": n, "softmax": softmax, "weights": [][]int{}, "bias": []int{}}
		if mode == 3 {
			cfg["weights"], cfg["bias"] = rows, b
		}
		t := newTrace(cfg)
		ts = append(ts, t)
		var la *layer.Layer
		k, l := 1, 1+rng.Intn(3)
		ok := t.do("layer.New", func() {
			la = layer.New(0, n, dim, 1, kindOf(softmax), 3, k, l, rangeBits(fam, k), 0.5,
				floats(w, 1), floats(b, 1), nil, nil)
		})
		if mode == 2 && !dense && n > 1 && n < 300 {
			x := randVec(dim, dim, 0)
			labels := someLabels(n)
			sp := 0.25 + 0.5*rng.Float64()
			out := 1 - (math.Floor(float64(n)*sp)-float64(len(labels)))/float64(n)
			ok = chances(t, la, n, out, 200, labels, func() ([]int, bool) {
				act, _, ok := query(t, la, x, 1, labels, sp)
				return act, ok
			})
		}
		for q := 0; q < 8 && ok; q++ {
			x := randVec(dim, 1+rng.Intn(dim), rng.Intn(3))
			if dense {
				var act []int
				if act, _, ok = query(t, la, x, rng.Intn(3), someLabels(n), 1); ok {
					t.add(Ev{"op": "dense", "active": act})
				}
				continue
			}
			den := 64
			num := rng.Intn(64)
			if rng.Intn(4) == 0 && n > 30 {
				den, num = 1024, 1+rng.Intn(80)
			}
			if num == 0 {
				num = 1
			}
			if rng.Intn(4) == 0 { // next to dense
				den = []int{64, 1024, 65536}[rng.Intn(3)]
				num = den - 1
			}
			labels := someLabels(n)
			if q%3 == 2 { // more labels than places
				labels = append(labels, rng.Perm(n)[:min(n, n*num/den+2)]...)
			}
			var act []int
			if act, _, ok = query(t, la, x, rng.Intn(3), labels, float64(num)/float64(den)); ok {
				e := Ev{"op": "random", "labels": labels, "num": num, "den": den, "active": act}
				if mode == 3 {
					e["op"], e["x"] = "exact", x.log()
				}
				t.add(e)
			}
		}
	}
	saveTraces(ts)
}
