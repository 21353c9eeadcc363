package main

import (
	"math"
	"reflect"
	"strconv"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/densified_minhash"
	"github.com/nlpodyssey/goslide/densified_wta_hash"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/lsh"
	"github.com/nlpodyssey/goslide/sparse_random_projection"
	"github.com/nlpodyssey/goslide/wta_hash"
)

func init() {
	commands["address"] = cmdAddress
	commands["memo"] = cmdMemo
	commands["wta"] = cmdWta
	commands["minhash"] = cmdMinhash
	commands["project"] = cmdProject
}

// ------------------------------------------------------------- addressing

var families = map[string]configuration.HashFunctionType{
	"wta":     configuration.WtaHashFunction,
	"dwta":    configuration.DensifiedWtaHashFunction,
	"minhash": configuration.DensifiedMinhashFunction,
	"srp":     configuration.SparseRandomProjectionHashFunction,
}

// digits writes an index in base 2^16, least significant digit first; a
// negative index becomes a digit out of range.
func digits(x int) []int {
	if x < 0 {
		return []int{99999, 0, 0, 0}
	}
	return []int{x & 0xffff, (x >> 16) & 0xffff, (x >> 32) & 0xffff, (x >> 48) & 0xffff}
}

func cmdAddress() {
	var ts []*Trace
	var kept *keeper
	places := map[int][]int{}
	record := func(t *Trace, h *lsh.LSH, codes []int) bool {
		var ret []int
		arg := cp(codes)
		if rng.Intn(2) == 0 {
			arg = places[len(codes)] // where earlier codes were
			if arg == nil {
				arg = make([]int, len(codes))
				places[len(codes)] = arg
			}
			copy(arg, codes)
		}
		if rng.Intn(20) == 0 && !t.do("Clear", func() { h.Clear() }) {
			return false
		}
		if !t.do("HashesToIndex", func() { ret = h.HashesToIndex(arg) }) {
			return false
		}
		cs := make([]string, len(codes))
		for i, c := range codes {
			cs[i] = strconv.Itoa(c)
		}
		ds := [][]int{}
		for _, x := range ret {
			ds = append(ds, digits(x))
		}
		t.add(Ev{"op": "index", "codes": cs, "ret": ds,
			"kept": reflect.DeepEqual(arg, codes) && kept.check(ret)})
		return true
	}
	start := func(fam string, k, l, pow int) (*Trace, *lsh.LSH) {
		configuration.Global = configuration.Default()
		configuration.Global.HashFunction = families[fam]
		bits := pow
		switch fam {
		case "wta", "dwta":
			bits = 3 * k
		case "srp":
			bits = k
		}
		kept = &keeper{}
		t := newTrace(Ev{"family": fam, "k": k, "l": l, "bits": bits})
		ts = append(ts, t)
		var h *lsh.LSH
		t.do("New", func() { h = lsh.New(k, l, pow) })
		return t, h
	}
	// the bucket range of these hashers does not matter (no bucket is
	// touched), so that long codes need no memory
	type run struct {
		fam     string
		k, l, n int
		exhaust bool
	}
	var runs []run
	for _, fam := range []string{"wta", "dwta"} {
		runs = append(runs, run{fam, 1, 3, 0, true}, run{fam, 2, 2, 0, true}, run{fam, 3, 1, 0, true})
		for _, k := range []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 16, 20} {
			runs = append(runs, run{fam, k, 1 + rng.Intn(5), pick(120, 500), false})
			runs = append(runs, run{fam, k, 5 + rng.Intn(60), 20, false})
		}
		if thorough {
			runs = append(runs, run{fam, 3, 4, 0, true}, run{fam, 4, 1, 0, true})
		}
	}
	for k := 1; k <= pick(8, 10); k++ {
		runs = append(runs, run{"srp", k, 1 + rng.Intn(3), 0, true})
	}
	for _, k := range []int{9, 12, 16, 20, 31, 32, 33, 48, 62} {
		runs = append(runs, run{"srp", k, 5 + rng.Intn(60), 20, false})
		runs = append(runs, run{"srp", k, 1 + rng.Intn(6), pick(120, 500), false})
	}
	for i := 0; i < pick(14, 40); i++ {
		runs = append(runs, run{"minhash", 1 + rng.Intn(8), 1 + rng.Intn(8), pick(60, 200), false})
	}
	// every code counts: tuples which differ in one or two codes, by one
	for i := 0; i < pick(8, 40); i++ {
		k, l := 2+rng.Intn(7), 20+rng.Intn(8)
		t, h := start("minhash", k, l, 10+rng.Intn(3))
		if h == nil {
			continue
		}
		codes := make([]int, k*l)
		v := rng.Intn(40)
		for x := range codes {
			codes[x] = v
		}
		ok := record(t, h, codes)
		for j := 0; j < k && ok; j++ {
			one := cp(codes)
			for tb := 0; tb < l; tb++ {
				one[tb*k+j]++
			}
			ok = record(t, h, one)
		}
		if ok {
			t.add(Ev{"op": "spread"})
		}
	}
	for _, r := range runs {
		pow := 3
		if r.fam == "minhash" {
			pow = rng.Intn(14)
			if r.l > 4 && rng.Intn(2) == 0 {
				pow = 14 + rng.Intn(3)
			}
		}
		t, h := start(r.fam, r.k, r.l, pow)
		if h == nil {
			continue
		}
		base := 8
		if r.fam == "srp" {
			base = 2
		}
		total := r.k * r.l
		codes := make([]int, total)
		if r.exhaust {
			n := 1
			for i := 0; i < r.k; i++ {
				n *= base
			}
			order := rng.Perm(n)
			for a := 0; a < n; a++ {
				for tb := 0; tb < r.l; tb++ {
					// every table goes through all tuples, each in its own order
					x := order[(a+tb*7)%n]
					for j := 0; j < r.k; j++ {
						codes[tb*r.k+j] = x % base
						x /= base
					}
				}
				if !record(t, h, codes) {
					break
				}
			}
			continue
		}
		var old [][]int
		for a := 0; a < r.n; a++ {
			switch c := rng.Intn(10); {
			case len(old) > 0 && c < 2: // repeat
				copy(codes, old[rng.Intn(len(old))])
			case len(old) > 0 && c < 6: // change some codes of an old one
				copy(codes, old[rng.Intn(len(old))])
				for x := 0; x < 1+rng.Intn(2); x++ {
					codes[rng.Intn(total)] = someCode(r.fam, base)
				}
			case len(old) > 0 && c < 7: // exchange two codes
				copy(codes, old[rng.Intn(len(old))])
				x, y := rng.Intn(total), rng.Intn(total)
				codes[x], codes[y] = codes[y], codes[x]
			case c == 7: // one value everywhere but at one place
				v, w := someCode(r.fam, base), someCode(r.fam, base)
				for x := range codes {
					codes[x] = v
				}
				codes[rng.Intn(total)] = w
			default:
				for x := range codes {
					codes[x] = someCode(r.fam, base)
				}
			}
			old = append(old, cp(codes))
			if !record(t, h, codes) {
				break
			}
		}
	}
	saveTraces(ts)
}

func someCode(fam string, base int) int {
	if fam != "minhash" {
		if rng.Intn(3) == 0 {
			return []int{0, base - 1}[rng.Intn(2)]
		}
		return rng.Intn(base)
	}
	switch rng.Intn(6) {
	case 0:
		return math.MinInt64
	case 1:
		return rng.Int()
	case 2:
		return -rng.Intn(1000)
	default:
		return rng.Intn(200000)
	}
}

// ---------------------------------------------------------------- vectors

// A vec gives every listed coordinate an integer value; the real code gets
// the value times a power of two, which is exact.
type entry struct{ i, v int }

type vec []entry

var scales = []float64{1, 0.25, 1.0 / 1024, 64, 1.0 / (1 << 40)}

func (x vec) pairs(scale float64) []index_value.Pair {
	p := make([]index_value.Pair, len(x))
	for k, e := range x {
		p[k] = index_value.Pair{Index: e.i, Value: float64(e.v) * scale}
	}
	return p
}

func (x vec) dense(n int) []int {
	d := make([]int, n)
	for _, e := range x {
		d[e.i] = e.v
	}
	return d
}

func floats(d []int, scale float64) []float64 {
	f := make([]float64, len(d))
	for i, v := range d {
		f[i] = float64(v) * scale
	}
	return f
}

// recycled and recycledPairs put a vector where an earlier one was, as often
// as not: what a hasher knows about a slice must not outlive the call.
var oldFloats = map[int][]float64{}
var oldPairs = map[int][]index_value.Pair{}

func recycled(v []float64) []float64 {
	old, ok := oldFloats[len(v)]
	if !ok {
		oldFloats[len(v)] = v
		return v
	}
	if rng.Intn(2) == 0 {
		return v
	}
	copy(old, v)
	return old
}

func recycledPairs(v []index_value.Pair) []index_value.Pair {
	old, ok := oldPairs[len(v)]
	if !ok {
		oldPairs[len(v)] = v
		return v
	}
	if rng.Intn(2) == 0 {
		return v
	}
	copy(old, v)
	return old
}

func (x vec) log() [][]int {
	r := make([][]int, len(x))
	for k, e := range x {
		r[k] = []int{e.i, e.v}
	}
	return r
}

func (x vec) shuffled() vec {
	y := append(vec{}, x...)
	rng.Shuffle(len(y), func(i, j int) { y[i], y[j] = y[j], y[i] })
	return y
}

func (x vec) sorted(desc bool) vec {
	y := append(vec{}, x...)
	for i := range y {
		for j := i; j > 0 && (y[j].i < y[j-1].i) != desc; j-- {
			y[j], y[j-1] = y[j-1], y[j]
		}
	}
	return y
}

// randVec draws m coordinates of n with distinct values. style: 0 mixed
// signs, 1 all positive, 2 all negative, 3 wide.
func randVec(n, m, style int) vec {
	at := rng.Perm(n)[:m]
	x := make(vec, m)
	used := map[int]bool{}
	for k, i := range at {
		for {
			v := 0
			switch style {
			case 0:
				v = rng.Intn(6*n+20) - 3*n - 10
			case 1:
				v = 1 + rng.Intn(4*n+20)
			case 2:
				v = -1 - rng.Intn(4*n+20)
			default:
				v = rng.Intn(200000) - 100000
			}
			if v != 0 && !used[v] {
				used[v] = true
				x[k] = entry{i, v}
				break
			}
		}
	}
	return x
}

var dims = []int{3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 24, 31, 33, 40, 50, 64, 65}

func someDim() int { return dims[rng.Intn(len(dims))] }

func codesLog(c []int) []int {
	r := make([]int, len(c))
	for i, x := range c {
		switch {
		case x == math.MinInt64:
			r[i] = -1
		case x > 1<<30 || x < -1<<30:
			r[i] = -99
		default:
			r[i] = x
		}
	}
	return r
}

// keeper watches over the answers of earlier calls.
type keeper struct{ was, is [][]int }

// check tells whether they still are what they were, and keeps a new one.
func (k *keeper) check(ret []int) bool {
	ok := reflect.DeepEqual(k.was, k.is)
	k.was, k.is = append(k.was, cp(ret)), append(k.is, ret[:len(ret):len(ret)])
	if len(k.was) > 5 {
		k.was, k.is = k.was[1:], k.is[1:]
	}
	return ok
}

// ------------------------------------------------------------------- memo

func cmdMemo() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(48, 1000); i++ {
		fam := fams[i%4]
		dim, nh := someDim(), 1+rng.Intn(24)
		if i%7 == 0 {
			dim = 65 + rng.Intn(70)
		}
		if i%9 == 4 {
			dim, nh = 130+rng.Intn(900), 24+rng.Intn(200)
		}
		calls := 16
		if i%48 >= 12 && i%48 < 16 { // large
			dim, nh, calls = 1025+rng.Intn(1500), 1+rng.Intn(200), 2
		}
		ks := []int{1, 3, 30, 200}
		if i%48 == 26 { // larger still
			dim, nh, calls, ks = 4200+rng.Intn(2500), 1+rng.Intn(100), 1, []int{30}
		}
		t := newTrace(Ev{"family": fam, "dim": dim, "nh": nh})
		ts = append(ts, t)
		scale := scales[rng.Intn(len(scales))]
		type spelling struct {
			kind   string
			sparse func([]index_value.Pair) []int
			dense  func([]float64) []int // nil: no dense form
		}
		var sp []spelling
		if !t.do("New", func() {
			switch fam {
			case "wta":
				h := wta_hash.New(nh, dim)
				sp = append(sp, spelling{"h", h.GetHash, h.GetHashDense})
			case "dwta":
				h := densified_wta_hash.New(nh, dim)
				sp = append(sp, spelling{"h", h.GetHash,
					func(d []float64) []int { return h.GetHashEasy(d, 30) }})
			case "minhash":
				h := densified_minhash.New(nh, dim)
				m := h.GetMap(dim)
				for _, k := range ks {
					k := k
					sp = append(sp, spelling{strconv.Itoa(k),
						func(p []index_value.Pair) []int { return h.GetHashEasy(m, p, k) },
						func(d []float64) []int { return h.GetHashEasyDense(m, d, k) }})
				}
				sp = append(sp, spelling{"plain", func(p []index_value.Pair) []int {
					ix, dt := make([]int, len(p)), make([]float64, len(p))
					for k, e := range p {
						ix[k], dt[k] = e.Index, e.Value
					}
					return h.GetHash(ix, dt, m)
				}, nil})
			case "srp":
				ratio := []int{1, 2, 3, 8, 32}[rng.Intn(5)]
				h := sparse_random_projection.New(dim, nh, ratio)
				sp = append(sp, spelling{"h", h.GetHashSparse, h.GetHash})
			}
		}) {
			continue
		}
		kept := &keeper{}
		sparseOf := func(s spelling, x vec, p []index_value.Pair) bool {
			var ret []int
			if !t.do("GetHash sparse", func() { ret = s.sparse(p) }) {
				return false
			}
			t.add(Ev{"op": "sparse", "kind": s.kind, "x": x.log(), "ret": codesLog(ret),
				"kept": reflect.DeepEqual(p, x.pairs(scale)) && kept.check(ret)})
			return true
		}
		sparse := func(s spelling, x vec) bool { return sparseOf(s, x, recycledPairs(x.pairs(scale))) }
		denseOf := func(s spelling, d []int, v []float64) bool {
			if s.dense == nil {
				return true
			}
			var ret []int
			if !t.do("GetHash dense", func() { ret = s.dense(v) }) {
				return false
			}
			t.add(Ev{"op": "dense", "kind": s.kind, "x": d, "ret": codesLog(ret),
				"kept": reflect.DeepEqual(v, floats(d, scale)) && kept.check(ret)})
			return true
		}
		dense := func(s spelling, d []int) bool { return denseOf(s, d, recycled(floats(d, scale))) }
		// a vector, and then another one in the same place
		sparseTwice := func(s spelling, x, y vec) bool {
			p := x.pairs(scale)
			return sparse(s, y) && sparseOf(s, x, p) && copy(p, y.pairs(scale)) == len(p) && sparseOf(s, y, p)
		}
		denseTwice := func(s spelling, x, y []int) bool {
			v := floats(x, scale)
			return dense(s, y) && denseOf(s, x, v) && copy(v, floats(y, scale)) == len(v) && denseOf(s, y, v)
		}
		var old []vec
		for a := 0; a < calls; a++ {
			m := 1 + rng.Intn(dim)
			switch rng.Intn(4) {
			case 0:
				m = dim
			case 1:
				m = 1 + rng.Intn(min(dim, 6))
			}
			if calls < 3 {
				m = dim - a*rng.Intn(dim)
			}
			x := randVec(dim, m, rng.Intn(4))
			old = append(old, x)
			ok := true
			for _, s := range sp {
				fill := fam == "wta" || fam == "srp"
				ways := []func() bool{
					func() bool { return sparse(s, x) },
					func() bool { return sparse(s, x.sorted(false)) },
					func() bool { return sparse(s, x.sorted(true)) },
					func() bool { return sparse(s, x.shuffled()) },
					func() bool { return sparse(s, x.shuffled()) },
					func() bool {
						if m == dim || fill {
							return dense(s, x.dense(dim))
						}
						return true
					},
					func() bool {
						if !fill {
							return true
						}
						// some left-out coordinates listed as zeros
						y := append(vec{}, x...)
						in := map[int]bool{}
						for _, e := range x {
							in[e.i] = true
						}
						for i := 0; i < dim; i++ {
							if !in[i] && rng.Intn(2) == 0 {
								y = append(y, entry{i, 0})
							}
						}
						return sparse(s, y.shuffled())
					},
					func() bool {
						o := old[rng.Intn(len(old))]
						return sparse(s, o.shuffled())
					},
					func() bool {
						y := append(vec{}, x...)
						for k := range y {
							y[k].v = x[len(x)-1-k].v
						}
						switch rng.Intn(3) {
						case 0:
							return sparseTwice(s, x, y)
						case 1:
							return sparseTwice(s, x.shuffled(), y.shuffled())
						}
						if m == dim || fill {
							return denseTwice(s, x.dense(dim), y.dense(dim))
						}
						return true
					},
				}
				rng.Shuffle(len(ways), func(i, j int) { ways[i], ways[j] = ways[j], ways[i] })
				for _, w := range ways {
					ok = ok && w()
				}
			}
			if !ok {
				break
			}
		}
	}
	saveTraces(ts)
}

// -------------------------------------------------------------------- wta

func cmdWta() {
	var ts []*Trace
	for i := 0; i < pick(75, 2400); i++ {
		kind := []string{"wta", "dwta"}[i%2]
		n, nh := someDim(), 1+rng.Intn(20)
		if i%10 == 3 {
			nh = 20 + rng.Intn(45)
		}
		if i%10 == 6 {
			n, nh = 70+rng.Intn(60), 1+rng.Intn(6)
		}
		if i%15 == 5 {
			n, nh = 130+rng.Intn(300), 10+rng.Intn(100)
		}
		if i%15 == 7 { // many permutations
			n, nh = 3+rng.Intn(8), 100+rng.Intn(100)
		}
		if i%60 == 12 || i%60 == 49 { // many coordinates, one each of the kinds
			n, nh = 1025+rng.Intn(400), 1+rng.Intn(180)
		}
		if i%5 == 1 { // as many windows as a probe can name
			nh = 1 << uint(rng.Intn(7))
		}
		again := 0
		if i%15 == 9 { // a few hashers of one shape, with a few permutations
			n, nh, again = 72+rng.Intn(30), 24+rng.Intn(26), 1+rng.Intn(2)
		}
		cfg := Ev{"kind": kind, "n": n, "nh": nh, "probes": [][]int{}}
		t := newTrace(cfg)
		ts = append(ts, t)
		scale := scales[rng.Intn(len(scales))]
		var dense func([]float64) []int
		var sparse func([]index_value.Pair) []int
		probes := [][]int{}
		build := func() bool {
			return t.do("New", func() {
				if kind == "wta" {
					h := wta_hash.New(nh, n)
					dense, sparse = h.GetHashDense, h.GetHash
					return
				}
				h := densified_wta_hash.New(nh, n)
				dense = func(d []float64) []int { return h.GetHashEasy(d, 30) }
				sparse = h.GetHash
				probes = make([][]int, nh)
				for b := range probes {
					for c := 1; c <= 100; c++ {
						probes[b] = append(probes[b], clip(h.GetRandDoubleHash(b, c)))
					}
				}
			})
		}
		ok := build()
		cfg["probes"] = probes
		if !ok {
			continue
		}
		t.add(Ev{"op": "probes"})
		call := func(what string, f func() []int) ([]int, bool) {
			var ret []int
			k := t.do(what, func() { ret = cp(f()) })
			return codesLog(ret), k
		}
		learn := func() bool {
			order := rng.Perm(n)
			for d := 0; d < n; d++ {
				up, down := make([]int, n), make([]int, n)
				for c := 0; c < n; c++ {
					up[c], down[c] = order[c]-n/2, n-1-order[c]-n/2
				}
				up[d], down[d] = 2*n, 2*n
				a, ok := call("GetHash dense", func() []int { return dense(recycled(floats(up, scale))) })
				if !ok {
					return false
				}
				b, ok := call("GetHash dense", func() []int { return dense(recycled(floats(down, scale))) })
				if !ok {
					return false
				}
				t.add(Ev{"op": "learn", "d": d, "a": a, "b": b})
			}
			t.add(Ev{"op": "formed"})
			t.add(Ev{"op": "varied"})
			return true
		}
		ok = learn()
		for k := 0; k < again && ok; k++ {
			if ok = build(); ok {
				t.add(Ev{"op": "renew", "probes": probes})
				t.add(Ev{"op": "probes"})
				ok = learn()
			}
		}
		if !ok {
			continue
		}
		for a := 0; a < 24 && ok; a++ {
			if a%3 == 0 {
				x := randVec(n, n, a/3%4).dense(n)
				var ret []int
				if ret, ok = call("GetHash dense", func() []int { return dense(recycled(floats(x, scale))) }); ok {
					t.add(Ev{"op": "dense", "x": x, "ret": ret})
				}
				continue
			}
			m := 1 + rng.Intn(n)
			if a%3 == 2 {
				m = 1 + rng.Intn(min(n, 4))
			}
			x := randVec(n, m, rng.Intn(4))
			var ret []int
			if ret, ok = call("GetHash sparse", func() []int { return sparse(recycledPairs(x.pairs(scale))) }); ok {
				t.add(Ev{"op": "sparse", "x": x.log(), "ret": ret})
			}
		}
		// values far below and above all others: only the order counts
		for a := 0; a < 4 && ok; a++ {
			x := randVec(n, n, 0)
			big := []float64{1e30, 1e-30, 1e300, 1e18}[a]
			var ret []int
			if ret, ok = call("GetHash dense", func() []int { return dense(recycled(floats(x.dense(n), big))) }); ok {
				t.add(Ev{"op": "dense", "x": x.dense(n), "ret": ret})
			}
			if !ok {
				break
			}
			if ret, ok = call("GetHash sparse", func() []int { return sparse(recycledPairs(x.pairs(big))) }); ok {
				t.add(Ev{"op": "sparse", "x": x.log(), "ret": ret})
			}
		}
	}
	saveTraces(ts)
}

func clip(x int) int {
	if x > 1<<30 || x < -1<<30 {
		return -99
	}
	return x
}

// ---------------------------------------------------------------- minhash

func cmdMinhash() {
	var ts []*Trace
	widths := []int{1, 2, 3, 4, 5, 6, 7, 8, 10, 16, 31, 32, 33, 50, 62, 63, 64, 65, 100, 128, 784}
	for i := 0; i < pick(63, 2520); i++ {
		nh, width := 1+rng.Intn(24), widths[i%len(widths)]
		if i%9 == 4 {
			nh = 25 + rng.Intn(60)
		}
		if i%9 == 7 {
			nh = 100 + rng.Intn(300)
		}
		cfg := Ev{"nh": nh, "probes": [][]int{}}
		t := newTrace(cfg)
		ts = append(ts, t)
		var h *densified_minhash.DensifiedMinhash
		ok := t.do("New", func() {
			h = densified_minhash.New(nh, width)
			probes := make([][]int, nh)
			for b := range probes {
				for c := 1; c <= 100; c++ {
					probes[b] = append(probes[b], clip(h.GetRandDoubleHash(b, c)))
				}
			}
			cfg["probes"] = probes
		})
		if !ok {
			continue
		}
		t.add(Ev{"op": "probes"})
		maps := map[int][]int{}
		ask := func(n int) bool {
			var m []int
			if !t.do("GetMap", func() { m = cp(h.GetMap(n)) }) {
				return false
			}
			maps[n] = m
			lg := make([]int, len(m))
			for j, x := range m {
				lg[j] = clip(x)
			}
			t.add(Ev{"op": "map", "n": n, "ret": lg})
			for _, x := range m {
				if x < 0 || x >= nh {
					return false // the event above tells
				}
			}
			return len(m) == n
		}
		ns := []int{1, 5, width, 20 + rng.Intn(60)}
		if i%9 == 2 {
			ns[3] = 200 + rng.Intn(600)
		}
		if i%63 == 20 {
			ns[3] = 1025 + rng.Intn(3000)
		}
		if i%63 == 38 {
			ns[3] = 4200 + rng.Intn(4200)
		}
		if width > 200 {
			ns[2] = 150
		}
		for _, n := range []int{ns[0], ns[1], ns[2], ns[3], ns[2], ns[0], ns[3]} {
			ok = ok && ask(n)
		}
		for a := 0; a < 30 && ok; a++ {
			n := ns[1+rng.Intn(3)]
			m := maps[n]
			if rng.Intn(3) == 0 { // any other valid bin map
				m = make([]int, n)
				few := 1 + rng.Intn(nh)
				for j := range m {
					m[j] = rng.Intn(few)
				}
			}
			if rng.Intn(8) == 0 {
				ok = ask(n)
				if !ok {
					break
				}
			}
			sz := 1 + rng.Intn(n)
			if rng.Intn(3) == 0 || n > 4096 {
				sz = n
			}
			if rng.Intn(5) == 0 {
				sz = 1 + rng.Intn(min(n, 4))
			}
			k := 1 + rng.Intn(n+4)
			if rng.Intn(3) == 0 {
				k = []int{1, 2, 30, sz, sz + 1, sz - 1}[rng.Intn(6)]
			}
			if k < 1 {
				k = 1
			}
			x := randVec(n, sz, rng.Intn(4))
			scale := scales[rng.Intn(len(scales))]
			var ret []int
			bins := cp(m)
			switch c := rng.Intn(3); {
			case c == 0 && sz == n:
				x = x.sorted(false)
				ok = t.do("GetHashEasyDense", func() { ret = h.GetHashEasyDense(bins, recycled(floats(x.dense(n), scale)), k) })
			case c == 1:
				k = 0
				ok = t.do("GetHash", func() {
					ix, dt := make([]int, sz), make([]float64, sz)
					for j, e := range x {
						ix[j], dt[j] = e.i, float64(e.v)*scale
					}
					ret = h.GetHash(ix, dt, bins)
				})
			default:
				ok = t.do("GetHashEasy", func() { ret = h.GetHashEasy(bins, recycledPairs(x.pairs(scale)), k) })
			}
			if ok {
				t.add(Ev{"op": "hash", "x": x.log(), "k": k, "map": m, "ret": codesLog(ret)})
			}
		}
	}
	saveTraces(ts)
}

// ------------------------------------------------------------- projection

func cmdProject() {
	var ts []*Trace
	for i := 0; i < pick(96, 3000); i++ {
		dim, nh := someDim(), 1+rng.Intn(12)
		if i%8 == 2 {
			dim = 1 + rng.Intn(3)
		}
		if i%8 == 5 {
			dim, nh = 100+rng.Intn(700), 1+rng.Intn(60)
		}
		if i%50 == 22 {
			dim, nh = 1025+rng.Intn(1500), 1+rng.Intn(20)
		}
		ratio := []int{1, 2, 3, 4, 7, 8, 16, 32, 100}[rng.Intn(9)]
		again := 0
		if i%12 == 7 { // a few hashers of one shape
			ratio, again = 2+rng.Intn(3), 1
			dim, nh = 96*ratio+rng.Intn(100), 2+rng.Intn(8)
		}
		t := newTrace(Ev{"dim": dim, "nh": nh, "ratio": ratio})
		ts = append(ts, t)
		scale := scales[rng.Intn(len(scales))]
		var h *sparse_random_projection.SparseRandomProjection
		ok := t.do("New", func() { h = sparse_random_projection.New(dim, nh, ratio) })
		unit := func(d, s int) []int {
			x := make([]int, dim)
			x[d] = s
			var ret []int
			ok = ok && t.do("GetHash", func() { ret = cp(h.GetHash(recycled(floats(x, scale)))) })
			return codesLog(ret)
		}
		for k := 0; k <= again && ok; k++ {
			if k > 0 {
				if ok = t.do("New", func() { h = sparse_random_projection.New(dim, nh, ratio) }); !ok {
					break
				}
				t.add(Ev{"op": "renew"})
			}
			for d := 0; d < dim && ok; d++ {
				a := unit(d, 1+rng.Intn(1000))
				b := unit(d, -1-rng.Intn(1000))
				if ok {
					t.add(Ev{"op": "learn", "d": d, "a": a, "b": b})
				}
			}
			if ok {
				t.add(Ev{"op": "formed"})
				t.add(Ev{"op": "varied"})
			}
		}
		for a := 0; a < 60 && ok; a++ {
			m := 1 + rng.Intn(dim)
			if a%5 == 0 {
				m = 1 + rng.Intn(min(dim, 3))
			}
			x := randVec(dim, m, rng.Intn(4))
			if a%4 == 0 { // small values: sums near and at zero
				for k := range x {
					x[k].v = rng.Intn(5) - 2
				}
			}
			var ret []int
			if a%2 == 0 {
				d := x.dense(dim)
				if ok = t.do("GetHash", func() { ret = h.GetHash(recycled(floats(d, scale))) }); ok {
					t.add(Ev{"op": "dense", "x": d, "ret": codesLog(ret)})
				}
			} else {
				if a%3 == 0 {
					x = x.sorted(false)
				}
				if ok = t.do("GetHashSparse", func() { ret = h.GetHashSparse(recycledPairs(x.pairs(scale))) }); ok {
					t.add(Ev{"op": "sparse", "x": x.log(), "ret": codesLog(ret)})
				}
			}
		}
		if ok {
			var ret []int
			if t.do("GetHashSparse", func() { ret = h.GetHashSparse(nil) }) {
				t.add(Ev{"op": "sparse", "x": [][]int{}, "ret": codesLog(ret)})
			}
		}
	}
	saveTraces(ts)
}
