package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/layer"
	"github.com/nlpodyssey/goslide/network"
	"github.com/nlpodyssey/goslide/node"
)

func init() {
	commands["build"] = cmdBuild
	commands["program"] = cmdProgram
}

type cell struct {
	Net  int    `json:"net"`
	Kind string `json:"kind"`
	La   int    `json:"la"`
	J    int    `json:"j"`
	D    int    `json:"d"`
}

// cellsOf reads every number a network holds.
func cellsOf(net int, ls []*layer.Layer, slots int, adam bool, into map[cell]uint64) {
	put := func(k string, la, j, d int, x float64) {
		into[cell{net, k, la, j, d}] = math.Float64bits(x)
	}
	for d, l := range ls {
		la := d + 1
		for x, n := range l.GetAllNodes() {
			j := x + 1
			for i, w := range n.Weights() {
				put("w", la, j, i+1, w)
			}
			put("b", la, j, 0, n.Bias())
			if adam {
				for i := 0; i < n.AdamTDim(); i++ {
					put("t", la, j, i+1, n.GetT(i))
					put("m", la, j, i+1, n.GetAdamAvgMom(i))
					put("v", la, j, i+1, n.GetAdamAvgVel(i))
				}
				put("tb", la, j, 0, n.GetTBias())
				put("mb", la, j, 0, n.GetAdamAvgMomBias())
				put("vb", la, j, 0, n.GetAdamAvgVelBias())
			} else { // the accumulated parameters, through a throw-away copy
				c := n.CopyWeightsAndBiasFromMirror(1 << 30)
				for i, w := range c.Weights() {
					put("mw", la, j, i+1, w)
				}
				put("mirb", la, j, 0, c.Bias())
			}
			for s := 0; s < slots; s++ {
				put("act", la, j, s+1, n.GetLastActivation(s))
				put("err", la, j, s+1, n.GetGradient(0, 0, s, 1))
			}
		}
	}
}

func diffCells(a, b map[cell]uint64) []cell {
	r := []cell{}
	for c, x := range b {
		if y, ok := a[c]; ok && x != y {
			r = append(r, c)
		}
	}
	for c := range a {
		if _, ok := b[c]; !ok {
			r = append(r, c)
		}
	}
	if len(r) > 50 {
		r = r[:50]
	}
	return r
}

type drawnStats struct{ n, sum, sq, pos, near, far, twice, rows, zero int }

func statsOf(rows [][]float64) Ev {
	var s drawnStats
	sum, sq := 0.0, 0.0
	count := map[float64]int{}
	seen := map[string]bool{}
	var flat []float64
	lag, above := [3]float64{}, 0.0 // products with earlier draws, and with the row above
	for x, r := range rows {
		for i, w := range r {
			flat = append(flat, w)
			for d := range lag {
				if at := len(flat) - 2 - d; at >= 0 {
					lag[d] += w * flat[at]
				}
			}
			if x > 0 && i < len(rows[x-1]) {
				above += w * rows[x-1][i]
			}
			if w == 0 {
				s.zero++
			}
			s.n++
			sum += w
			sq += w * w
			if w > 0 {
				s.pos++
			}
			if math.Abs(w) < 0.01 {
				s.near++
			}
			s.far = max(s.far, int(math.Min(math.Abs(w)*1e6, 1e9)))
			if count[w]++; count[w] > 1 {
				s.twice++
			}
		}
		if len(r) >= 4 {
			k := fmt.Sprint(r)
			if seen[k] {
				s.rows++
			}
			seen[k] = true
		}
	}
	clip := func(x float64) int {
		if math.IsNaN(x) || math.Abs(x) > 1e9 {
			return 1e9
		}
		return int(math.Round(x))
	}
	return Ev{"op": "drawn", "n": s.n, "sum": clip(sum * 1e6), "sq": clip(sq * 1e8), "pos": s.pos,
		"near": s.near, "far": s.far, "twice": s.twice, "rows": s.rows,
		"zero": s.zero, "with": []int{clip(lag[0] * 1e8), clip(lag[1] * 1e8), clip(lag[2] * 1e8), clip(above * 1e8)}}
}

func shapeOf(l *layer.Layer, n, dim, tables, pow, slots int, adam bool, given bool) Ev {
	e := Ev{"n": l.NumOfNodes(), "nodes": len(l.GetAllNodes())}
	soft := true
	for s := 0; s < slots && soft; s++ {
		soft = try("GetNomalizationConstant", func() {
			if x := l.GetNomalizationConstant(s); x != 0 {
				panic("not zero")
			}
		}) == ""
	}
	e["softmax"] = soft
	rows, dims := []int{}, []int{}
	stained, unlike := 0, 0
	offered := slots
	w, b, m, v := [][]int{}, []int{}, [][]int{}, [][]int{}
	count := func(x float64) {
		if x != 0 {
			stained++
		}
	}
	asInt := func(x float64) int {
		if x != math.Trunc(x) || math.Abs(x) > 1e9 {
			return -1
		}
		return int(x)
	}
	for _, nd := range l.GetAllNodes() {
		rows, dims = append(rows, len(nd.Weights())), append(dims, nd.AdamTDim())
		wi, mi, vi := []int{}, []int{}, []int{}
		for i := range nd.Weights() {
			wi = append(wi, asInt(nd.Weights()[i]))
			if adam {
				mi, vi = append(mi, asInt(nd.GetAdamAvgMom(i))), append(vi, asInt(nd.GetAdamAvgVel(i)))
				count(nd.GetT(i))
				if !given {
					count(nd.GetAdamAvgMom(i))
					count(nd.GetAdamAvgVel(i))
				}
			}
		}
		if nd.Bias() != nd.GetBias() {
			unlike++
		}
		b = append(b, asInt(nd.Bias()))
		if adam {
			count(nd.GetTBias())
			count(nd.GetAdamAvgMomBias())
			count(nd.GetAdamAvgVelBias())
		} else {
			c := nd.CopyWeightsAndBiasFromMirror(1 << 30)
			for i := range nd.Weights() {
				if c.Weights()[i] != nd.Weights()[i] {
					unlike++
				}
			}
			if c.Bias() != nd.Bias() {
				unlike++
			}
		}
		for s := 0; s < slots; s++ {
			if try("a slot", func() {
				count(nd.GetLastActivation(s))
				count(nd.GetGradient(0, 0, s, 1))
			}) != "" {
				offered = min(offered, s)
				break
			}
			// asking for the error of an inactive slot is refused
			if try("an inactive slot", func() { nd.IncrementDelta(1<<30, s, 1) }) == "" {
				stained++
			}
		}
		w, m, v = append(w, wi), append(m, mi), append(v, vi)
	}
	e["rows"], e["adamdims"], e["stained"], e["unlike"], e["slots"] = rows, dims, stained, unlike, offered
	if given {
		e["w"], e["b"], e["m"], e["v"] = w, b, m, v
	}
	code := l.GetHashForInputProcessing(realVec(dim, 0))
	e["code"] = len(code)
	ix := l.HashesToIndex(cp(code))
	e["tables"] = len(ix)
	// the last bucket of every table takes an id and gives it back
	corners := 0
	if lsh := tablesOf(l).Clone(); len(ix) > 0 {
		for t := range ix {
			ix[t] = 1<<uint(pow) - 1
		}
		if try("the last bucket", func() { lsh.Add(cp(ix), 7777777) }) == "" {
			for _, ids := range lsh.RetrieveRaw(cp(ix)) {
				for _, id := range ids {
					if id == 7777777 {
						corners++
					}
				}
			}
		}
	}
	e["corners"] = corners
	return e
}

func cmdBuild() {
	var ts []*Trace
	fams := []string{"wta", "dwta", "minhash", "srp"}
	for i := 0; i < pick(60, 400); i++ {
		fam := fams[i%4]
		given := i%3 == 1
		s := &netSpec{fam: fam, adam: rng.Intn(2) == 0, mode: 1 + rng.Intn(4), owner: firstOwner(),
			batch: 1 + rng.Intn(6), dim: 8 + rng.Intn(20), lr: 0.01}
		depth, widest := 1+rng.Intn(4), 12
		switch i % 12 {
		case 5:
			s.dim, widest, depth = 100+rng.Intn(100), 40, 1+rng.Intn(2)
		case 7:
			depth, widest = 5+rng.Intn(3), 4
		case 8:
			s.batch, widest, depth = 50+rng.Intn(150), 5, 1+rng.Intn(2)
		}
		if i == 35 || i == 39 || i%100 == 99 { // large
			given = false
			s.dim, widest, depth = 33+rng.Intn(8), -2100, 1
			s.batch = 8 + rng.Intn(3)
			if i != 35 {
				s.dim, widest, s.batch = 1500, -50-rng.Intn(5), 2+rng.Intn(200)
			}
		}
		var layers []Ev
		for d := 0; d < depth; d++ {
			n := -widest
			if widest > 0 {
				n = 1 + rng.Intn(widest)
			}
			if d < depth-1 { // the hash families want eight inputs
				n += 8
			}
			k := 1 + rng.Intn(3)
			s.sizes, s.k = append(s.sizes, n), append(s.k, k)
			s.l = append(s.l, 1+rng.Intn(6))
			s.pow = append(s.pow, rangeBits(fam, k)+[]int{0, 0, 1, 2}[rng.Intn(4)])
			s.sparsity = append(s.sparsity, []float64{1, 0.5}[rng.Intn(2)])
			layers = append(layers, Ev{"n": n, "softmax": d == depth-1, "tables": s.l[d], "code": k * s.l[d]})
		}
		// lists longer than the network has layers
		sizes := cp(s.sizes)
		if rng.Intn(3) == 0 {
			sizes = append(sizes, 3)
		}
		s.sparsity = append(s.sparsity, s.sparsity...)
		types := s.types()
		if rng.Intn(4) == 0 { // kinds in any order
			for d := range types {
				types[d] = kindOf(rng.Intn(2) == 0)
				layers[d]["softmax"] = types[d] == node.Softmax
			}
		}
		base := 1 + rng.Intn(1000)
		t := newTrace(Ev{"layers": layers, "dim": s.dim, "slots": s.batch, "adam": s.adam, "given": given, "base": base})
		ts = append(ts, t)
		var nets [][]*layer.Layer
		build := func() bool {
			return t.do("building", func() {
				setMode(fam, s.mode)
				configuration.Global.UseAdam = s.adam
				configuration.Global.LoadWeight = given
				var ls []*layer.Layer
				if !given {
					ls = layersOf(network.New(s.owner, depth, sizes, types, s.batch, s.lr, s.dim, s.k, s.l, s.pow, s.sparsity))
				} else {
					for d := range s.sizes {
						seq := func(n, from int) []float64 {
							f := make([]float64, n)
							for x := range f {
								f[x] = float64(from + x + 1)
							}
							return f
						}
						size := s.sizes[d] * s.prev(d)
						ls = append(ls, layer.New(s.owner, s.sizes[d], s.prev(d), d, types[d], s.batch, s.k[d], s.l[d], s.pow[d], s.sparsity[d],
							seq(size, base), seq(s.sizes[d], base), seq(size, base+500000), seq(size, base+1000000)))
					}
				}
				nets = append(nets, ls)
			})
		}
		read := func() map[cell]uint64 {
			m := map[cell]uint64{}
			for x, ls := range nets {
				cellsOf(x+1, ls, s.batch, s.adam, m)
			}
			return m
		}
		if !build() {
			continue
		}
		var seen []Ev
		if !t.do("observers", func() {
			for d, l := range nets[0] {
				dim, n, tab, pow := s.dim, 0, 1, 0
				if d < depth {
					dim, n, tab, pow = s.prev(d), s.sizes[d], s.l[d], s.pow[d]
				}
				seen = append(seen, shapeOf(l, n, dim, tab, pow, s.batch, s.adam, given))
			}
		}) {
			continue
		}
		t.add(Ev{"op": "built", "seen": seen})
		if !given {
			all := [][]float64{}
			biases := []float64{}
			for _, l := range nets[0] {
				rows := [][]float64{}
				for _, n := range l.GetAllNodes() {
					rows = append(rows, n.Weights())
					biases = append(biases, n.Bias())
				}
				all = append(all, rows...)
				if len(rows) > 0 && len(rows)*len(rows[0]) <= 90000 {
					t.add(statsOf(rows))
				}
			}
			t.add(statsOf([][]float64{biases}))
			if e := statsOf(append(all, biases)); e["n"].(int) <= 90000 {
				t.add(e)
			}
		}
		ok := true
		var before, after map[cell]uint64
		if ok = t.do("observers", func() { before = read() }); !ok {
			continue
		}
		if rng.Intn(2) == 0 {
			if ok = build(); !ok {
				continue
			}
			if ok = t.do("observers", func() { after = read() }); !ok {
				continue
			}
			same := 0
			for c, x := range before {
				if c.Kind == "w" || c.Kind == "b" {
					c.Net = 2
					if after[c] == x {
						same++
					}
				}
			}
			was := map[cell]uint64{}
			for c, x := range after {
				if c.Net == 1 {
					was[c] = x
				}
			}
			t.add(Ev{"op": "again", "changed": diffCells(before, was), "same": same})
			before = after
		}
		writes := 12
		if len(before) > 100000 {
			writes = 6
		}
		for q := 0; q < writes && ok; q++ {
			c := cell{Net: 1 + rng.Intn(len(nets)), La: 1 + rng.Intn(depth)}
			n := s.sizes[c.La-1]
			c.J = []int{1 + rng.Intn(n), 1, n}[rng.Intn(3)]
			nd := nets[c.Net-1][c.La-1].GetNodeById(c.J - 1)
			prev := s.prev(c.La - 1)
			i := []int{rng.Intn(prev), 0, prev - 1}[rng.Intn(3)]
			x := float64(q) + 0.3
			kinds := []string{"w", "b", "act"}
			if s.adam {
				kinds = append(kinds, "t", "m", "v", "tb", "mb", "vb")
			}
			c.Kind = kinds[rng.Intn(len(kinds))]
			o := s.owner
			ok = t.do("writing "+c.Kind, func() {
				switch c.Kind {
				case "w":
					nd.Weights()[i] = x
					c.D = i + 1
				case "t":
					nd.SetT(o, i, x)
					c.D = i + 1
				case "m":
					nd.SetAdamAvgMom(o, i, x)
					c.D = i + 1
				case "v":
					nd.SetAdamAvgVel(o, i, x)
					c.D = i + 1
				case "b":
					nd.SetBias(o, x)
				case "tb":
					nd.SetTBias(o, x)
				case "mb":
					nd.SetAdamAvgMomBias(o, x)
				case "vb":
					nd.SetAdamAvgVelBias(o, x)
				case "act":
					sl := []int{rng.Intn(s.batch), 0, s.batch - 1}[rng.Intn(3)]
					c.D = sl + 1
					nd.GetActivation(o, []index_value.Pair{}, sl)
					nd.SetlastActivation(o, sl, 1000+x)
				}
				after = read()
			})
			if !ok {
				break
			}
			t.add(Ev{"op": "write", "cell": c, "changed": diffCells(before, after)})
			before = after
		}
	}
	saveTraces(ts)
}

// cmdProgram runs the real program on configurations that leave settings out
// and compares what it builds its network from.
func cmdProgram() {
	prog := os.Getenv("VERIF_GOSLIDE")
	var ts []*Trace
	for i := 0; i < pick(60, 500); i++ {
		dir := filepath.Join(outDir, "runs", strconv.Itoa(i))
		must(os.MkdirAll(dir, 0o755))
		must(os.WriteFile(filepath.Join(dir, "train.txt"), []byte("1 5 2\n0 1:1\n"), 0o644))
		depth := 1 + rng.Intn(5)
		fam := 1 + rng.Intn(4)
		conf := Ev{"TrainData": filepath.Join(dir, "train.txt"), "TestData": filepath.Join(dir, "train.txt"),
			"Epoch": rng.Intn(2), "TotRecords": 0, "TotRecordsTest": 0,
			"NumLayer": depth, "HashFunction": fam, "LayerMode": 1 + rng.Intn(4), "UseAdam": rng.Intn(2) == 0,
			"LearningRate": []float64{0.1, 0.0001, 0.02}[rng.Intn(3)], "BatchSize": []int{1, 2, 3, 17, 1000, 40}[rng.Intn(6)],
			"InputDim": []int{784, 8, 9, 20, 100}[rng.Intn(5)]}
		for k, d := range map[string]interface{}{"NumLayer": 3, "HashFunction": 2, "LayerMode": 4, "UseAdam": true,
			"LearningRate": 0.0001, "BatchSize": 1000, "InputDim": 784} {
			if rng.Intn(4) == 0 {
				conf[k] = d
			}
		}
		depth, fam = conf["NumLayer"].(int), conf["HashFunction"].(int)
		sizes, ks, ls, pows, sp := []int{}, []int{}, []int{}, []int{}, []float64{}
		types := []string{}
		for d := 0; d < depth+rng.Intn(2); d++ {
			k := 1 + rng.Intn(2)
			sizes = append(sizes, 8+rng.Intn(10))
			ks, ls = append(ks, k), append(ls, 1+rng.Intn(4))
			pows = append(pows, rangeBits([]string{"wta", "dwta", "minhash", "srp"}[fam-1], k))
			if d < depth {
				types = append(types, "ReLU")
			}
		}
		types[depth-1] = "Softmax"
		for d := 0; d < 2*depth; d++ {
			sp = append(sp, []float64{1, 0.5, 0.25, 0.01}[rng.Intn(4)])
		}
		conf["SizesOfLayers"], conf["K"], conf["L"], conf["RangePow"], conf["Sparsity"] = sizes, ks, ls, pows, sp
		want := map[string]string{}
		for k, v := range conf {
			b, err := json.Marshal(v)
			must(err)
			want[k] = string(b)
		}
		want["Types"] = strings.Join(types, " ")
		for _, k := range []string{"TrainData", "TestData", "Epoch", "TotRecords", "TotRecordsTest"} {
			delete(want, k)
		}
		for k, v := range map[string]interface{}{"LayerMode": 4, "HashFunction": 2, "UseAdam": true, "NumLayer": 3,
			"BatchSize": 1000, "LearningRate": 0.0001, "InputDim": 784} {
			if conf[k] == v && rng.Intn(4) > 0 {
				delete(conf, k)
			}
		}
		if rng.Intn(5) == 0 {
			conf["Something"] = []int{1}
		}
		b, err := json.Marshal(conf)
		must(err)
		must(os.WriteFile(filepath.Join(dir, "config.json"), b, 0o644))
		t := newTrace(Ev{"config": string(b)})
		ts = append(ts, t)
		log := filepath.Join(dir, "log.txt")
		c := exec.Command(prog, filepath.Join(dir, "config.json"))
		c.Dir = dir
		c.Env = append(os.Environ(), "GOSLIDE_VERIF_TRACE="+log)
		out, err := c.CombinedOutput()
		if err != nil {
			t.add(Ev{"op": "crash", "msg": string(out[:min(len(out), 500)])})
			continue
		}
		text, err := os.ReadFile(log)
		if err != nil {
			text = nil
		}
		sc := bufio.NewScanner(bytes.NewReader(text))
		sc.Buffer(nil, 1<<26)
		news := 0
		for sc.Scan() {
			if !strings.HasPrefix(sc.Text(), `{"Ev":"new"`) {
				continue
			}
			news++
			var e struct {
				Layers              int
				Sizes               []int
				Types               []int
				BatchSize, InputDim int
				LearningRate        float64
				K, L, RangePow      []int
				Sparsity            []float64
				Configuration       struct {
					HashFunction, LayerMode int
					UseAdam                 bool
				}
			}
			must(json.Unmarshal(sc.Bytes(), &e))
			got := map[string]string{}
			add := func(k string, v interface{}) {
				b, err := json.Marshal(v)
				must(err)
				got[k] = string(b)
			}
			kinds := []string{}
			for _, k := range e.Types {
				kinds = append(kinds, node.NodeType(k).String())
			}
			add("NumLayer", e.Layers)
			add("SizesOfLayers", e.Sizes)
			add("BatchSize", e.BatchSize)
			add("InputDim", e.InputDim)
			add("LearningRate", e.LearningRate)
			add("K", e.K)
			add("L", e.L)
			add("RangePow", e.RangePow)
			add("Sparsity", e.Sparsity)
			add("HashFunction", e.Configuration.HashFunction)
			add("LayerMode", e.Configuration.LayerMode)
			add("UseAdam", e.Configuration.UseAdam)
			got["Types"] = strings.Join(kinds, " ")
			t.add(Ev{"op": "program", "got": got, "want": want})
		}
		must(sc.Err())
		if news != 1 {
			t.add(Ev{"op": "networks", "n": news})
		}
		must(os.RemoveAll(dir))
	}
	saveTraces(ts)
}
