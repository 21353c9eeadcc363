package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"math"
	"os"

	"github.com/nlpodyssey/goslide/configuration"
	"github.com/nlpodyssey/goslide/index_value"
	"github.com/nlpodyssey/goslide/node"
)

func init() { commands["nodes"] = cmdNodes }

// readBehaviours reads what Emit (spec/Terms.tla) wrote.
func readBehaviours(name string, each func(raw []byte)) {
	f, err := os.Open(outDir + "/" + name)
	must(err)
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(nil, 1<<28)
	for sc.Scan() {
		var s string
		must(json.Unmarshal(sc.Bytes(), &s))
		each([]byte(s))
	}
	must(sc.Err())
}

func mismatch(e Ev) {
	b, _ := json.Marshal(e)
	say("MISMATCH %s", b)
	os.Exit(0)
}

type nodeOp struct {
	Op           string
	H, O, S, Ret int
	Panic        bool
	In           []int
	Labels       []int
	Prevs, Prets []int
	Field        string
	I            int
}

type nodeBehaviour struct {
	Kind struct{ Adam, Softmax bool }
	P, S int
	Ops  []nodeOp
}

func positive() float64 { return 0.1 + 3*rng.Float64() }

func cmdNodes() {
	out, err := os.Create(outDir + "/values.ndjson")
	must(err)
	w := bufio.NewWriter(out)
	count, steps, panics, forks := 0, 0, 0, 0
	readBehaviours("prog.ndjson", func(raw []byte) {
		var b nodeBehaviour
		must(json.Unmarshal(raw, &b))
		count++
		vals := numbers{}
		configuration.Global = configuration.Default()
		configuration.Global.UseAdam = b.Kind.Adam
		nt := node.ReLU
		if b.Kind.Softmax {
			nt = node.Softmax
		}
		style := []int{0, 1, 3, 2, 2, 8, 9}[rng.Intn(7)]
		owners := map[int]int{0: firstOwner()} // of the specification's
		for _, op := range b.Ops {
			if _, ok := owners[op.O]; !ok {
				owners[op.O] = newOwner()
			}
		}
		var hs []*node.Node
		observe := func(q int) {
			for x, n := range hs {
				tag := fmt.Sprintf("0/%d/%d", q, x+1)
				for i := 0; i < b.P; i++ {
					vals.put(n.Weights()[i], "ow/%s/%d", tag, i+1)
					if b.Kind.Adam {
						vals.put(n.GetT(i), "ot/%s/%d", tag, i+1)
						vals.put(n.GetAdamAvgMom(i), "om/%s/%d", tag, i+1)
						vals.put(n.GetAdamAvgVel(i), "ov/%s/%d", tag, i+1)
					}
				}
				vals.put(n.Bias(), "ob/%s", tag)
				for s := 0; s < b.S; s++ {
					vals.put(n.GetLastActivation(s), "oact/%s/%d", tag, s+1)
					vals.put(-n.GetGradient(0, 0, s, 1), "oerr/%s/%d", tag, s+1)
				}
				if b.Kind.Adam {
					vals.put(n.GetTBias(), "otb/%s", tag)
					vals.put(n.GetAdamAvgMomBias(), "omb/%s", tag)
					vals.put(n.GetAdamAvgVelBias(), "ovb/%s", tag)
				} else {
					// the accumulated parameters, through a throw-away copy
					c := n.CopyWeightsAndBiasFromMirror(newOwner())
					for i := 0; i < b.P; i++ {
						vals.put(c.Weights()[i], "omw/%s/%d", tag, i+1)
					}
					vals.put(c.Bias(), "omirb/%s", tag)
				}
			}
		}
		for k := 0; k <= b.P; k++ {
			ws, bias := realVec(b.P, style), realVec(1, style)[0]
			m, v := realVec(b.P, style), realVec(b.P, 3)
			for i := range ws {
				vals.put(ws[i], "w/0/%d/%d", k, i+1)
				vals.put(m[i], "m/0/%d/%d", k, i+1)
				vals.put(v[i], "v/0/%d/%d", k, i+1)
			}
			vals.put(bias, "b/0/%d", k)
			if rng.Intn(2) == 0 {
				hs = append(hs, node.NewNode(owners[0], b.P, k, 0, nt, b.S, ws, bias, m, v))
			} else {
				tr := make([]*node.NodeTrain, b.S)
				for i := range tr {
					tr[i] = node.NewNodeTrain(owners[0])
				}
				hs = append(hs, node.NewEmptyNode(owners[0]).Update(owners[0], b.P, k, 0, nt, b.S, ws, bias, m, v, tr))
			}
		}
		observe(0)
		place := func(ret int, n *node.Node) {
			if ret == len(hs)+1 {
				hs = append(hs, nil)
				forks++
			}
			hs[ret-1] = n
		}
		for x, op := range b.Ops {
			q := x + 1
			op.O = owners[op.O]
			cs := make([]float64, 4*b.P+4)
			for i := range cs {
				cs[i] = realVec(1, style)[0]
			}
			cs[0] = positive()
			if op.Op == "stats" {
				cs[1] = positive()
			}
			if op.Op == "renew" || op.Field == "v" || op.Field == "vb" {
				for i := range cs {
					cs[i] = math.Abs(cs[i])
				}
			}
			for i, c := range cs {
				vals.put(c, "c/%d/%d", q, i)
			}
			h, s := hs[op.H-1], op.S-1
			var pairs []index_value.Pair
			var res *node.Node
			var prevs []*node.Node
			value, hasValue := 0.0, false
			p := try(op.Op, func() {
				switch op.Op {
				case "activate", "first":
					for k, i := range op.In {
						pairs = append(pairs, index_value.Pair{Index: i - 1, Value: cs[k+1]})
					}
					if op.Op == "first" {
						res = h.BackPropagateFirstLayer(op.O, pairs, cs[0], s)
					} else {
						value, res = h.GetActivation(op.O, pairs, s)
						hasValue = true
					}
				case "increment":
					res = h.IncrementDelta(op.O, s, cs[1])
				case "stats":
					res = h.ComputeExtaStatsForSoftMax(op.O, cs[1], s, cp(op.Labels))
				case "back":
					for _, k := range op.Prevs {
						prevs = append(prevs, hs[k-1])
					}
					for _, i := range op.In {
						pairs = append(pairs, index_value.Pair{Index: i - 1, Value: prevs[i-1].GetLastActivation(s)})
					}
					res = h.BackPropagate(op.O, &prevs, pairs, cs[0], s)
				case "setact":
					res = h.SetlastActivation(op.O, s, cs[1])
				case "set":
					switch op.Field {
					case "t":
						res = h.SetT(op.O, op.I-1, cs[1])
					case "m":
						res = h.SetAdamAvgMom(op.O, op.I-1, cs[1])
					case "v":
						res = h.SetAdamAvgVel(op.O, op.I-1, cs[1])
					case "tb":
						res = h.SetTBias(op.O, cs[1])
					case "mb":
						res = h.SetAdamAvgMomBias(op.O, cs[1])
					case "vb":
						res = h.SetAdamAvgVelBias(op.O, cs[1])
					case "b":
						res = h.SetBias(op.O, cs[1])
					}
				case "perturb":
					value, res = h.PurturbWeight(op.O, op.I-1, cs[1])
					hasValue = true
				case "adopt":
					res = h.CopyWeightsAndBiasFromMirror(op.O)
				case "renew":
					tr := make([]*node.NodeTrain, b.S)
					for i := range tr {
						tr[i] = node.NewNodeTrain(op.O)
					}
					part := func(from int) []float64 { return append([]float64(nil), cs[from:from+b.P]...) }
					lineage := op.I
					res = h.Update(op.O, b.P, lineage, 0, nt, b.S, part(1), cs[b.P+1],
						part(b.P+2), part(2*b.P+2), tr)
				}
			})
			steps++
			if (p != "") != op.Panic {
				mismatch(Ev{"behaviour": count, "step": q, "op": op, "all": b.Ops[:q],
					"expected_refusal": op.Panic, "panic": p})
			}
			if op.Panic {
				panics++
			} else {
				place(op.Ret, res)
				if op.Op == "back" {
					for _, i := range op.In {
						place(op.Prets[i-1], prevs[i-1])
					}
				}
			}
			if hasValue {
				vals.put(value, "oret/0/%d/0", q)
			}
			if p := try("observers", func() { observe(q) }); p != "" {
				mismatch(Ev{"behaviour": count, "step": q, "op": op, "all": b.Ops[:q], "panic": p})
			}
		}
		line, err := json.Marshal(vals)
		must(err)
		w.Write(line)
		w.WriteByte('\n')
	})
	must(w.Flush())
	must(out.Close())
	say("STAT behaviours=%d operations=%d refusals=%d forks=%d", count, steps, panics, forks)
}
