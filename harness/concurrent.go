package main

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/network"
)

// concurrently lets several owners work on forks of a network at the same
// time, the network itself being at rest, and records what every owner saw
// after each of its operations; then, with all of them done, once more what
// all networks show. Everything random is drawn beforehand.
func (s *netSpec) concurrently(t *Trace, tn int, vals numbers, original *network.Network, iter int, anytime, free bool,
	drawBatch func(q int) ([]dataset.Example, []Ev)) {
	type op struct {
		what            string
		q, owner, iter  int
		fork            bool
		exs             []dataset.Example
		log             []Ev
		rehash, rebuild bool
		panic           string
		ret             *network.Network
		vals            numbers
	}
	var plans [][]*op
	q := 0
	for g := 0; g < 2+rng.Intn(3); g++ {
		var plan []*op
		owner, at := newOwner(), iter
		most := 1 + rng.Intn(4)
		for k := 1; k <= most; k++ {
			q++
			o := &op{what: "train", q: q, fork: k == 1, vals: numbers{}}
			if k > 1 && rng.Intn(4) == 0 { // handed on to another owner
				o.fork, owner = true, newOwner()
			}
			if rng.Intn(4) == 0 {
				o.what = "predict"
			}
			o.owner, o.iter = owner, at
			o.exs, o.log = drawBatch(q)
			if o.what == "train" {
				at += 1 + rng.Intn(2)
				if anytime || k == most {
					o.rehash, o.rebuild = rng.Intn(2) == 0, rng.Intn(3) == 0
				}
			}
			plan = append(plan, o)
		}
		plans = append(plans, plan)
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	var working atomic.Int32
	for _, plan := range plans {
		wg.Add(1)
		working.Add(1)
		go func(plan []*op) {
			defer wg.Done()
			defer working.Add(-1)
			n := original
			<-start
			for _, o := range plan {
				func() {
					defer func() {
						if r := recover(); r != nil {
							o.panic = fmt.Sprint("panic: ", r)
						}
					}()
					if o.what == "train" {
						_, o.ret = n.ProcessInput(o.owner, o.exs, o.iter, o.rehash, o.rebuild)
					} else {
						_, o.ret = n.PredictClass(o.owner, o.exs)
					}
					o.vals.observe(s, o.ret, fmt.Sprintf("%d/%d/ret", tn, o.q))
				}()
				if o.panic != "" {
					return
				}
				n = o.ret
			}
		}(plan)
	}
	if rng.Intn(2) == 0 { // somebody looks at the original meanwhile
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { recover() }()
			<-start
			for working.Load() > 0 {
				numbers{}.observe(s, original, "x")
			}
		}()
	}
	if !t.do("owners working at the same time", func() {
		close(start)
		wg.Wait()
	}) {
		return
	}
	// the owners one after the other: what they did does not depend on the others
	nets := []*network.Network{original}
	for _, plan := range plans {
		h := 1
		for _, o := range plan {
			if o.panic != "" {
				t.add(Ev{"op": "panic", "msg": o.panic})
				return
			}
			ret := 0
			for x, n := range nets {
				if n == o.ret {
					ret = x + 1
				}
			}
			if ret == 0 {
				nets = append(nets, o.ret)
				ret = len(nets)
			}
			for name, v := range o.vals {
				vals[renamed(name, o.q, ret)] = v
			}
			if free && o.what == "train" {
				t.add(Ev{"op": "free", "h": h, "owner": ownerNo(o.owner), "ret": ret})
				h = ret
				continue
			}
			e := Ev{"op": o.what, "h": h, "owner": ownerNo(o.owner), "ret": ret}
			if o.what == "train" {
				e["iter"], e["ex"] = o.iter, o.log
			}
			t.add(e)
			h = ret
		}
	}
	if t.do("observers", func() {
		for x, n := range nets {
			vals.observe(s, n, fmt.Sprintf("%d/%d/%d", tn, q+1, x+1))
		}
	}) {
		t.add(Ev{"op": "join"})
	}
}

// renamed: the name of an observation of the handle that has that number.
func renamed(name string, q, ret int) string {
	return strings.Replace(name, fmt.Sprintf("/%d/ret/", q), fmt.Sprintf("/%d/%d/", q, ret), 1)
}
