package main

import (
	"github.com/nlpodyssey/goslide/bucket"
	"github.com/nlpodyssey/goslide/bucket/fifo"
	"github.com/nlpodyssey/goslide/lsh"
)

func init() {
	commands["fifo"] = cmdFifo
	commands["array"] = cmdArray
	commands["lsh"] = cmdLsh
}

// history lengths around the interesting sizes: empty, nearly full, full, one
// or several wrap-arounds.
func runLength(i int) int {
	sizes := []int{0, 1, 2, 127, 128, 129, 130, 255, 256, 257, 300, 384, 385, 500, 512, 513, 700, 1030}
	if i < len(sizes) {
		return sizes[i]
	}
	return rng.Intn(900)
}

func newId(k int) int {
	switch rng.Intn(8) {
	case 0:
		return rng.Intn(4) // repeated small ids
	case 1:
		return 1000000 + rng.Intn(1000)
	default:
		return 1000 + k
	}
}

// The model's numbers for ids: an id other than 0 stands for itself, or for
// itself beyond base.
type numbering struct{ base int }

func someNumbering(i int) numbering {
	return numbering{[]int{0, 0, 0, 1<<16 - 2000, 1 << 33, 1 << 52}[i%6]}
}

func (n numbering) real(id int) int {
	if id == 0 {
		return 0
	}
	return id + n.base
}

func (n numbering) model(id int) int {
	if id == 0 || id == -1 || n.base == 0 && id < 1<<30 {
		return id
	}
	if id < n.base || id > n.base+1<<30 {
		return -99
	}
	return id - n.base
}

func (n numbering) models(ids []int) []int {
	r := cp(ids)
	for i := range r {
		r[i] = n.model(r[i])
	}
	return r
}

func cmdFifo() {
	var ts []*Trace
	for i := 0; i < pick(60, 1500); i++ {
		t := newTrace(Ev{})
		ts = append(ts, t)
		b := fifo.New()
		as := someNumbering(i)
		k := 0
		full := func() bool {
			var all []int
			if !t.do("GetAll", func() { all = as.models(b.GetAll()) }) {
				return false
			}
			t.add(Ev{"op": "list", "ret": all})
			return true
		}
		read := func(j int) bool {
			r := 0
			if !t.do("Retrieve", func() { r = as.model(b.Retrieve(j)) }) {
				return false
			}
			t.add(Ev{"op": "read", "i": j, "ret": r})
			return true
		}
		ok := true
		rounds := 1 + rng.Intn(4)
		for r := 0; r < rounds && ok; r++ {
			n := runLength(i*3 + r)
			if r == 0 && i < 18 {
				n = runLength(i)
			}
			every := 1 + rng.Intn(60)
			if i == 30 && r == 0 { // counters must not run out
				n, every = 66000+rng.Intn(1000), 997
			} else if i%40 == 31 && r == 0 {
				n, every = 2000+rng.Intn(3000), 97
			}
			for a := 0; a < n && ok; a++ {
				id, ret := newId(k), 0
				k++
				if ok = t.do("Add", func() { ret = b.Add(as.real(id)) }); !ok {
					break
				}
				t.add(Ev{"op": "add", "id": id, "ret": ret})
				if a%every == 0 {
					ok = ok && read(rng.Intn(140))
				}
				if a%(every*5) == 1 {
					ok = ok && full()
				}
			}
			ok = ok && full()
			for _, j := range []int{0, 1, n - 1, n, n + 1, 126, 127, 128, 129, 1 << 30} {
				if j >= 0 && ok {
					ok = read(j)
				}
			}
			ok = ok && full()
			if r+1 < rounds && ok {
				if ok = t.do("Reset", func() { b.Reset() }); ok {
					t.add(Ev{"op": "reset"})
					if rng.Intn(2) == 0 {
						ok = full() && read(0) && read(rng.Intn(128)) && read(127)
					}
				}
			}
		}
	}
	saveTraces(ts)
}

func cmdArray() {
	var ts []*Trace
	for i := 0; i < pick(60, 1500); i++ {
		t := newTrace(Ev{})
		ts = append(ts, t)
		b := bucket.New()
		as := someNumbering(i)
		k := 0
		full := func() bool {
			var all []int
			if !t.do("GetAll", func() { all = as.models(b.GetAll()) }) {
				return false
			}
			t.add(Ev{"op": "list", "ret": all})
			return true
		}
		read := func(j int) bool {
			r := 0
			if !t.do("Retrieve", func() { r = as.model(b.Retrieve(j)) }) {
				return false
			}
			t.add(Ev{"op": "read", "i": j, "ret": r})
			return true
		}
		size := func() bool {
			r := 0
			if !t.do("GetSize", func() { r = b.GetSize() }) {
				return false
			}
			t.add(Ev{"op": "size", "ret": r})
			return true
		}
		ok := true
		rounds := 1 + rng.Intn(4)
		for r := 0; r < rounds && ok; r++ {
			n := runLength(i*3 + r)
			if r == 0 && i < 18 {
				n = runLength(i)
			}
			every := 1 + rng.Intn(60)
			if i == 30 && r == 0 { // counters must not run out
				n, every = 66000+rng.Intn(1000), 997
			} else if i%40 == 31 && r == 0 {
				n, every = 2000+rng.Intn(3000), 97
			}
			if n == 0 {
				ok = full()
			}
			for a := 0; a < n && ok; a++ {
				id, ret := newId(k), 0
				k++
				if ok = t.do("Add", func() { ret = b.Add(as.real(id)) }); !ok {
					break
				}
				t.add(Ev{"op": "add", "id": id, "ret": ret})
				if a%every == 0 {
					ok = ok && read(rng.Intn(140)) && size()
				}
				if a%(every*5) == 1 {
					ok = ok && full()
				}
			}
			// reads before the first listing see no terminator
			for _, j := range []int{0, n - 1, n, n + 1, 127, 128, 1 << 30} {
				if j >= 0 && ok {
					ok = read(j)
				}
			}
			ok = ok && size() && full()
			for _, j := range []int{0, n - 1, n, n + 1, 127, 128} {
				if j >= 0 && ok {
					ok = read(j)
				}
			}
			ok = ok && full() && size()
			if r+1 < rounds && ok {
				if ok = t.do("Reset", func() { b.Reset() }); ok {
					t.add(Ev{"op": "reset"})
					if rng.Intn(2) == 0 {
						ok = size() && full() && read(0) && read(rng.Intn(128)) && read(127)
					}
				}
			}
		}
	}
	saveTraces(ts)
}

func cmdLsh() {
	var ts []*Trace
	for i := 0; i < pick(60, 6000); i++ {
		k := 1 + rng.Intn(5)
		l := 1 + rng.Intn(6)
		pow := rng.Intn(8)
		if i%6 == 5 {
			l = 1 + rng.Intn(24)
		}
		if i%12 == 7 {
			k, l, pow = 1+rng.Intn(10), 1+rng.Intn(60), 6+rng.Intn(8)
		}
		nb := 1 << uint(pow)
		t := newTrace(Ev{"l": l, "b": nb})
		ts = append(ts, t)
		var h *lsh.LSH
		if !t.do("New", func() { h = lsh.New(k, l, pow) }) {
			continue
		}
		as := someNumbering(i)
		hot := make([]int, 3)
		for j := range hot {
			hot[j] = rng.Intn(nb)
		}
		hot[rng.Intn(3)] = nb - 1
		ix := func(same bool) []int {
			v := make([]int, l)
			for j := range v {
				if rng.Intn(4) == 0 {
					v[j] = rng.Intn(nb)
				} else {
					v[j] = hot[rng.Intn(3)]
				}
				if same {
					v[j] = v[0]
				}
			}
			return v
		}
		raw := func(v []int) bool {
			var res [][]int
			if !t.do("RetrieveRaw", func() {
				res = nil
				for _, b := range h.RetrieveRaw(v) {
					res = append(res, as.models(b))
				}
			}) {
				return false
			}
			t.add(Ev{"op": "raw", "ix": v, "ret": res})
			return true
		}
		uniform := func(b int) []int {
			v := make([]int, l)
			for j := range v {
				v[j] = b
			}
			return v
		}
		dump := func() bool {
			for b := 0; b < nb; b++ {
				if nb <= 16 || b%(nb/8) == 0 || b == nb-1 || b == hot[0] || b == hot[1] || b == hot[2] {
					if !raw(uniform(b)) {
						return false
					}
				}
			}
			return true
		}
		n := 60 + rng.Intn(240)
		if i%4 == 0 {
			n = 500
		}
		if i%18 == 4 {
			n = 3000
		}
		ok := true
		var other *lsh.LSH
		for a := 0; a < n && ok; a++ {
			id := newId(a)
			if l*nb <= 4096 && rng.Intn(40) == 0 {
				if other == nil || rng.Intn(5) == 0 {
					if ok = t.do("Clone", func() { other = h.Clone() }); !ok {
						break
					}
					t.add(Ev{"op": "clone"})
				}
				if rng.Intn(2) == 0 {
					h, other = other, h
					t.add(Ev{"op": "swap"})
				}
			}
			switch c := rng.Intn(100); {
			case c < 55:
				v := ix(rng.Intn(5) == 0)
				var ret []int
				if ok = t.do("Add", func() { ret = cp(h.Add(v, as.real(id))) }); ok {
					t.add(Ev{"op": "add", "ix": v, "id": id, "ret": ret})
				}
			case c < 80:
				tb, b, ret := rng.Intn(l), hot[rng.Intn(3)], 0
				if ok = t.do("AddSingle", func() { ret = h.AddSingle(tb, b, as.real(id)) }); ok {
					t.add(Ev{"op": "single", "t": tb, "b": b, "id": id, "ret": ret})
				}
			case c < 86:
				ok = raw(ix(false))
			case c < 98:
				tb, b, s, ret := rng.Intn(l), hot[rng.Intn(3)], rng.Intn(132), 0
				if rng.Intn(2) == 0 {
					s = rng.Intn(20)
				}
				if ok = t.do("Retrieve", func() { ret = as.model(h.Retrieve(tb, b, s)) }); ok {
					t.add(Ev{"op": "read", "t": tb, "b": b, "i": s, "ret": ret})
				}
			case c == 98 && a > n/3:
				ok = dump()
				if ok {
					if ok = t.do("Clear", func() { h.Clear() }); ok {
						t.add(Ev{"op": "clear"})
						if rng.Intn(2) == 0 {
							ok = dump()
						}
					}
				}
			}
		}
		ok = ok && dump()
		if other != nil && ok {
			h, other = other, h
			t.add(Ev{"op": "swap"})
			ok = dump()
		}
		if ok {
			if ok = t.do("Clear", func() { h.Clear() }); ok {
				t.add(Ev{"op": "clear"})
				ok = dump()
			}
		}
		if other != nil && ok {
			h, other = other, h
			t.add(Ev{"op": "swap"})
			_ = dump()
		}
	}
	saveTraces(ts)
}
