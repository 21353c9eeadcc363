// Command vharness drives the real goslide code and records what it does, or
// replays behaviours of the TLA+ specifications on it. It uses only exported
// API (plus look-ups of unexported fields by type, never by name).
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"sync/atomic"
	"time"

	"github.com/nlpodyssey/goslide/index_value"
)

type Ev = map[string]interface{}

type Trace struct {
	Cfg Ev   `json:"cfg"`
	Ev  []Ev `json:"ev"`
}

func (t *Trace) add(e Ev) { t.Ev = append(t.Ev, e) }

func newTrace(cfg Ev) *Trace { return &Trace{Cfg: cfg, Ev: []Ev{}} }

var (
	realOut  = os.Stdout
	outDir   string
	thorough bool
	rng      *rand.Rand
	seed     int64
)

// watchdog: the call into the code under test that is running now, if any.
var (
	callStart atomic.Int64
	callWhat  atomic.Value
)

const callLimit = 90 * time.Second

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		s := callStart.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > callLimit {
			fmt.Fprintf(realOut, "HANG %v did not return within %v\n", callWhat.Load(), callLimit)
			os.Exit(3)
		}
	}
}

// try runs one call into the code under test and returns its panic, if any.
func try(what string, f func()) (p string) {
	callWhat.Store(what)
	callStart.Store(time.Now().UnixNano())
	defer func() {
		callStart.Store(0)
		if r := recover(); r != nil {
			p = fmt.Sprint(r)
			if p == "" {
				p = "panic"
			}
			if os.Getenv("VERIF_STACK") != "" {
				fmt.Fprintln(os.Stderr, p, string(debug.Stack()))
			}
		}
	}()
	f()
	return ""
}

// do runs a call; if it panics, the trace gets an event that no specification
// allows, and do reports false.
func (t *Trace) do(what string, f func()) bool {
	if p := try(what, f); p != "" {
		t.add(Ev{"op": "panic", "what": what, "msg": p})
		return false
	}
	return true
}

func writeJSON(name string, v interface{}) {
	f, err := os.Create(outDir + "/" + name)
	must(err)
	enc := json.NewEncoder(f)
	enc.SetEscapeHTML(false)
	must(enc.Encode(v))
	must(f.Close())
}

func readJSON(name string, v interface{}) {
	b, err := os.ReadFile(outDir + "/" + name)
	must(err)
	must(json.Unmarshal(b, v))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(4)
	}
}

func say(format string, a ...interface{}) { fmt.Fprintf(realOut, format+"\n", a...) }

func cp(s []int) []int { return append([]int{}, s...) }

// Owner ids mean nothing but their identity: any number may be one, also one
// that looks like another's when cut short or without its sign.
var (
	ownersUsed map[int]int // and the number each has in the trace
	ownersList []int
)

// firstOwner starts a history of its own; newOwner is one nobody in it uses.
func firstOwner() int {
	ownersUsed, ownersList = map[int]int{}, nil
	return newOwner()
}

func newOwner() int {
	for {
		x := rng.Intn(9) - 3
		switch rng.Intn(4) {
		case 0, 1:
			x = rng.Intn(1<<31-1) - 1<<30
		case 2:
			if len(ownersList) > 0 {
				x = ownersList[rng.Intn(len(ownersList))]
				if d := rng.Intn(6); d < 5 {
					x += []int{1 << 8, -1 << 16, 1 << 16, 1 << 31, 1 << 32}[d] * (1 + rng.Intn(3))
				} else {
					x = -x
				}
			}
		}
		if _, used := ownersUsed[x]; !used {
			ownersUsed[x] = len(ownersList)
			ownersList = append(ownersList, x)
			return x
		}
	}
}

// ownerNo is the number a trace knows an owner by.
func ownerNo(owner int) int {
	n, ok := ownersUsed[owner]
	if !ok {
		must(fmt.Errorf("owner %d is unknown", owner))
	}
	return n
}

func pick(q, t int) int {
	if thorough {
		return t
	}
	return q
}

func saveTraces(ts []*Trace) {
	n := 0
	for _, t := range ts {
		n += len(t.Ev)
	}
	writeJSON("traces.json", ts)
	say("STAT traces=%d events=%d", len(ts), n)
}

var commands = map[string]func(){}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vharness COMMAND DIR")
		os.Exit(4)
	}
	outDir = os.Args[2]
	seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	thorough = os.Getenv("VERIF_TIER") == "thorough"
	rng = rand.New(rand.NewSource(seed*1000003 + int64(len(os.Args[1]))))
	rand.Seed(rng.Int63()) // the code under test uses the global source
	f, ok := commands[os.Args[1]]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown command", os.Args[1])
		os.Exit(4)
	}
	// the code under test prints progress
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	must(err)
	os.Stdout = null
	go watchdog()
	f()
}

func pairOf(i int, v float64) index_value.Pair { return index_value.Pair{Index: i, Value: v} }
