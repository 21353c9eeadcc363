package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/nlpodyssey/goslide/dataset"
)

func init() { commands["driver"] = cmdDriver }

// textRecord is one line of a dataset file and what the reader makes of it.
type textRecord struct {
	line string
	ex   dataset.Example
}

// someRecord draws a record that no other record of the run equals: id is the
// value of its first feature.
func someRecord(id float64, dim, labels int) textRecord {
	var r textRecord
	ls := []string{}
	ids := distinctLabels(labels, 2)
	if id < 0 && len(ids) > 0 && rng.Intn(8) == 0 { // for a test, said twice
		ids = append(ids, ids[rng.Intn(len(ids))])
	}
	if rng.Intn(8) == 0 {
		ids = nil
	}
	for _, x := range ids {
		r.ex.Labels = append(r.ex.Labels, x)
		ls = append(ls, strconv.Itoa(x))
	}
	fs := []string{}
	for k, f := range rng.Perm(dim)[:1+rng.Intn(dim)] {
		v := math.Round(rng.NormFloat64()*1000) / 1000
		if k == 0 {
			v = id
		}
		r.ex.Features = append(r.ex.Features, pairOf(f, v))
		fs = append(fs, fmt.Sprintf("%d:%v", f, v))
	}
	r.line = strings.Join(append([]string{strings.Join(ls, ",")}, fs...), " ")
	return r
}

func exampleKey(e dataset.Example) string {
	b, err := json.Marshal(struct{ L, F interface{} }{append([]int{}, e.Labels...), e.Features})
	must(err)
	return string(b)
}

// writeDataset writes n records, the bad-th (from 1) spoiled; -1: a bad
// header or no file at all.
func writeDataset(path string, rs []textRecord, bad, dim, labels int) {
	header := fmt.Sprintf("%d %d %d", len(rs)+1, dim, labels)
	if bad == -1 {
		if rng.Intn(2) == 0 {
			return
		}
		header = oneOf("", "5 5", "a b c", "0 1 1", "-3 4 4")
	}
	var b strings.Builder
	b.WriteString(header + "\n")
	for k, r := range rs {
		line := r.line
		if k+1 == bad {
			line = oneOf("0", "x 0:1", fmt.Sprintf("%d 0:1", labels), fmt.Sprintf("0 %d:1", dim), "0 0:y", "0 1", "0 0:1 :", "1,-1 0:1")
		}
		b.WriteString(line + "\n")
	}
	must(os.WriteFile(path, []byte(b.String()), 0o644))
}

var (
	epochLine   = regexp.MustCompile(`^Epoch (\d+)$`)
	runningLine = regexp.MustCompile(`^Iter (\d+) - (\S+) correct$`)
	overallLine = regexp.MustCompile(`^Over all: (\S+) correct$`)
	finalLine   = regexp.MustCompile(`^(\d+) (\S*[a-zµ]*s) (\S+)$`)
	announced   = regexp.MustCompile(`^(\d+) records, with (\d+) features and (\d+) labels$`)
	stamped     = regexp.MustCompile(`^(?:\d{4}/\d\d/\d\d )?(?:\d\d:\d\d:\d\d(?:\.\d+)? )?(?:\S+\.go:\d+: )?`)
	someInt     = regexp.MustCompile(`\d+`)
)

// accuracyOf: an accuracy in millionths; -1: not a number.
func accuracyOf(s string) int {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil || math.IsNaN(x) {
		return -1
	}
	if x > 1000 || x < -1000 {
		return -2
	}
	return int(math.Round(x * 1e6))
}

func cmdDriver() {
	prog := os.Getenv("VERIF_GOSLIDE")
	forStats := os.Getenv("VERIF_PROPERTY") == "C24"
	base := filepath.Join(outDir, "runs")
	var ts []*Trace
	reports := 0
	for i := 0; i < pick(150, 1500); i++ {
		dir := filepath.Join(base, strconv.Itoa(i))
		must(os.MkdirAll(dir, 0o755))
		batch := 1 + rng.Intn(5)
		if rng.Intn(6) == 0 {
			batch = 10
		}
		if i%15 == 8 { // as large as real ones
			batch = 32 + rng.Intn(200)
		}
		epochs := []int{1, 2, 2, 3, 0}[rng.Intn(5)]
		if i%15 == 9 {
			epochs = 4 + rng.Intn(9)
		}
		if rng.Intn(30) > 0 && epochs == 0 {
			epochs = 1
		}
		totRecords := batch*(1+rng.Intn(8)) + rng.Intn(batch)
		if rng.Intn(15) == 0 {
			totRecords = rng.Intn(batch)
		}
		if i%15 == 10 {
			totRecords = batch*(40+rng.Intn(200)) + rng.Intn(batch)
		}
		trainN := totRecords + []int{0, 0, 1, 7}[rng.Intn(4)]
		testN := []int{1, rng.Intn(10), batch * (1 + rng.Intn(6)), 20*batch + rng.Intn(5) - 2,
			50*batch + rng.Intn(5) - 2, 60 * batch}[rng.Intn(6)]
		testRecords := []int{testN, testN, testN + 3, testN / 2, 200 * batch}[rng.Intn(5)]
		if totRecords < batch {
			testN, testRecords = 1+testN, testN+batch // see Driver.tla
		}
		stepsize := 1 + rng.Intn(6)
		if rng.Intn(4) == 0 {
			stepsize = 20
		}
		if i%15 == 10 {
			stepsize = 1 + rng.Intn(50)
		}
		period := func() int {
			return []int{batch, 2 * batch, 3*batch + rng.Intn(batch), rng.Intn(batch), 1000, 7 * batch, 5}[rng.Intn(7)]
		}
		many := i%150 == 94 // predictions, nearly all of them right
		if many {
			batch, epochs, totRecords, stepsize = 1000, 1, 1000, 20
			trainN, testN, testRecords = 1000, 70000, 70000
		}
		rehash, rebuild := period(), period()
		mode := []int{1, 4, 4, 2, 3}[rng.Intn(5)]
		trainBad, testBad := 0, 0
		switch rng.Intn(8) {
		case 0:
			trainBad = 1 + rng.Intn(trainN+1)
			if trainBad > trainN || rng.Intn(6) == 0 {
				trainBad = -1
			}
		case 1:
			testBad = 1 + rng.Intn(testN+1)
			if testBad > testN || rng.Intn(6) == 0 {
				testBad = -1
			}
		}
		fam := 1 + rng.Intn(4)
		dim := 3 + rng.Intn(10)
		depth := 1 + rng.Intn(3)
		if many {
			trainBad, testBad, dim, depth = 0, 0, 3, 1
		}
		sizes, ks, ls, pows, sp := []int{}, []int{}, []int{}, []int{}, []float64{}
		for d := 0; d < depth; d++ {
			sizes = append(sizes, 10+rng.Intn(10))
			ks, ls = append(ks, 1), append(ls, 2+rng.Intn(3))
			pows = append(pows, rangeBits([]string{"wta", "dwta", "minhash", "srp"}[fam-1], 1))
			s := 1.0
			if d > 0 && rng.Intn(2) == 0 {
				s = 0.5
			}
			sp = append(sp, s)
		}
		sp = append(sp, sp...)
		labels := sizes[depth-1]
		train, test := []textRecord{}, []textRecord{}
		trainID, testID := map[string]int{}, map[string]int{}
		for k := 1; k <= trainN; k++ {
			r := someRecord(float64(k)+0.5, dim, labels)
			train = append(train, r)
			trainID[exampleKey(r.ex)] = k
		}
		for k := 1; k <= testN; k++ {
			r := someRecord(-float64(k)-0.25, dim, labels)
			if many && k%50 > 0 { // every class is right
				r.ex.Labels = everyone(labels)
				said := strings.Trim(strings.ReplaceAll(fmt.Sprint(r.ex.Labels), " ", ","), "[]")
				r.line = said + r.line[strings.Index(r.line, " "):]
			}
			test = append(test, r)
			testID[exampleKey(r.ex)] = k
		}
		writeDataset(filepath.Join(dir, "train.txt"), train, trainBad, dim, labels)
		writeDataset(filepath.Join(dir, "test.txt"), test, testBad, dim, labels)
		conf := Ev{"BatchSize": batch, "TotRecords": totRecords, "TotRecordsTest": testRecords, "Epoch": epochs,
			"Stepsize": stepsize, "Rehash": rehash, "Rebuild": rebuild, "LayerMode": mode, "HashFunction": fam,
			"InputDim": dim, "NumLayer": depth, "SizesOfLayers": sizes, "K": ks, "L": ls, "RangePow": pows,
			"Sparsity": sp, "LearningRate": []float64{0.1, 0.0001}[rng.Intn(2)], "UseAdam": rng.Intn(3) > 0,
			"TrainData": filepath.Join(dir, "train.txt"), "TestData": filepath.Join(dir, "test.txt")}
		// what equals the default need not be said
		for k, v := range map[string]interface{}{"Stepsize": 20, "Rehash": 1000, "Rebuild": 1000, "LayerMode": 4,
			"HashFunction": 2, "UseAdam": true, "NumLayer": 3} {
			if conf[k] == v && rng.Intn(2) == 0 {
				delete(conf, k)
			}
		}
		if rng.Intn(20) == 0 {
			conf["MemProfile"] = true
		}
		if rng.Intn(20) == 0 {
			conf["CpuProfile"] = true
		}
		b, err := json.Marshal(conf)
		must(err)
		must(os.WriteFile(filepath.Join(dir, "config.json"), b, 0o644))
		t := newTrace(Ev{"batch": batch, "totRecords": totRecords, "testRecords": testRecords, "epochs": epochs,
			"stepsize": stepsize, "rehash": rehash, "rebuild": rebuild, "mode": mode,
			"trainN": trainN, "testN": testN, "trainBad": trainBad, "testBad": testBad})
		args := []string{filepath.Join(dir, "config.json")}
		if rng.Intn(25) == 0 {
			// refused before anything is done
			switch rng.Intn(4) {
			case 0:
				args = nil
			case 1:
				args = append(args, args[0])
			case 2:
				args = []string{filepath.Join(dir, "none.json")}
			case 3:
				must(os.WriteFile(args[0], b[:len(b)-2], 0o644))
			}
			t.Cfg["trainBad"], t.Cfg["testBad"], t.Cfg["epochs"] = -1, -1, 1
		}
		ts = append(ts, t)

		log := filepath.Join(dir, "log.txt")
		f, err := os.OpenFile(log, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
		must(err)
		ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
		c := exec.CommandContext(ctx, prog, args...)
		c.Dir, c.Stderr = dir, f
		c.Env = append(os.Environ(), "GOSLIDE_VERIF_TRACE="+log)
		began := time.Now()
		err = c.Run()
		wall := int(time.Since(began) / time.Microsecond)
		hung := ctx.Err() != nil
		cancel()
		must(f.Close())
		if hung {
			say("HANG goslide did not end within 120s with %s", b)
			os.Exit(3)
		}
		if _, exited := err.(*exec.ExitError); err != nil && !exited {
			must(err)
		}
		code := c.ProcessState.ExitCode()
		text, err := os.ReadFile(log)
		must(err)
		recs := func(exs []dataset.Example, ids map[string]int) []int {
			l := []int{}
			for _, e := range exs {
				l = append(l, ids[exampleKey(e)])
			}
			return l
		}
		sc := bufio.NewScanner(bytes.NewReader(text))
		sc.Buffer(nil, 1<<26)
		rest := []string{}
		for sc.Scan() {
			line := stamped.ReplaceAllString(sc.Text(), "")
			if strings.HasPrefix(line, `{"Ev"`) {
				var e struct {
					Ev              string
					Iter, Correct   int
					Rehash, Rebuild bool
					Examples        []dataset.Example
				}
				must(json.Unmarshal([]byte(line), &e))
				fs, ls := 0, 0
				for _, x := range e.Examples {
					fs, ls = fs+len(x.Features), ls+len(x.Labels)
				}
				if e.Ev == "train" {
					t.add(Ev{"op": "train", "iter": e.Iter, "rehash": e.Rehash, "rebuild": e.Rebuild,
						"recs": recs(e.Examples, trainID)})
				} else if e.Ev == "predict" {
					t.add(Ev{"op": "predict", "recs": recs(e.Examples, testID), "n": len(e.Examples), "right": e.Correct,
						"features": fs, "labels": ls})
				}
				rest = nil
			} else if m := epochLine.FindStringSubmatch(line); m != nil {
				k, _ := strconv.Atoi(m[1])
				t.add(Ev{"op": "epoch", "k": k})
				rest = nil
			} else if m := announced.FindStringSubmatch(line); m != nil {
				n, _ := strconv.Atoi(m[1])
				fs, _ := strconv.Atoi(m[2])
				ls, _ := strconv.Atoi(m[3])
				if forStats {
					t.add(Ev{"op": "announce", "n": n, "features": fs, "labels": ls})
				}
			} else if m := runningLine.FindStringSubmatch(line); m != nil {
				reports++
				t.add(Ev{"op": "running", "x": accuracyOf(m[2])})
				rest = nil
			} else if m := overallLine.FindStringSubmatch(line); m != nil {
				reports++
				t.add(Ev{"op": "overall", "x": accuracyOf(m[1])})
				rest = nil
			} else if m := finalLine.FindStringSubmatch(line); m != nil {
				reports++
				k, _ := strconv.Atoi(m[1])
				us := -1
				if d, err := time.ParseDuration(m[2]); err == nil {
					us = int(math.Floor(float64(d) / 1000))
				}
				t.add(Ev{"op": "final", "iter": k, "us": us, "wall": wall, "x": accuracyOf(m[3])})
				rest = nil
			} else {
				rest = append(rest, line)
			}
		}
		must(sc.Err())
		lines := []int{}
		for _, s := range someInt.FindAllString(strings.Join(rest, "\n"), -1) {
			if n, err := strconv.Atoi(s); err == nil && n < 1<<30 {
				lines = append(lines, n)
			}
		}
		if code != 0 && strings.Contains(strings.Join(rest, "\n"), "goroutine ") {
			// a crash is not an orderly end
			t.add(Ev{"op": "crash", "msg": strings.Join(rest, "\n")[:min(2000, len(strings.Join(rest, "\n")))]})
		} else {
			t.add(Ev{"op": "exit", "code": code, "lines": lines})
		}
		must(os.RemoveAll(dir))
	}
	say("STAT reports=%d", reports)
	// the schedule and the reports are judged separately
	var schedule []*Trace
	for _, t := range ts {
		s := newTrace(t.Cfg)
		for _, e := range t.Ev {
			if op := e["op"]; op != "running" && op != "overall" {
				s.add(e)
			}
		}
		schedule = append(schedule, s)
	}
	if os.Getenv("VERIF_PROPERTY") == "C21" {
		saveTraces(schedule)
	} else {
		saveTraces(ts)
	}
}
