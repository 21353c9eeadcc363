package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { commands["launch"] = cmdLaunch }

type launchOutcome struct {
	Env struct {
		Args, Epochs, Nb, Tb        int
		Conf, Train, Test, Cpu, Mem string
	}
	Trained, Evaluated, Code int
	Built                    bool
	Files                    []string
}

// snapshot: the contents of all files below a directory.
func snapshot(dir string) map[string]string {
	m := map[string]string{}
	must(filepath.Walk(dir, func(path string, info os.FileInfo, err error) error {
		must(err)
		what := "directory"
		if !info.IsDir() {
			b, err := os.ReadFile(path)
			must(err)
			what = string(b)
		}
		rel, _ := filepath.Rel(dir, path)
		m[rel] = what
		return nil
	}))
	return m
}

// launch runs the program in one environment; it returns what is wrong.
func launch(o launchOutcome, rng *rand.Rand, base, prog string) (wrong, shown string) {
	oneOf := func(s ...string) string { return s[rng.Intn(len(s))] }
	must(os.MkdirAll(filepath.Join(base, "data"), 0o755))
	must(os.MkdirAll(filepath.Join(base, "cwd"), 0o755))
	must(os.MkdirAll(filepath.Join(base, "log"), 0o755))
	batch := 1 + rng.Intn(3)
	dim, depth := 3+rng.Intn(5), 1+rng.Intn(3)
	fam := 1 + rng.Intn(4)
	sizes, ks, ls, pows, sp := []int{}, []int{}, []int{}, []int{}, []float64{}
	for d := 0; d < depth; d++ {
		sizes = append(sizes, 8+rng.Intn(5))
		ks, ls = append(ks, 1), append(ls, 2+rng.Intn(3))
		pows = append(pows, rangeBits([]string{"wta", "dwta", "minhash", "srp"}[fam-1], 1))
		sp = append(sp, 1)
	}
	dim += 8
	labels := sizes[depth-1]
	data := func(kind, name string, n int) string {
		path := filepath.Join(base, "data", name)
		head, lines := fmt.Sprintf("%d %d %d\n", max(1, n), dim, labels), ""
		for k := 0; k < n; k++ {
			lines += fmt.Sprintf("%d %d:1.5 %d:-0.25\n", rng.Intn(labels), rng.Intn(dim), rng.Intn(dim))
		}
		switch kind {
		case "missing":
			return path
		case "directory":
			must(os.Mkdir(path, 0o755))
			return path
		case "empty":
			head, lines = "", ""
		case "badheader":
			head = oneOf("\n", "5 5\n", "a b c\n", "0 1 1\n", fmt.Sprintf("%d %d\n", n, dim), "1 2 -3\n", "1:1 2 3\n", lines[:strings.Index(lines, "\n")+1])
		}
		must(os.WriteFile(path, []byte(head+lines), 0o644))
		return path
	}
	conf := Ev{"BatchSize": batch, "TotRecords": o.Env.Nb*batch + rng.Intn(batch), "TotRecordsTest": o.Env.Tb * batch,
		"Epoch": o.Env.Epochs, "Stepsize": 100, "LayerMode": 1 + rng.Intn(4), "HashFunction": fam, "InputDim": dim,
		"NumLayer": depth, "SizesOfLayers": sizes, "K": ks, "L": ls, "RangePow": pows, "Sparsity": append(sp, sp...),
		"TrainData": data(o.Env.Train, "train", (o.Env.Nb+1)*batch),
		"TestData":  data(o.Env.Test, "test", o.Env.Tb*batch),
		"UseAdam":   rng.Intn(2) == 0}
	cwd := filepath.Join(base, "cwd")
	for _, p := range [][2]string{{o.Env.Cpu, "cpu"}, {o.Env.Mem, "mem"}} {
		if p[0] != "no" {
			conf[strings.Title(p[1])+"Profile"] = true
		}
		if p[0] != "blocked" && rng.Intn(3) == 0 { // left over from another run
			must(os.WriteFile(filepath.Join(cwd, p[1]+".prof"), bytes.Repeat([]byte("stale"), 1+rng.Intn(40000)), 0o644))
		}
		if p[0] == "blocked" { // where the profile would go there is a directory
			must(os.Mkdir(filepath.Join(cwd, p[1]+".prof"), 0o755))
		}
	}
	b, err := json.Marshal(conf)
	must(err)
	text := string(b)
	path := filepath.Join(cwd, oneOf("config.json", "goslide.json", "c"))
	switch o.Env.Conf {
	case "empty":
		text = oneOf("", "\n", "  ")
	case "truncated":
		text = text[:1+rng.Intn(len(text)-1)]
	case "mistyped":
		conf[oneOf("BatchSize", "Epoch", "Rehash")] = oneOf("3", "", "x")
		b, err = json.Marshal(conf)
		must(err)
		text = string(b)
	case "trailing":
		text += oneOf("}", " x", " {}", ",", "\n[]")
	case "notobject":
		text = oneOf("[]", "5", `"x"`, "true", "["+text+"]")
	}
	switch o.Env.Conf {
	case "missing":
	case "directory":
		must(os.Mkdir(path, 0o755))
	default:
		must(os.WriteFile(path, []byte(text), 0o644))
	}
	args := []string{path, oneOf(path, "-h", "", "x"), oneOf("--", "y")}[:o.Env.Args]
	before := [2]map[string]string{snapshot(cwd), snapshot(filepath.Join(base, "data"))}

	log := filepath.Join(base, "log", "log")
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, prog, args...)
	var stderr bytes.Buffer
	c.Dir, c.Stderr = cwd, &stderr
	c.Env = append(os.Environ(), "GOSLIDE_VERIF_TRACE="+log)
	err = c.Run()
	said := stderr.String()
	shown = fmt.Sprintf("goslide %q, configuration %s, it says %.1500s", args, text, said)
	if ctx.Err() != nil {
		return "it does not end", shown
	}
	if _, exited := err.(*exec.ExitError); err != nil && !exited {
		must(err)
	}
	code := c.ProcessState.ExitCode()
	built, trained, evaluated := false, 0, 0
	if b, err := os.ReadFile(log); err == nil {
		dec := json.NewDecoder(bytes.NewReader(b))
		for dec.More() {
			var e struct {
				Ev       string
				Examples []json.RawMessage
			}
			must(dec.Decode(&e))
			switch e.Ev {
			case "train":
				trained++
			case "predict":
				if len(e.Examples) > 0 {
					evaluated++
				}
			default:
				built = true
			}
		}
	}
	after := [2]map[string]string{snapshot(cwd), snapshot(filepath.Join(base, "data"))}
	switch {
	case (code == 0) != (o.Code == 0):
		return fmt.Sprintf("it exits with %d", code), shown
	case code != 0 && strings.TrimSpace(said) == "":
		return "it fails without a word", shown
	case code != 0 && strings.Contains(said, "goroutine "):
		return "it crashes", shown
	case built != o.Built:
		return fmt.Sprintf("a network was built: %v", built), shown
	case trained != o.Trained && !(trained == 0 && o.Evaluated == 0 && o.Env.Test != "ok"):
		// a test file that cannot be read may be found out early
		return fmt.Sprintf("%d batches were trained", trained), shown
	case evaluated != o.Evaluated:
		return fmt.Sprintf("%d batches were evaluated", evaluated), shown
	}
	profile := func(k int, name string) bool {
		for _, f := range o.Files {
			if k == 0 && name == f+".prof" {
				return true
			}
		}
		return false
	}
	for k, was := range before {
		for name, text := range was {
			if profile(k, name) {
				continue
			}
			if now, ok := after[k][name]; !ok || now != text {
				return "it changed " + name, shown
			}
		}
		for name, text := range after[k] {
			if _, ok := was[name]; !ok && !profile(k, name) {
				return "it made " + name, shown
			}
			if code == 0 && profile(k, name) && !isProfile(text) {
				return name + " is no profile", shown
			}
		}
	}
	if code == 0 {
		for _, f := range o.Files {
			if _, ok := after[0][f+".prof"]; !ok {
				return "it did not write " + f + ".prof", shown
			}
		}
	}
	return "", shown
}

// isProfile: a complete compressed profile, nothing else.
func isProfile(text string) bool {
	r, err := gzip.NewReader(strings.NewReader(text))
	if err != nil {
		return false
	}
	b, err := io.ReadAll(r)
	return err == nil && len(b) > 0
}

func cmdLaunch() {
	var os_ []launchOutcome
	var raws []string
	for round := 0; round < pick(1, 20); round++ {
		readBehaviours("prog.ndjson", func(raw []byte) {
			var o launchOutcome
			must(json.Unmarshal(raw, &o))
			sort.Strings(o.Files)
			os_, raws = append(os_, o), append(raws, string(raw))
		})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	bad, badOf := "", -1
	next := make(chan int)
	refused := 0
	first := rng.Int63()
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				base := filepath.Join(outDir, "runs", strconv.Itoa(i))
				wrong, shown := launch(os_[i], rand.New(rand.NewSource(first+int64(i))), base, os.Getenv("VERIF_GOSLIDE"))
				must(os.RemoveAll(base))
				mu.Lock()
				if wrong != "" && (badOf < 0 || i < badOf) {
					bad, badOf = wrong+": "+shown, i
				}
				if os_[i].Code != 0 {
					refused++
				}
				mu.Unlock()
			}
		}()
	}
	for i := range os_ {
		next <- i
	}
	close(next)
	wg.Wait()
	if badOf >= 0 {
		mismatch(Ev{"what": bad, "specified": json.RawMessage(raws[badOf])})
	}
	say("STAT runs=%d refused=%d", len(os_), refused)
}
