package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/dataset"
	"github.com/nlpodyssey/goslide/dataset/xcrepo"
)

func init() { commands["reader"] = cmdReader }

type fileLine struct {
	Labels, Feats []string
}

type readerBehaviour struct {
	File struct {
		Header []string
		Lines  []fileLine
		Fault  int
		Empty  bool
	}
	Log []struct {
		Pos int
		Err string
		Ok  bool
	}
}

func oneOf(s ...string) string { return s[rng.Intn(len(s))] }

var errBroken = errors.New("broken disk")

// chunks hands out the text in pieces and then fails with err.
type chunks struct {
	text  string
	style int
	err   error
	with  bool // the error comes along with the last data
	stall int
}

func (c *chunks) Read(p []byte) (int, error) {
	if len(c.text) == 0 || len(p) == 0 {
		return 0, c.err
	}
	n := len(p)
	switch c.style {
	case 0:
		n = 1
	case 1:
		n = 1 + rng.Intn(7)
	case 2:
		n = 1 + rng.Intn(200)
	}
	if c.style == 3 && c.stall < 3 && rng.Intn(4) == 0 {
		c.stall++
		return 0, nil // allowed, if discouraged
	}
	c.stall = 0
	if n > len(p) {
		n = len(p)
	}
	if n > len(c.text) {
		n = len(c.text)
	}
	copy(p, c.text[:n])
	c.text = c.text[n:]
	if len(c.text) == 0 && c.with {
		return n, c.err
	}
	return n, nil
}

func someFloat() string {
	switch rng.Intn(7) {
	case 0:
		return strconv.Itoa(rng.Intn(100))
	case 1:
		return fmt.Sprintf("%g", rng.NormFloat64())
	case 2:
		return fmt.Sprintf("%.3f", -rng.Float64())
	case 3:
		return fmt.Sprintf("%e", rng.NormFloat64()*1e-8)
	case 4:
		return oneOf("0", "-0.5", "1e-3", "2.5E+2", "0.30000000000000004", "123456789.123456789", "1e300", "4.9e-324", "-0", "-0.0", "1e-400", "1.7976931348623157e308")
	case 5:
		return fmt.Sprintf("%.6f", rng.Float64())
	default:
		return fmt.Sprintf("%d.%d", rng.Intn(9), rng.Intn(1000000))
	}
}

func cmdReader() {
	count, reads, long, huge := 0, 0, 0, pick(8, 24)
	readBehaviours("prog.ndjson", func(raw []byte) {
		var b readerBehaviour
		must(json.Unmarshal(raw, &b))
		count++
		nf, nl := 1+rng.Intn(60), 1+rng.Intn(40)
		points := 1 + rng.Intn(1000)
		longValues := rng.Intn(3) * rng.Intn(2)
		if rng.Intn(4) == 0 { // as large as real ones, and larger
			nf, nl = 1+rng.Intn(1<<uint(1+rng.Intn(33))), 1+rng.Intn(1<<uint(1+rng.Intn(33)))
			points = 1 + rng.Intn(1<<uint(1+rng.Intn(40)))
		}
		var text strings.Builder
		nlText := "\n"
		if rng.Intn(8) == 0 {
			nlText = "\r\n"
		}
		if !b.File.Empty {
			var hs []string
			for k, c := range b.File.Header {
				switch c {
				case "ok":
					hs = append(hs, strconv.Itoa([]int{points, nf, nl, 3, 1}[k]))
				case "zero":
					hs = append(hs, "0")
				case "neg":
					hs = append(hs, oneOf("-1", "-77"))
				case "bad":
					hs = append(hs, oneOf("x", "1.5", "1,2", "3a", "0x10", "1e3", "12:1", "3\t", "\t3", "\v3", "1_0"))
				case "empty":
					hs = append(hs, "")
				}
			}
			text.WriteString(strings.Join(hs, " ") + nlText)
		}
		starts := []int{0, text.Len()}
		var want []dataset.Example
		lastText := "?"
		for _, line := range b.File.Lines {
			ex := dataset.Example{}
			var ls, fs []string
			for _, c := range line.Labels {
				x := rng.Intn(nl)
				if rng.Intn(3) == 0 {
					x = []int{0, nl - 1}[rng.Intn(2)]
				}
				s := strconv.Itoa(x)
				switch c {
				case "over":
					s = strconv.Itoa(nl + []int{0, 0, 1, rng.Intn(1000), 1 << 40}[rng.Intn(5)])
				case "neg":
					s = oneOf("-1", "-5", "-1000000")
				case "bad":
					s = oneOf("x", "1.0", "", "1:2", "0x1", "2a", "1e1", ";", "0\t", "\t0", "0\r", "0\v", "\u00a00", "0_0")
					if len(line.Labels) == 1 && s == "" {
						s = "?"
					}
				}
				ls = append(ls, s)
				ex.Labels = append(ex.Labels, x)
			}
			for _, c := range line.Feats {
				x := rng.Intn(nf)
				if rng.Intn(3) == 0 {
					x = []int{0, nf - 1}[rng.Intn(2)]
				}
				v := someFloat()
				if longValues > 0 && rng.Intn(40) == 0 {
					longValues--
					long++
					zeros := 66000 + rng.Intn(200000)
					if rng.Intn(60) == 0 && huge > 0 {
						huge--
						zeros = 1<<22 + rng.Intn(1<<24)
					}
					v = "0." + strings.Repeat("0", zeros) + "1"
					if rng.Intn(2) == 0 {
						v = strings.Repeat("0", zeros) + "7.25"
					}
				}
				f, err := strconv.ParseFloat(v, 64)
				must(err)
				s := strconv.Itoa(x) + ":" + v
				switch c {
				case "over":
					s = strconv.Itoa(nf+[]int{0, 0, 1, rng.Intn(1000), 1 << 40}[rng.Intn(5)]) + ":" + v
				case "neg":
					s = oneOf("-1", "-3") + ":" + v
				case "badindex":
					s = oneOf("x", "", "1.0", "0x1", "1e0", "1,1", "0\t", "\t0", "0\r", "0_0") + ":" + v
				case "badvalue":
					s = strconv.Itoa(x) + ":" + oneOf("x", "", "1,5", "--1", "1..2", "1e", "0.5f", "1\t", "\t1", "1e400", "-1e400", "2e308", "+-1")
				case "nocolon":
					s = oneOf("5", "x", "0.5", "1;2", "1=2", "#")
				case "colons":
					s = strconv.Itoa(x) + oneOf(":1:2", "::1", ":1:", "::")
				case "empty":
					s = ""
				}
				fs = append(fs, s)
				ex.Features = append(ex.Features, pairOf(x, f))
			}
			lastText = strings.Join(append([]string{strings.Join(ls, ",")}, fs...), " ")
			text.WriteString(lastText + nlText)
			starts = append(starts, text.Len())
			want = append(want, ex)
		}
		full := text.String()
		ended := error(io.EOF)
		with := rng.Intn(2) == 0
		if b.File.Fault > 0 {
			// break somewhere inside the line (or right before it)
			from := starts[b.File.Fault-1]
			to := len(full)
			if b.File.Fault < len(starts) {
				to = starts[b.File.Fault] - len(nlText)
			}
			at := from
			if to > from {
				at += rng.Intn(to - from + 1)
			}
			full, ended = full[:at], errBroken
			// data that comes along with the error may be lost
			with = false
		} else if lastText != "" && len(b.File.Lines) > 0 && rng.Intn(3) == 0 {
			full = strings.TrimSuffix(full, nlText)
		}
		fail := func(step int, what string, got interface{}) {
			shown := full
			if len(shown) > 20000 {
				shown = shown[:20000] + "..."
			}
			mismatch(Ev{"file": shown, "fault": b.File.Fault, "read": step, "what": what,
				"got": fmt.Sprint(got), "specified": b.Log[step], "labels": nl, "features": nf})
		}
		var got []dataset.Example
		step := 0
		style := rng.Intn(5)
		if len(full) > 1<<20 {
			style = 4 // each piece makes the reader look at the whole line again
		} else if len(full) > 1<<17 {
			style = 2 + rng.Intn(3)
		}
		p := try("xcrepo.Scanner", func() {
			sc := xcrepo.NewScanner(&chunks{text: full, style: style, err: ended, with: with})
			check := func(ok bool) {
				l := b.Log[step]
				if ok != l.Ok {
					fail(step, "success", ok)
				}
				kind := "none"
				err := sc.Err()
				for k, v := range map[string]error{
					"header": xcrepo.ErrMalformedHeader, "labels": xcrepo.ErrMalformedLabels,
					"labelbound": xcrepo.ErrLabelOutOfBounds, "missing": xcrepo.ErrMissingFeatures,
					"features": xcrepo.ErrMalformedFeatures, "featurebound": xcrepo.ErrFeatureIndexOutOfBounds,
					"io": errBroken,
				} {
					if errors.Is(err, v) {
						kind = k
					}
				}
				if kind == "none" && err != nil {
					kind = err.Error()
				}
				if kind != l.Err {
					fail(step, "error", kind)
				}
				n := sc.LineNumber()
				// an unreadable line may be counted or not
				slack := 0
				if l.Err == "io" || l.Err == "header" && b.File.Empty {
					slack = 1
				}
				if n < l.Pos || n > l.Pos+slack {
					fail(step, "line number", n)
				}
				if l.Err != "header" && !(l.Err == "io" && l.Pos == 0) &&
					(sc.TotalPoints() != points || sc.NumFeatures() != nf || sc.NumLabels() != nl) {
					fail(step, "header", fmt.Sprint(sc.TotalPoints(), sc.NumFeatures(), sc.NumLabels()))
				}
			}
			check(false)
			for step = 1; step < len(b.Log); step++ {
				ok := sc.Scan()
				reads++
				check(ok)
				if ok {
					got = append(got, sc.Example())
				}
			}
		})
		if p != "" {
			mismatch(Ev{"file": full[:min(len(full), 2000)], "read": step, "panic": p})
		}
		// all examples stay valid after the reader has moved on
		step = len(b.Log) - 1
		for k, g := range got {
			w := want[k]
			if len(g.Labels) != len(w.Labels) || len(g.Features) != len(w.Features) {
				fail(step, fmt.Sprintf("example %d", k+1), g)
			}
			for i := range w.Labels {
				if g.Labels[i] != w.Labels[i] {
					fail(step, fmt.Sprintf("labels of example %d", k+1), g)
				}
			}
			for i := range w.Features {
				if g.Features[i] != w.Features[i] ||
					math.Signbit(g.Features[i].Value) != math.Signbit(w.Features[i].Value) {
					fail(step, fmt.Sprintf("features of example %d", k+1), g)
				}
			}
		}
	})
	say("STAT behaviours=%d reads=%d long_lines=%d", count, reads, long)
}
