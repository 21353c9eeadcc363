package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"

	"github.com/nlpodyssey/goslide/configuration"
)

func init() { commands["config"] = cmdConfig }

type setting struct {
	Name, Type string
	Value      interface{} `json:"-"` // number or list of numbers
}

func asInts(v interface{}) []int {
	l := []int{}
	for _, x := range v.([]interface{}) {
		l = append(l, int(x.(float64)))
	}
	return l
}

// floats are counted in units of 0.0001
func floatText(n int) string { return fmt.Sprintf("%d.%04d", n/10000, n%10000) }

func floatOf(n int) float64 {
	f, err := strconv.ParseFloat(floatText(n), 64)
	must(err)
	return f
}

func stringOf(n int) string {
	if n == 0 {
		return ""
	}
	return []string{"data/train.txt", "/x y/ü€", "quo\"te", "back\\slash", "a,b", "true", "12", "тест"}[n%8] +
		strconv.Itoa(n)
}

// value gives a number (or list) the Go value of the setting.
func (s setting) value() interface{} {
	switch s.Type {
	case "ints":
		return asInts(s.Value)
	case "floats":
		l := []float64{}
		for _, n := range asInts(s.Value) {
			l = append(l, floatOf(n))
		}
		return l
	}
	n := int(s.Value.(float64))
	switch s.Type {
	case "bool":
		return n == 1
	case "float":
		return floatOf(n)
	case "string":
		return stringOf(n)
	}
	return n
}

func floatJSON(n int) string {
	t := floatText(n)
	if rng.Intn(4) == 0 {
		t = fmt.Sprintf("%de-4", n)
	}
	return t
}

func (s setting) json() string {
	sep := oneOf(",", ", ", " ,\n\t")
	switch s.Type {
	case "ints", "floats":
		l := []string{}
		for _, n := range asInts(s.Value) {
			if s.Type == "ints" {
				l = append(l, strconv.Itoa(n))
			} else {
				l = append(l, floatJSON(n))
			}
		}
		return "[" + strings.Join(l, sep) + "]"
	case "float":
		return floatJSON(int(s.Value.(float64)))
	}
	b, err := json.Marshal(s.value())
	must(err)
	return string(b)
}

func illTyped(t string) string {
	switch t {
	case "ints":
		return oneOf(`"1,2"`, `[1,"2"]`, `7`, `[1.5]`, `{"0":1}`, `[[1]]`)
	case "floats":
		return oneOf(`"0.5"`, `[0.5,"x"]`, `0.5`, `[true]`)
	case "bool":
		return oneOf(`"true"`, `1`, `[]`)
	case "string":
		return oneOf(`5`, `false`, `["x"]`)
	case "float":
		return oneOf(`"0.1"`, `true`, `[0.1]`)
	default:
		return oneOf(`"3"`, `1.5`, `[3]`, `true`, `1e99`, `99999999999999999999`)
	}
}

type configStep struct {
	Op, Result, Kind string
	Held             [][]interface{}
	Pairs            []struct {
		S int
		V interface{}
	}
	Bad, H, S, I, V int
	Same, Extra     bool
}

func fieldOf(c *configuration.Configuration, name string) reflect.Value {
	v := reflect.ValueOf(c).Elem().FieldByName(name)
	if !v.IsValid() {
		must(fmt.Errorf("no setting %s", name))
	}
	return v
}

func setField(c *configuration.Configuration, name string, val interface{}) {
	v := fieldOf(c, name)
	v.Set(reflect.ValueOf(val).Convert(v.Type()))
}

// same compares a setting with the specified value; nil and empty lists are alike.
func sameSetting(v reflect.Value, val interface{}) bool {
	w := reflect.ValueOf(val)
	if w.Kind() == reflect.Slice {
		if v.Len() != w.Len() {
			return false
		}
		for i := 0; i < w.Len(); i++ {
			if v.Index(i).Interface() != w.Index(i).Interface() {
				return false
			}
		}
		return true
	}
	return v.Interface() == w.Convert(v.Type()).Interface()
}

func cmdConfig() {
	count, loads, errs, compared := 0, 0, 0, 0
	dir := filepath.Join(outDir, "files")
	must(os.MkdirAll(dir, 0o755))
	initial := configuration.Global
	readBehaviours("prog.ndjson", func(raw []byte) {
		var b struct {
			Settings []setting
			Log      []configStep
		}
		must(json.Unmarshal(raw, &b))
		if count > 0 {
			initial = configuration.Default()
		}
		count++
		configuration.Global = initial
		real := []*configuration.Configuration{initial}
		history := []Ev{}
		fail := func(what string, more Ev) {
			more["history"] = history
			more["what"] = what
			mismatch(more)
		}
		write := func(name, text string) string {
			path := filepath.Join(dir, name)
			must(os.WriteFile(path, []byte(text), 0o644))
			return path
		}
		with := func(s int, v interface{}) setting {
			x := b.Settings[s-1]
			x.Value = v
			return x
		}
		object := func(ss []setting, more ...string) string {
			l := append([]string{}, more...)
			for _, s := range ss {
				l = append(l, fmt.Sprintf("%q:%s%s", s.Name, oneOf("", " ", "\n  "), s.json()))
			}
			rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
			return oneOf("{", " {\n", "{ ") + strings.Join(l, oneOf(",", ",\n")) + oneOf("}", "}\n", " } ")
		}
		load := func(path, text string) (c *configuration.Configuration, err error) {
			loads++
			history = append(history, Ev{"op": "load", "text": text})
			if p := try("FromJsonFile", func() { c, err = configuration.FromJsonFile(path) }); p != "" {
				fail("panic: "+p, Ev{})
			}
			return
		}
		for _, st := range b.Log {
			if st.Op == "done" {
				break
			}
			var pairs []setting
			for _, p := range st.Pairs {
				pairs = append(pairs, with(p.S, p.V))
			}
			switch st.Op {
			case "load":
				more := []string{}
				if st.Extra {
					more = append(more, oneOf(`"comment":"x"`, `"Unknown":[1,{"K":[9]}]`, `"Layers":{"Epoch":3}`))
				}
				name := "config.json"
				if !st.Same {
					name = fmt.Sprintf("c%d.json", rng.Intn(100))
				}
				text := object(pairs, more...)
				c, err := load(write(name, text), text)
				if err != nil || c == nil {
					fail("a well-formed file is refused", Ev{"error": fmt.Sprint(err)})
				}
				real = append(real, c)
			case "default":
				history = append(history, Ev{"op": "default"})
				real = append(real, configuration.Default())
			case "bad":
				errs++
				text := object(pairs)
				path := filepath.Join(dir, "missing", "config.json")
				switch st.Kind {
				case "malformed":
					t := strings.TrimSpace(text)
					text = oneOf(t[:len(t)-1], t+"}", t+"x", "", "{", "[1,2", strings.Replace(t, "{", "{,", 1),
						"\xff\xfe"+t, t+t)
					path = write("malformed.json", text)
				case "illtyped":
					bad := b.Settings[st.Bad-1]
					ps := []setting{}
					for _, p := range pairs {
						if p.Name != bad.Name {
							ps = append(ps, p)
						}
					}
					text = object(ps, fmt.Sprintf("%q: %s", bad.Name, illTyped(bad.Type)))
					if rng.Intn(10) == 0 {
						text = oneOf("[]", "5", `"x"`, "true")
					}
					path = write("illtyped.json", text)
				case "missing":
					if rng.Intn(2) == 0 {
						path = dir // a folder
					}
					text = path
				}
				c, err := load(path, text)
				if err == nil {
					fail("no error for a bad file", Ev{"kind": st.Kind})
				}
				if c != nil {
					fail("a configuration along with an error", Ev{"kind": st.Kind})
				}
			case "set":
				history = append(history, Ev{"op": "set", "configuration": st.H, "name": pairs[0].Name, "value": pairs[0].value()})
				setField(real[st.H-1], pairs[0].Name, pairs[0].value())
			case "element", "append":
				name := b.Settings[st.S-1].Name
				f := fieldOf(real[st.H-1], name)
				history = append(history, Ev{"op": st.Op, "configuration": st.H, "name": name, "i": st.I, "value": st.V})
				x := reflect.ValueOf(st.V)
				if f.Type().Elem().Kind() == reflect.Float64 {
					x = reflect.ValueOf(floatOf(st.V))
				}
				if st.Op == "element" {
					f.Index(st.I - 1).Set(x)
				} else {
					f.Set(reflect.Append(f, x))
				}
			}
			if configuration.Global != initial {
				fail("the configuration in force was replaced", Ev{})
			}
			if len(st.Held) != len(real) {
				must(fmt.Errorf("%d configurations held, %d specified", len(real), len(st.Held)))
			}
			for h, vs := range st.Held {
				for k, v := range vs {
					compared++
					x := with(k+1, v)
					if got := fieldOf(real[h], x.Name); !sameSetting(got, x.value()) {
						fail("setting", Ev{"configuration": h + 1, "name": x.Name,
							"got": fmt.Sprint(got.Interface()), "specified": fmt.Sprint(x.value())})
					}
				}
			}
		}
	})
	say("STAT behaviours=%d loads=%d bad_files=%d settings_compared=%d", count, loads, errs, compared)
}
