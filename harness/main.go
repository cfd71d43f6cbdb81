package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"
)

// Step is one step of a behaviour, as printed by the specification.
type Step map[string]interface{}

func (s Step) Str(k string) string {
	v, _ := s[k].(string)
	return v
}

func (s Step) Int(k string) int {
	v, _ := s[k].(float64)
	return int(v)
}

func (s Step) Bool(k string) bool {
	v, _ := s[k].(bool)
	return v
}

func (s Step) Has(k string) bool {
	_, ok := s[k]
	return ok
}

func (s Step) Map(k string) Step {
	v, _ := s[k].(map[string]interface{})
	return Step(v)
}

func (s Step) Strs(k string) []string { return toStrs(s[k]) }

func (s Step) List(k string) []interface{} { return toList(s[k]) }

func toList(v interface{}) []interface{} {
	switch v := v.(type) {
	case []interface{}:
		return v
	case map[string]interface{}:
		if l, ok := v["set"]; ok {
			return toList(l)
		}
	}
	return nil
}

func toStrs(v interface{}) []string {
	l := []string{}
	for _, e := range toList(v) {
		if s, ok := e.(string); ok {
			l = append(l, s)
		}
	}
	return l
}

// Module replays the behaviours of one specification.
type Module interface {
	// Do performs one step on the real code and returns what was observed.
	Do(step Step) (interface{}, error)
	Close()
}

var modules = map[string]func(init Step) (Module, error){}

// logSource is implemented by modules with a server log.
type logSource interface{ ServerLog() string }

// norm converts a value to plain JSON values.
func norm(v interface{}) interface{} {
	b, err := json.Marshal(v)
	if err != nil {
		fatal("failed to marshal: %v", err)
	}
	var out interface{}
	if err := json.Unmarshal(b, &out); err != nil {
		fatal("failed to unmarshal: %v", err)
	}
	return out
}

func isEmpty(v interface{}) bool {
	switch v := v.(type) {
	case nil:
		return true
	case []interface{}:
		return len(v) == 0
	case map[string]interface{}:
		for _, e := range v {
			if !isEmpty(e) {
				return false
			}
		}
		return true
	}
	return false
}

// match compares an expectation of the specification with an observation.
// {"set": [...]} is unordered, {"oneof": [...]} leaves a choice to the
// implementation, {"any": ...} says nothing.
func match(exp, got interface{}) bool {
	if m, ok := exp.(map[string]interface{}); ok {
		if _, ok := m["any"]; ok && len(m) == 1 {
			return true
		}
		if l, ok := m["oneof"]; ok && len(m) == 1 {
			for _, e := range toList(l) {
				if match(e, got) {
					return true
				}
			}
			return false
		}
		if l, ok := m["set"]; ok && len(m) == 1 {
			if gm, ok := got.(map[string]interface{}); ok && len(gm) == 1 && gm["set"] != nil {
				got = gm["set"]
			}
			return matchSet(toList(l), toList(got)) && (got == nil || toListOK(got))
		}
	}
	if isEmpty(exp) && isEmpty(got) {
		return true
	}
	switch exp := exp.(type) {
	case map[string]interface{}:
		g, ok := got.(map[string]interface{})
		if !ok {
			return false
		}
		for k, v := range exp {
			if !match(v, g[k]) {
				return false
			}
		}
		for k, v := range g {
			if _, ok := exp[k]; !ok && !isEmpty(v) {
				return false
			}
		}
		return true
	case []interface{}:
		g, ok := got.([]interface{})
		if !ok || len(g) != len(exp) {
			return false
		}
		for i := range exp {
			if !match(exp[i], g[i]) {
				return false
			}
		}
		return true
	default:
		return exp == got
	}
}

func toListOK(v interface{}) bool {
	switch v.(type) {
	case []interface{}:
		return true
	case map[string]interface{}:
		return isEmpty(v)
	}
	return false
}

func matchSet(exp, got []interface{}) bool {
	if len(exp) != len(got) {
		return false
	}
	used := make([]bool, len(got))
next:
	for _, e := range exp {
		for i, g := range got {
			if !used[i] && match(e, g) {
				used[i] = true
				continue next
			}
		}
		return false
	}
	return true
}

func js(v interface{}) string {
	b, _ := json.Marshal(v)
	return string(b)
}

type result struct {
	I      int         `json:"i"`
	OK     bool        `json:"ok"`
	Steps  int         `json:"steps"`
	At     int         `json:"at,omitempty"`
	Reason string      `json:"reason,omitempty"`
	Op     string      `json:"op,omitempty"`
	Exp    interface{} `json:"exp,omitempty"`
	Got    interface{} `json:"got,omitempty"`
	Log    string      `json:"log,omitempty"`
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func serverPanic(m Module) string {
	ls, ok := m.(logSource)
	if !ok {
		return ""
	}
	s := ls.ServerLog()
	if i := strings.Index(s, "panic "); i >= 0 {
		e := i + 3000
		if e > len(s) {
			e = len(s)
		}
		return s[i:e]
	}
	return ""
}

func runBehaviour(i int, mod string, steps []Step) (res result) {
	res.I = i
	init := Step{}
	off := 0
	if len(steps) > 0 && steps[0].Str("op") == "init" {
		init = steps[0]
		off = 1
	}
	f := modules[mod]
	if f == nil {
		fatal("unknown module %q", mod)
	}
	m, err := f(init)
	if err != nil {
		if m != nil {
			if ls, ok := m.(logSource); ok {
				res.Log = tail(ls.ServerLog(), 6000)
			}
			m.Close()
		}
		res.Reason = "init: " + err.Error()
		return res
	}
	defer m.Close()
	for j := off; j < len(steps); j++ {
		st := steps[j]
		t0 := time.Now()
		got, err := m.Do(st)
		if os.Getenv("VERIF_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%v %v %v\n", j, st.Str("op"), time.Since(t0))
		}
		g := norm(got)
		if err == nil && match(st["exp"], g) {
			res.Steps++
			continue
		}
		res.At = j
		res.Op = st.Str("op")
		res.Exp = st["exp"]
		res.Got = g
		if err != nil {
			res.Reason = err.Error()
		} else {
			res.Reason = "observation differs from the specification"
		}
		if p := serverPanic(m); p != "" {
			res.Reason += " (server panicked)"
			res.Log = p
		} else if ls, ok := m.(logSource); ok {
			res.Log = tail(ls.ServerLog(), 6000)
		}
		return res
	}
	if p := serverPanic(m); p != "" {
		res.Reason = "server panicked"
		res.Log = p
		return res
	}
	res.OK = true
	return res
}

func main() {
	in := flag.String("in", "", "file of behaviours, one JSON array per line")
	mod := flag.String("module", "", "module")
	scratch := flag.String("scratch", "", "scratch directory")
	only := flag.Int("only", -1, "replay only this line")
	shard := flag.Int("shard", 0, "shard index")
	shards := flag.Int("shards", 1, "number of shards")
	limit := flag.Duration("limit", 0, "stop after this long")
	watchdog := flag.Duration("watchdog", 90*time.Second, "per-behaviour limit")
	list := flag.Bool("list", false, "list modules")
	flag.Parse()

	if *list {
		var l []string
		for k := range modules {
			l = append(l, k)
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
		return
	}

	if *mod == "push" || *mod == "doors" {
		pushNamespace()
	}
	dir, err := os.MkdirTemp(*scratch, "vh")
	if err != nil {
		fatal("failed to create scratch directory: %v", err)
	}
	scratchRoot = dir
	defer os.RemoveAll(dir)

	f, err := os.Open(*in)
	if err != nil {
		fatal("failed to open input: %v", err)
	}
	start := time.Now()
	br := bufio.NewReaderSize(f, 1<<20)
	out := json.NewEncoder(os.Stdout)
	for i := 0; ; i++ {
		line, err := br.ReadString('\n')
		if strings.TrimSpace(line) == "" {
			if err != nil {
				break
			}
			continue
		}
		if (*only >= 0 && i != *only) || (*only < 0 && i%*shards != *shard) {
			continue
		}
		if *limit > 0 && time.Since(start) > *limit {
			break
		}
		var steps []Step
		if err := json.Unmarshal([]byte(line), &steps); err != nil {
			fatal("failed to parse behaviour: %v", err)
		}
		h := fnv.New64a()
		canon, _ := json.Marshal(steps)
		h.Write(canon)
		behHash = h.Sum64()
		fmt.Printf("{\"start\":%d}\n", i)
		wd := time.AfterFunc(*watchdog, func() {
			buf := make([]byte, 1<<18)
			n := runtime.Stack(buf, true)
			out.Encode(result{I: i, Reason: "hang: the behaviour didn't finish in time", Log: tail(string(buf[:n]), 20000)})
			os.RemoveAll(dir)
			os.Exit(4)
		})
		res := runBehaviour(i, *mod, steps)
		wd.Stop()
		out.Encode(res)
	}
}

// behHash depends on the behaviour replayed only.
var behHash uint64

// extraCaps chooses capabilities for a network to offer which make no
// difference to what it sends, nor to the bouncer's duties.
func extraCaps() []string {
	h := behHash
	if h&1 == 0 {
		return nil
	}
	var l []string
	for i, c := range []string{"away-notify", "account-notify", "chghost", "invite-notify", "extended-monitor", "extended-join", "account-tag", "server-time", "batch", "cap-notify"} {
		if h>>(uint(i)+1)&1 != 0 {
			l = append(l, c)
		}
	}
	return l
}
