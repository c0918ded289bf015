// Package core runs one property: generated cases (rapid) against an oracle,
// with counters, failing-case capture, replay, isolation and a hang watchdog.
package core

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Prop is one property: how its cases are made and what decides one.
type Prop[C any] struct {
	ID   string
	Rule string
	Gen  func(t *rapid.T) C
	// Check runs the case against the code under test; an error is a violation.
	Check func(c C, x *Ctx) error
	// Once runs after all cases (whole-run assertions); an error is a violation.
	Once func(x *Ctx) error
	// CPULimit is the CPU time after which one case counts as hanging.
	CPULimit time.Duration
	// FromBytes makes a case of the bytes a coverage-guided fuzzer mutates,
	// Bytes is its inverse, for the seeds. Without them such a fuzzer works on
	// the bits that Gen draws.
	FromBytes func(data []byte) C
	Bytes     func(c C) []byte
}

// Fuzz is one property in the form coverage-guided fuzzing takes: it decides
// the case that the bytes stand for.
type Fuzz struct {
	Seeds func() [][]byte
	Case  func(t *testing.T, data []byte)
}

// Captured is set by Run in place of running, when Capturing.
var (
	Capturing bool
	Captured  Fuzz
)

// Ctx collects what a run covered.
type Ctx struct {
	T           *testing.T
	mu          sync.Mutex
	evaluations int
	distinct    map[uint64]struct{}
	classes     map[string]int
	samples     []json.RawMessage
	known       map[string]string
	extra       map[string]any
	caseSeen    bool
	caseJSON    func() []byte
}

// NonTrivial records that the current case is non-trivial by the property's
// rule; key identifies it.
func (x *Ctx) NonTrivial(key []byte) {
	h := fnv.New64a()
	h.Write(key)
	x.mu.Lock()
	defer x.mu.Unlock()
	x.caseSeen = true
	k := h.Sum64()
	if _, dup := x.distinct[k]; dup {
		return
	}
	x.distinct[k] = struct{}{}
	n := len(x.distinct)
	if n == 1 || n == 17 || n == 120 {
		if x.caseJSON != nil {
			j := x.caseJSON()
			if len(j) <= 12000 {
				x.samples = append(x.samples, j)
			} else {
				s, _ := json.Marshal(string(j[:4000]) + "...")
				x.samples = append(x.samples, s)
			}
		}
	}
}

// Class counts a class of case.
func (x *Ctx) Class(format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	x.mu.Lock()
	x.classes[s]++
	x.mu.Unlock()
}

// Count adds n to a class.
func (x *Ctx) Count(name string, n int) {
	x.mu.Lock()
	x.classes[name] += n
	x.mu.Unlock()
}

// ClassCount reads a counter.
func (x *Ctx) ClassCount(name string) int {
	x.mu.Lock()
	defer x.mu.Unlock()
	return x.classes[name]
}

// Known records that a finding listed in the known-findings file was observed.
// It reports false if the finding is not listed: the caller then fails.
func (x *Ctx) Known(id, what string) bool {
	if !knownFindings()[id] {
		return false
	}
	x.mu.Lock()
	x.known[id] = what
	x.mu.Unlock()
	return true
}

var knownOnce sync.Once
var knownSet map[string]bool

func knownFindings() map[string]bool {
	knownOnce.Do(func() {
		knownSet = map[string]bool{}
		for _, id := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
			if id != "" {
				knownSet[id] = true
			}
		}
	})
	return knownSet
}

// Extra stores an additional measured value for the evidence.
func (x *Ctx) Extra(name string, v any) {
	x.mu.Lock()
	x.extra[name] = v
	x.mu.Unlock()
}

type failure struct {
	Property string          `json:"property"`
	Error    string          `json:"error"`
	Case     json.RawMessage `json:"case"`
}

func outDir() string { return os.Getenv("VERIF_OUT") }

func writeOut(name string, data []byte) {
	if d := outDir(); d != "" {
		os.WriteFile(filepath.Join(d, name), data, 0o644)
	}
}

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// Protect runs f and turns a panic into an error.
func Protect(f func() error) (err error) {
	defer func() {
		if r := recover(); r != nil {
			stack := string(debug.Stack())
			if i := strings.Index(stack, "panic("); i >= 0 {
				stack = stack[i:]
			}
			if len(stack) > 2500 {
				stack = stack[:2500]
			}
			err = fmt.Errorf("panic: %v\n%s", r, stack)
		}
	}()
	return f()
}

// Run runs the property in the mode the environment asks for.
func Run[C any](t *testing.T, p Prop[C]) {
	x := &Ctx{T: t, distinct: map[uint64]struct{}{}, classes: map[string]int{}, known: map[string]string{}, extra: map[string]any{}}
	if p.CPULimit == 0 {
		p.CPULimit = 60 * time.Second
	}

	marshal := func(c C) []byte {
		j, err := json.Marshal(c)
		if err != nil {
			j, _ = json.Marshal(fmt.Sprintf("not serialisable: %v", err))
		}
		return j
	}

	decide := func(c C) error {
		err := Protect(func() error { return p.Check(c, x) })
		if err != nil {
			j, _ := json.MarshalIndent(failure{p.ID, err.Error(), marshal(c)}, "", " ")
			writeOut("failure.json", j)
		}
		return err
	}
	if Capturing {
		Captured.Case = func(t *testing.T, data []byte) {
			x.T = t
			one := func(c C, fail func(string, ...any)) {
				if os.Getenv("VERIF_CONVERT") != "" {
					j, _ := json.MarshalIndent(failure{p.ID, "the process ended", marshal(c)}, "", " ")
					writeOut("failure.json", j)
					return
				}
				if err := decide(c); err != nil {
					fail("VERIF-VIOLATED %s: %v", p.ID, err)
				}
			}
			if p.FromBytes != nil {
				one(p.FromBytes(data), t.Fatalf)
				return
			}
			rapid.MakeFuzz(func(rt *rapid.T) { one(p.Gen(rt), rt.Fatalf) })(t, data)
		}
		Captured.Seeds = func() (out [][]byte) {
			g := rapid.Custom(p.Gen)
			for i := 0; i < 200; i++ {
				if p.Bytes != nil {
					out = append(out, p.Bytes(g.Example(i)))
				} else if i < 40 {
					r := rand.New(rand.NewPCG(uint64(i), 1))
					b := make([]byte, 8*(200<<(i%6)))
					for k := range b {
						b[k] = byte(r.Uint32())
					}
					out = append(out, b)
				}
			}
			return
		}
		return
	}

	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		data, err := os.ReadFile(path)
		if err != nil {
			t.Fatal(err)
		}
		var f failure
		if err := json.Unmarshal(data, &f); err != nil {
			t.Fatal(err)
		}
		var c C
		if err := json.Unmarshal(f.Case, &c); err != nil {
			t.Fatal(err)
		}
		stop := watchdog(p.CPULimit, func() int64 { return 1 }, func() []byte { return data })
		defer stop()
		if err := Protect(func() error { return p.Check(c, x) }); err != nil {
			t.Fatalf("VERIF-REPRODUCED %s: %v", p.ID, err)
		}
		return
	}

	isolate := os.Getenv("VERIF_ISOLATE") != ""
	noted := os.Getenv("VERIF_RACE") != ""

	var current atomic.Pointer[C]
	var serial atomic.Int64
	stop := watchdog(p.CPULimit, func() int64 {
		if current.Load() == nil {
			return 0
		}
		return serial.Load()
	}, func() []byte {
		c := current.Load()
		if c == nil {
			return nil
		}
		j, _ := json.Marshal(failure{p.ID, "hang: the case used more than its CPU time", marshal(*c)})
		return j
	})
	defer stop()
	defer func() { x.flush(p.ID, p.Rule) }()

	ok := t.Run("cases", func(t *testing.T) {
		x.T = t
		rapid.Check(t, func(rt *rapid.T) {
			c := p.Gen(rt)
			x.mu.Lock()
			x.evaluations++
			x.caseSeen = false
			x.caseJSON = func() []byte { return marshal(c) }
			x.mu.Unlock()
			current.Store(&c)
			serial.Add(1)
			if noted {
				j, _ := json.Marshal(failure{p.ID, "", marshal(c)})
				writeOut("current.json", j)
			}
			var err error
			if isolate {
				err = runChild(p.ID, t.Name(), marshal(c))
			} else {
				err = Protect(func() error { return p.Check(c, x) })
			}
			current.Store(nil)
			if err != nil {
				j, _ := json.MarshalIndent(failure{p.ID, err.Error(), marshal(c)}, "", " ")
				writeOut("failure.json", j)
				rt.Fatalf("VERIF-VIOLATED %s: %v", p.ID, err)
			}
		})
	})
	if ok && p.Once != nil && !isolate {
		if err := p.Once(x); err != nil {
			j, _ := json.MarshalIndent(failure{p.ID, err.Error(), json.RawMessage(`"whole run"`)}, "", " ")
			writeOut("failure.json", j)
			t.Fatalf("VERIF-VIOLATED %s: %v", p.ID, err)
		}
	}
}

// watchdog ends the process when one case uses too much CPU time.
func watchdog(limit time.Duration, cur func() int64, dump func() []byte) func() {
	done := make(chan struct{})
	go func() {
		var lastSerial int64
		base := cpuTime()
		for {
			select {
			case <-done:
				return
			case <-time.After(250 * time.Millisecond):
			}
			s := cur()
			if s != lastSerial || s == 0 {
				lastSerial, base = s, cpuTime()
				continue
			}
			if cpuTime()-base > limit {
				writeOut("hang.json", dump())
				fmt.Fprintln(os.Stderr, "VERIF-HANG")
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(77)
			}
		}
	}()
	return func() { close(done) }
}

func runChild(id, name string, c []byte) error {
	f, err := os.CreateTemp("", "verif-case")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	j, _ := json.Marshal(failure{id, "", c})
	f.Write(j)
	f.Close()
	top, _, _ := strings.Cut(name, "/")
	cmd := exec.Command(os.Args[0], "-test.run", "^"+top+"$", "-test.timeout", "10m")
	cmd.Env = append(os.Environ(), "VERIF_REPLAY="+f.Name(), "VERIF_ISOLATE=", "VERIF_OUT=")
	out, err := cmd.CombinedOutput()
	if err == nil {
		return nil
	}
	s := string(out)
	if i := strings.Index(s, "VERIF-REPRODUCED"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 3000 {
		s = s[:3000]
	}
	return fmt.Errorf("process ended with %v: %s", err, s)
}

type statsFile struct {
	Property    string            `json:"property"`
	Rule        string            `json:"rule"`
	Evaluations int               `json:"evaluations"`
	Distinct    int               `json:"distinct"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Known       map[string]string `json:"known"`
	Extra       map[string]any    `json:"extra"`
	Keys        []string          `json:"keys"`
}

func (x *Ctx) flush(id, rule string) {
	x.mu.Lock()
	defer x.mu.Unlock()
	s := statsFile{Property: id, Rule: rule, Evaluations: x.evaluations, Distinct: len(x.distinct), Classes: x.classes, Samples: x.samples, Known: x.known, Extra: x.extra}
	for k := range x.distinct {
		s.Keys = append(s.Keys, fmt.Sprintf("%x", k))
	}
	sort.Strings(s.Keys)
	j, err := json.Marshal(s)
	if err == nil {
		writeOut("stats.json", j)
	}
}
