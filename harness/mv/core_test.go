package mv

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	mavlink2 "github.com/botlink/go-mavlink2"
)

// P is the run of one property: its case source, its event counts and its verdict.
type P struct {
	t        *testing.T
	ID       string
	Seed     uint64
	Thorough bool

	mu       sync.Mutex
	evals    int
	distinct map[uint64]struct{}
	rule     string
	samples  []any
	counts   map[string]int
	viol     []Violation
	known    map[string]string
	notes    []string
	doing    atomic.Value // string: the case in hand
	beats    atomic.Int64
	out      string
	reported bool
}

// Violation is a witness.
type Violation struct {
	What    string `json:"what"`
	Case    string `json:"case"`
	Witness any    `json:"witness,omitempty"`
}

const maxViolations = 5

type result struct {
	Property   string            `json:"property"`
	Status     string            `json:"status"` // held, violated, inconclusive
	Why        string            `json:"why,omitempty"`
	Evals      int               `json:"evaluations"`
	Distinct   int               `json:"distinct_nontrivial"`
	Rule       string            `json:"rule"`
	Samples    []any             `json:"samples"`
	Counts     map[string]int    `json:"observed"`
	Violations []Violation       `json:"violations"`
	Known      map[string]string `json:"known"`
	Notes      []string          `json:"notes"`
}

var props = map[string]func(*P){}

func (p *P) finish(status, why string) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.reported {
		return
	}
	p.reported = true
	if len(p.viol) > 0 {
		status = "violated"
	}
	r := result{p.ID, status, why, p.evals, len(p.distinct), p.rule, p.samples, p.counts, p.viol, p.known, p.notes}
	b, err := json.MarshalIndent(r, "", " ")
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(p.out, b, 0o644); err != nil {
		panic(err)
	}
}

// Eval counts one case.
func (p *P) Eval() { p.mu.Lock(); p.evals++; p.mu.Unlock(); p.beats.Add(1) }

// Distinct counts a non-trivial case by what identifies it.
func (p *P) Distinct(parts ...[]byte) {
	h := fnv.New64a()
	for _, x := range parts {
		h.Write(x)
		h.Write([]byte{0xff, 0})
	}
	p.mu.Lock()
	p.distinct[h.Sum64()] = struct{}{}
	p.mu.Unlock()
}

// Count counts an observed event.
func (p *P) Count(what string, n int) {
	if n != 0 {
		p.mu.Lock()
		p.counts[what] += n
		p.mu.Unlock()
	}
}

// Sample keeps up to eight cases, spread over the run by the caller.
func (p *P) Sample(s any) {
	p.mu.Lock()
	if len(p.samples) < 8 {
		p.samples = append(p.samples, s)
	}
	p.mu.Unlock()
}

// Doing names the case in hand, for witnesses and for the watchdog.
func (p *P) Doing(format string, a ...any) {
	p.doing.Store(fmt.Sprintf(format, a...))
	p.beats.Add(1)
}

func (p *P) caseName() string {
	s, _ := p.doing.Load().(string)
	return s
}

// Fail records a violation; after a few, the run stops.
func (p *P) Fail(witness any, format string, a ...any) {
	p.mu.Lock()
	p.viol = append(p.viol, Violation{fmt.Sprintf(format, a...), p.caseName(), witness})
	n := len(p.viol)
	p.mu.Unlock()
	if n >= maxViolations {
		p.stopNow()
	}
}

// Fatal records a violation after which the process cannot go on (a leaked loop, say).
func (p *P) Fatal(witness any, format string, a ...any) {
	p.mu.Lock()
	p.viol = append(p.viol, Violation{fmt.Sprintf(format, a...), p.caseName(), witness})
	p.mu.Unlock()
	p.stopNow()
}

func (p *P) stopNow() {
	p.finish("violated", "")
	os.Exit(1)
}

// Failed tells whether there is a violation yet.
func (p *P) Failed() bool { p.mu.Lock(); defer p.mu.Unlock(); return len(p.viol) > 0 }

// Note keeps a remark for the evidence.
func (p *P) Note(format string, a ...any) {
	p.mu.Lock()
	p.notes = append(p.notes, fmt.Sprintf(format, a...))
	p.mu.Unlock()
}

// Inconclusive ends the run without a verdict.
func (p *P) Inconclusive(format string, a ...any) {
	p.finish("inconclusive", fmt.Sprintf(format, a...))
	os.Exit(3)
}

// Known records that a listed finding was seen.
func (p *P) Known(key, what string) { p.mu.Lock(); p.known[key] = what; p.mu.Unlock() }

// N scales the number of cases with the tier.
func (p *P) N(quick, thorough int) int {
	n := quick
	if p.Thorough {
		n = thorough
	}
	if share, _ := strconv.Atoi(os.Getenv("VERIF_SHARE")); share > 1 { // a second build repeats a part
		n = max(1, n/share)
	}
	return n
}

// Rand is the case's own source: each case replays alone.
func (p *P) Rand(i int) *rand.Rand {
	h := fnv.New64a()
	h.Write([]byte(p.ID))
	return rand.New(rand.NewPCG(p.Seed, h.Sum64()+uint64(i)*0x9e3779b97f4a7c15))
}

// Bubble runs f under virtual time; Wait in it is quiescence.
func (p *P) Bubble(f func()) {
	synctest.Test(p.t, func(*testing.T) { f() })
}

// Guarded runs f, turning a panic into a return value.
func Guarded(f func()) (pan any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			pan, stack = r, string(debug.Stack())
		}
	}()
	f()
	return
}

func hexs(b []byte) string { return fmt.Sprintf("%x", b) }

func TestProp(t *testing.T) {
	id := os.Getenv("VERIF_PROP")
	if id == "" {
		t.Skip("VERIF_PROP not set")
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	p := &P{t: t, ID: id, Seed: seed, Thorough: os.Getenv("VERIF_TIER") == "thorough", distinct: map[uint64]struct{}{},
		counts: map[string]int{}, known: map[string]string{}, samples: []any{}, viol: []Violation{}, notes: []string{}, out: os.Getenv("VERIF_OUT")}
	f := props[id]
	if f == nil {
		t.Fatalf("no property %s", id)
	}
	if p.out == "" {
		p.out = filepath.Join(t.TempDir(), "out.json")
	}
	p.Doing("start")
	theP = p
	// The library prints notices with fmt.Printf: keep them out of the report.
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil && id != "C26" {
		os.Stdout = null
	}
	go p.watchdog()
	f(p)
	if p.evals == 0 || len(p.distinct) == 0 {
		if !p.Failed() {
			p.Inconclusive("nothing was observed: %d cases, %d distinct", p.evals, len(p.distinct))
		}
	}
	for k, n := range held() {
		p.Count(k, n)
	}
	p.finish("held", "")
	if p.Failed() {
		os.Exit(1)
	}
}

func cpu() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watchdog looks after cases that do not end. It decides on what the process does, not on how long
// it takes: a case that burnt two minutes of processor time (cases take milliseconds) is spinning,
// and one in which no goroutine could run in 40 successive samples is deadlocked. Anything else that
// takes 12 minutes is inconclusive.
func (p *P) watchdog() {
	last, lastCPU, idle, t0 := p.beats.Load(), cpu(), 0, time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		if b := p.beats.Load(); b != last {
			last, lastCPU, idle, t0 = b, cpu(), 0, time.Now()
			continue
		}
		st := allStacks()
		if cpu()-lastCPU > 120*time.Second {
			p.Fatal(map[string]string{"stacks": st}, "the case does not end: it spins without making progress")
		}
		if runnable(st) == 0 {
			idle++
		} else {
			idle = 0
		}
		if idle >= 40 {
			p.Fatal(map[string]string{"stacks": st}, "the case does not end: every goroutine is blocked")
		}
		if time.Since(t0) > 12*time.Minute {
			p.Inconclusive("case %s took too long", p.caseName())
		}
	}
}

func allStacks() string {
	buf := make([]byte, 1<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// runnable counts the goroutines, other than the caller, that could run, will by themselves, or are in a
// system call. Sleeping in a bubble is not among them: its clock would have moved on.
func runnable(st string) (n int) {
	for _, g := range strings.Split(st, "\n\n")[1:] {
		head, _, _ := strings.Cut(g, "\n")
		_, state, _ := strings.Cut(head, "[")
		if strings.HasPrefix(state, "run") || strings.HasPrefix(state, "sleep") && !strings.Contains(state, "synctest") || strings.HasPrefix(state, "syscall") && !strings.Contains(g, "signal_recv") {
			n++
		}
	}
	return
}

func keysOf[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

var theP *P // the one in hand

// take is a delivered frame with a copy of its bytes. Nil is no frame.
func take(f mavlink2.Frame) got {
	if f == nil {
		theP.Fatal(nil, "a stream delivered nil for a frame")
	}
	return got{f.GetVersion(), append([]byte(nil), f.Bytes()...), f}
}
