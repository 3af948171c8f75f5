// Package vh drives generated-input checks: it generates cases with rapid,
// runs an oracle on each, shrinks failures, and writes statistics and replay files.
package vh

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Exit codes of a shard.
const (
	ExitOK        = 0
	ExitViolation = 1
	ExitInfra     = 3
	ExitHang      = 4
)

// S is a byte string with a readable, exact JSON form.
type S string

// MarshalJSON writes the string Go-quoted, in ASCII.
func (s S) MarshalJSON() ([]byte, error) {
	q := strconv.QuoteToASCII(string(s))
	return json.Marshal(q[1 : len(q)-1])
}

// UnmarshalJSON reads what MarshalJSON writes.
func (s *S) UnmarshalJSON(b []byte) error {
	var q string
	if err := json.Unmarshal(b, &q); err != nil {
		return err
	}
	u, err := strconv.Unquote(`"` + q + `"`)
	if err != nil {
		return err
	}
	*s = S(u)
	return nil
}

// Seg is a byte string repeated N times.
type Seg struct {
	B S
	N int
}

// Blob is a compact description of possibly large data.
type Blob []Seg

// Bytes expands the blob.
func (b Blob) Bytes() string {
	var sb strings.Builder
	for _, s := range b {
		for i := 0; i < s.N; i++ {
			sb.WriteString(string(s.B))
		}
	}
	return sb.String()
}

// Prop is a property: how to make, run and classify its cases.
type Prop struct {
	ID    string
	Rule  string
	Gen   func(t *rapid.T) any
	New   func() any
	Run   func(e *Env, c any) error
	Class func(c any) (nontrivial bool, labels []string)
}

var props = map[string]*Prop{}

// Register adds a property.
func Register[C any](id, rule string, gen func(*rapid.T) C, run func(*Env, C) error, class func(C) (bool, []string)) {
	props[id] = &Prop{
		ID: id, Rule: rule,
		Gen:   func(t *rapid.T) any { return gen(t) },
		New:   func() any { return new(C) },
		Run:   func(e *Env, c any) error { return run(e, deref[C](c)) },
		Class: func(c any) (bool, []string) { return class(deref[C](c)) },
	}
}

func deref[C any](c any) C {
	if p, ok := c.(*C); ok {
		return *p
	}
	return c.(C)
}

// Infra reports trouble of the check itself and ends the shard.
func Infra(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "INFRA: "+format+"\n", args...)
	os.Exit(ExitInfra)
}

// Env is what a run may use.
type Env struct {
	BinDir  string
	Scratch string
	UID     int // unprivileged user for contained runs; 0 if not available
	Tier    string
	Known   map[string]bool // recorded findings that are not violations
	n       int
	inst    any
}

// Stats are the counters of a shard.
type Stats struct {
	Evaluations int               `json:"evaluations"`
	Hashes      []string          `json:"hashes"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Counters    map[string]int    `json:"counters"`
}

var counters = map[string]int{}

// Count adds to a named counter of this run.
func Count(name string, n int) { counters[name] += n }

type fakeTB struct {
	failed bool
	log    strings.Builder
}

func (f *fakeTB) Helper()      {}
func (f *fakeTB) Name() string { return "verif" }
func (f *fakeTB) Logf(format string, a ...any) {
	if f.log.Len() < 1<<20 {
		fmt.Fprintf(&f.log, format+"\n", a...)
	}
}
func (f *fakeTB) Log(a ...any)                   { f.Logf("%s", fmt.Sprint(a...)) }
func (f *fakeTB) Skipf(string, ...any)           { panic("skip") }
func (f *fakeTB) Skip(...any)                    { panic("skip") }
func (f *fakeTB) SkipNow()                       { panic("skip") }
func (f *fakeTB) Errorf(format string, a ...any) { f.failed = true; f.Logf(format, a...) }
func (f *fakeTB) Error(a ...any)                 { f.failed = true; f.Log(a...) }
func (f *fakeTB) Fatalf(format string, a ...any) {
	f.failed = true
	f.Logf(format, a...)
	panic(stop{})
}
func (f *fakeTB) Fatal(a ...any) { f.failed = true; f.Log(a...); panic(stop{}) }
func (f *fakeTB) FailNow()       { f.failed = true; panic(stop{}) }
func (f *fakeTB) Fail()          { f.failed = true }
func (f *fakeTB) Failed() bool   { return f.failed }

type stop struct{}

// Hang is a violation found by a confirmed time-out: it is not shrunk.
type Hang struct{ Msg string }

func (h *Hang) Error() string { return h.Msg }

// Main runs the program.
func Main() {
	testing.Init()
	prop := flag.String("prop", "", "property")
	seed := flag.Uint64("seed", 1, "seed")
	checks := flag.Int("checks", 100, "cases")
	dir := flag.String("dir", "", "directory for results")
	bin := flag.String("bin", "", "directory of built tools")
	scratch := flag.String("scratch", "", "scratch directory")
	uid := flag.Int("uid", 0, "unprivileged user")
	tier := flag.String("tier", "quick", "tier")
	replay := flag.String("replay", "", "replay file")
	times := flag.Int("times", 1, "replay repetitions")
	softcap := flag.Duration("softcap", 240*time.Second, "stop generating after this long")
	hang := flag.Duration("hang", 60*time.Second, "a single case may take this long")
	known := flag.String("known", "", "recorded findings")
	flag.Parse()

	p := props[*prop]
	if p == nil {
		Infra("unknown property %q", *prop)
	}
	syscall.Umask(022)
	env := &Env{BinDir: *bin, Scratch: *scratch, UID: *uid, Tier: *tier, Known: map[string]bool{}}
	for _, k := range strings.Split(*known, ",") {
		env.Known[k] = k != ""
	}

	var caseStart atomic.Int64
	go watchdog(&caseStart, *hang)

	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			Infra("%v", err)
		}
		var rf replayFile
		if err := json.Unmarshal(data, &rf); err != nil {
			Infra("%v", err)
		}
		c := p.New()
		if err := json.Unmarshal(rf.Case, c); err != nil {
			Infra("%v", err)
		}
		for i := 0; i < *times; i++ {
			caseStart.Store(time.Now().UnixNano())
			if err := p.Run(env, c); err != nil {
				fmt.Printf("%v\n", err)
				os.Exit(ExitViolation)
			}
			caseStart.Store(0)
		}
		os.Exit(ExitOK)
	}

	flag.Set("rapid.seed", strconv.FormatUint(*seed, 10))
	flag.Set("rapid.checks", strconv.Itoa(*checks))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "40s")

	st := Stats{Labels: map[string]int{}, Rule: p.Rule, Counters: counters}
	seen := map[uint64]struct{}{}
	begin := time.Now()
	curFile, err := os.Create(*dir + "/current.json")
	if err != nil {
		Infra("%v", err)
	}
	failing := false
	var lastFail, firstFail []byte
	var lastMsg, firstMsg string
	skipped := 0

	flush := func() {
		st.Hashes = make([]string, 0, len(seen))
		for h := range seen {
			st.Hashes = append(st.Hashes, strconv.FormatUint(h, 36))
		}
		if skipped > 0 {
			counters["cases skipped at the time cap"] = skipped
		}
		b, _ := json.Marshal(st)
		if err := os.WriteFile(*dir+"/stats.json", b, 0644); err != nil {
			Infra("%v", err)
		}
	}

	body := func(t *rapid.T) {
		if !failing && time.Since(begin) > *softcap {
			skipped++
			return
		}
		c := p.Gen(t)
		js, err := json.Marshal(c)
		if err != nil {
			Infra("marshal: %v", err)
		}
		rep, _ := json.Marshal(replayFile{Property: p.ID, Case: js})
		curFile.Truncate(0)
		curFile.WriteAt(rep, 0)
		nt, labels := p.Class(c)
		if !failing {
			st.Evaluations++
			for _, l := range labels {
				st.Labels[l]++
			}
			if nt {
				h := fnv.New64a()
				h.Write(js)
				if _, ok := seen[h.Sum64()]; !ok {
					seen[h.Sum64()] = struct{}{}
					if len(js) < 3000 && (len(st.Samples) < 3 || (len(st.Samples) < 6 && len(seen)%97 == 0)) {
						st.Samples = append(st.Samples, js)
					}
				}
			}
		}
		caseStart.Store(time.Now().UnixNano())
		err = p.Run(env, c)
		caseStart.Store(0)
		if err != nil {
			rep, _ := json.MarshalIndent(replayFile{Property: p.ID, Case: js, Message: err.Error()}, "", " ")
			lastFail, lastMsg = rep, err.Error()
			if !failing {
				firstFail, firstMsg = rep, err.Error()
				failing = true
			}
			if _, ok := err.(*Hang); ok {
				os.WriteFile(*dir+"/fail.json", rep, 0644)
				flush()
				fmt.Printf("%s\n", err)
				os.Exit(ExitViolation)
			}
			t.Fatalf("violation")
		}
	}

	tb := &fakeTB{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
					Infra("panic: %v", r)
				}
			}
		}()
		rapid.Check(tb, body)
	}()
	flush()
	if failing {
		os.WriteFile(*dir+"/fail.json", lastFail, 0644)
		os.WriteFile(*dir+"/first.json", firstFail, 0644)
		fmt.Printf("first: %s\nshrunk: %s\n", firstMsg, lastMsg)
		os.Exit(ExitViolation)
	}
	if tb.failed {
		Infra("rapid: %s", tb.log.String())
	}
	os.Exit(ExitOK)
}

type replayFile struct {
	Property string          `json:"property"`
	Case     json.RawMessage `json:"case"`
	Message  string          `json:"message,omitempty"`
}

// watchdog ends the process when one case runs for too long or takes too much memory.
func watchdog(start *atomic.Int64, limit time.Duration) {
	for {
		time.Sleep(100 * time.Millisecond)
		s := start.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > limit {
			fmt.Println("a case runs for longer than", limit)
			os.Exit(ExitHang)
		}
		var rss int
		b, _ := os.ReadFile("/proc/self/statm")
		var size int
		fmt.Sscan(string(b), &size, &rss)
		if rss*os.Getpagesize() > 3<<30 {
			fmt.Println("a case takes more than 3 GB of memory")
			os.Exit(ExitHang)
		}
	}
}

// Catch runs f and turns a panic into an error text.
func Catch(f func()) (panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("panic: %v", r)
			if e, ok := r.(runtime.Error); ok {
				panicked = "runtime panic: " + e.Error()
			}
		}
	}()
	f()
	return ""
}
