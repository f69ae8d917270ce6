// Package prop runs one property: regression cases first, then generated cases with shrinking. It
// counts what was generated, writes the evidence file and turns the minimal failing case into a replay
// file.
package prop

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Info classifies an executed case.
type Info struct {
	NonTrivial bool
	Classes    []string
}

// Add appends a class label.
func (i *Info) Add(f string, a ...any) {
	if len(a) == 0 {
		i.Classes = append(i.Classes, f)
		return
	}
	i.Classes = append(i.Classes, fmt.Sprintf(f, a...))
}

// Spec is one executable property (or one part of it).
type Spec[C any] struct {
	ID   string
	Part string // name of this part when a property has several
	Rule string
	Gen  func(*rapid.T) C
	Run  func(C) (Info, error)
	// number of generated cases
	Quick, Thorough int
	// Crashy: save every case before running it, because a failure may kill the process.
	Crashy bool
	// Retry is how often a saved case is run: the runtime makes some choices (select, map order) itself.
	Retry int
	// ShrinkTime overrides the shrinking budget.
	ShrinkTime time.Duration
}

type partStat struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"distinct_nontrivial"`
	Rule        string         `json:"rule"`
	Classes     map[string]int `json:"classes"`
	Regress     int            `json:"regression_cases"`
	Samples     []any          `json:"-"`
}

var (
	evMu   sync.Mutex
	evPart = map[string]map[string]*partStat{} // id -> part -> stat
	viol   = map[string]int{}
)

func Tier() string {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return "thorough"
	}
	return "quick"
}

func Seed() int64 {
	n, err := strconv.ParseInt(strings.TrimSpace(os.Getenv("VERIF_SEED")), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func rapidSeed(part string) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s", Seed(), part)
	s := h.Sum64()
	if s == 0 {
		s = 1
	}
	return s
}

func root() string {
	if r := os.Getenv("VERIF_ROOT"); r != "" {
		return r
	}
	return "/verif"
}

func replayDir(id string) string { return filepath.Join(root(), "replays", id) }

type replayFile struct {
	Property string          `json:"property"`
	Part     string          `json:"part"`
	Error    string          `json:"error,omitempty"`
	Case     json.RawMessage `json:"case"`
}

func writeReplay(id, part, name string, raw []byte, msg string) string {
	dir := replayDir(id)
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, name)
	b, _ := json.MarshalIndent(replayFile{Property: id, Part: part, Error: msg, Case: raw}, "", " ")
	os.WriteFile(p, append(b, '\n'), 0o644)
	return p
}

// Violation prints the line the driver and the interface look for.
func Violation(id, path, msg string) {
	evMu.Lock()
	viol[id]++
	evMu.Unlock()
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	fmt.Printf("  %s\n", strings.ReplaceAll(msg, "\n", "\n  "))
}

// ---- current case, for the watchdog and for crashes

var (
	curMu    sync.Mutex
	curID    string
	curPart  string
	curRaw   []byte
	curGen   atomic.Int64
	curCPU   int64
	curSince time.Time
	busy     atomic.Bool
)

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

var cpuLimit = int64(40 * time.Second)

// StartWatchdog aborts the process when one case burns CPU time far beyond anything a case needs (the
// code under test does not terminate: a violation), or makes no progress for 5 minutes (inconclusive:
// exit 3).
func StartWatchdog() {
	go func() {
		var gen int64 = -1
		var c0 int64
		var t0 time.Time
		for {
			time.Sleep(500 * time.Millisecond)
			if !busy.Load() {
				gen = -1
				continue
			}
			if g := curGen.Load(); g != gen {
				gen, c0, t0 = g, cpuNow(), time.Now()
				continue
			}
			cpu, wall := cpuNow()-c0, time.Since(t0)
			if cpu > cpuLimit || wall > 5*time.Minute {
				buf := make([]byte, 1<<20)
				buf = buf[:runtime.Stack(buf, true)]
				curMu.Lock()
				id, part, raw := curID, curPart, curRaw
				curMu.Unlock()
				if cpu > cpuLimit && strings.Contains(string(buf), "tinygo-mqtt/mqtt") {
					p := writeReplay(id, part, "nontermination.json", raw, "does not terminate")
					Violation(id, p, "one case used more than "+time.Duration(cpuLimit).String()+" of CPU time without finishing: the code under test does not terminate")
					os.Stderr.Write(buf)
					os.Exit(1)
				}
				fmt.Printf("INCONCLUSIVE property=%s: no progress (cpu %v, wall %v)\n", id, time.Duration(cpu), wall)
				os.Stderr.Write(buf)
				os.Exit(3)
			}
		}
	}()
}

// exec runs one case with panic capture.
func exec[C any](s *Spec[C], c C, raw []byte) (info Info, err error) {
	curMu.Lock()
	curID, curPart, curRaw = s.ID, s.Part, raw
	curMu.Unlock()
	if s.Crashy {
		os.MkdirAll(replayDir(s.ID), 0o755)
		b, _ := json.Marshal(replayFile{Property: s.ID, Part: s.Part, Case: raw})
		os.WriteFile(filepath.Join(replayDir(s.ID), "current.json"), b, 0o644)
	}
	curGen.Add(1)
	busy.Store(true)
	defer busy.Store(false)
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack())
		}
	}()
	return s.Run(c)
}

func trimStack() string {
	buf := make([]byte, 16384)
	buf = buf[:runtime.Stack(buf, false)]
	var keep []string
	for _, l := range strings.Split(string(buf), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "tinygo-mqtt") {
			keep = append(keep, strings.TrimSpace(l))
		}
		if len(keep) >= 8 {
			break
		}
	}
	return strings.Join(keep, "\n")
}

// PanicText formats a recovered panic with the library frames of the stack.
func PanicText(r any) string { return fmt.Sprintf("panic: %v\n%s", r, trimStack()) }

// Check decides one part of a property.
func Check[C any](t *testing.T, s Spec[C]) {
	if s.Part == "" {
		s.Part = "main"
	}
	st := &partStat{Rule: s.Rule, Classes: map[string]int{}}
	evMu.Lock()
	if evPart[s.ID] == nil {
		evPart[s.ID] = map[string]*partStat{}
	}
	evPart[s.ID][s.Part] = st
	evMu.Unlock()

	fromFile := func(path string) bool {
		b, err := os.ReadFile(path)
		if err != nil {
			t.Fatalf("HARNESS-ERROR %v", err)
		}
		var rf replayFile
		if err := json.Unmarshal(b, &rf); err != nil {
			t.Fatalf("HARNESS-ERROR %s: %v", path, err)
		}
		if rf.Part != s.Part {
			return false
		}
		var c C
		if err := json.Unmarshal(rf.Case, &c); err != nil {
			t.Fatalf("HARNESS-ERROR %s: %v", path, err)
		}
		for i := 0; i <= s.Retry; i++ {
			if _, err := exec(&s, c, rf.Case); err != nil {
				Violation(s.ID, path, err.Error())
				t.Fail()
				break
			}
		}
		return true
	}

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		if fromFile(rp) && !t.Failed() {
			fmt.Printf("replay of %s: property %s holds\n", rp, s.ID)
		}
		return
	}

	// regression cases: shrunk failures found earlier, run without the library
	files, _ := filepath.Glob(filepath.Join(root(), "harness", "regress", s.ID, "*.json"))
	sort.Strings(files)
	for _, f := range files {
		if fromFile(f) {
			st.Regress++
		}
		if t.Failed() {
			return
		}
	}

	n := s.Quick
	if Tier() == "thorough" {
		n = s.Thorough
	}
	if v := os.Getenv("VERIF_N"); v != "" {
		n, _ = strconv.Atoi(v)
	}
	if v, err := strconv.Atoi(os.Getenv("VERIF_CAP")); err == nil {
		n = min(n, v)
	}
	if n == 0 {
		return
	}
	shr := s.ShrinkTime
	if shr == 0 {
		shr = 15 * time.Second
	}
	if d, err := time.ParseDuration(os.Getenv("VERIF_SHRINK")); err == nil {
		shr = d
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	flag.Set("rapid.seed", strconv.FormatUint(rapidSeed(s.ID+s.Part), 10))
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", shr.String())

	seen := map[uint64]struct{}{}
	var lastFail []byte
	var lastErr error
	failing := false
	defer func() {
		if lastErr != nil {
			h := fnv.New32a()
			h.Write(lastFail)
			p := writeReplay(s.ID, s.Part, fmt.Sprintf("%s-%08x.json", s.Part, h.Sum32()), lastFail, lastErr.Error())
			Violation(s.ID, p, lastErr.Error())
			t.Fail()
		}
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := s.Gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic(fmt.Sprintf("HARNESS-ERROR marshal: %v", err))
		}
		info, err := exec(&s, c, raw)
		if !failing {
			st.Evaluations++
			for _, k := range info.Classes {
				st.Classes[k]++
			}
			if info.NonTrivial {
				h := fnv.New64a()
				h.Write(raw)
				if _, ok := seen[h.Sum64()]; !ok {
					seen[h.Sum64()] = struct{}{}
					st.NonTrivial++
					if len(st.Samples) < 2 && len(raw) < 4000 && (st.NonTrivial == 3 || st.NonTrivial%97 == 50) {
						st.Samples = append(st.Samples, json.RawMessage(raw))
					}
				}
			}
		}
		if err != nil {
			failing = true
			lastFail, lastErr = raw, err
			rt.Fatalf("violated") // one message, so that every failing case shrinks
		}
	})
}

// Finish writes the evidence files; call from TestMain after m.Run.
func Finish() {
	start, _ := strconv.ParseFloat(os.Getenv("VERIF_START"), 64)
	wall := 0.0
	if start > 0 {
		wall = float64(time.Now().UnixNano())/1e9 - start
	}
	if os.Getenv("VERIF_REPLAY") != "" {
		return
	}
	for id, parts := range evPart {
		ev, nt := 0, 0
		var rules []string
		samples := []any{}
		names := make([]string, 0, len(parts))
		for n := range parts {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			p := parts[n]
			ev += p.Evaluations
			nt += p.NonTrivial
			rules = append(rules, n+": "+p.Rule)
			for _, s := range p.Samples {
				samples = append(samples, map[string]any{"part": n, "case": s})
			}
		}
		out := map[string]any{
			"property": id, "tier": Tier(), "seed": Seed(), "level": "exploration",
			"coverage": map[string]any{
				"evaluations": ev, "distinct_nontrivial": nt,
				"rule": strings.Join(rules, " | "), "samples": samples, "parts": parts,
			},
			"assumptions": []string{"the reference MQTT 5 codec and models in /verif/harness are correct", "generated search: absence of a counterexample is not a proof"},
			"wall_s":      wall, "violations": viol[id],
		}
		b, _ := json.MarshalIndent(out, "", " ")
		os.MkdirAll(filepath.Join(root(), "evidence"), 0o755)
		os.WriteFile(filepath.Join(root(), "evidence", id+".json"), append(b, '\n'), 0o644)
	}
}

// Main is the common TestMain.
func Main(m *testing.M) {
	StartWatchdog()
	rc := m.Run()
	Finish()
	os.Exit(rc)
}
