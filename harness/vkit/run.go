// Package vkit is the shared machinery of the property checks: a registry of
// generated "parts" per property, the runner that drives them with rapid,
// evidence counters, replay files, crash capture and a watchdog.
package vkit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lesismal/arpc"
	"github.com/lesismal/arpc/log"
	"pgregory.net/rapid"
)

// R records what one executed case showed.
type R struct {
	mu         sync.Mutex
	fail       string
	classes    map[string]int
	nontrivial bool
	known      map[string]string
	Leak       string // set by Bubble when goroutines were left behind
	LeftOver   bool   // goroutines left behind are expected, do not list them
	Seed       uint64
}

// Failf records a violation (the first one wins).
func (r *R) Failf(format string, args ...interface{}) {
	r.mu.Lock()
	if r.fail == "" {
		r.fail = fmt.Sprintf(format, args...)
	}
	r.mu.Unlock()
}

// Failed tells whether a violation was recorded.
func (r *R) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.fail != ""
}

// Class counts the case under a label.
func (r *R) Class(format string, args ...interface{}) {
	r.mu.Lock()
	if r.classes == nil {
		r.classes = map[string]int{}
	}
	r.classes[fmt.Sprintf(format, args...)] = 1
	r.mu.Unlock()
}

// NonTrivial marks the case as non-trivial.
func (r *R) NonTrivial() { r.mu.Lock(); r.nontrivial = true; r.mu.Unlock() }

// KnownFailf records a violation that matches the known finding key; it is a
// violation unless the key is listed in the known-findings file.
func (r *R) KnownFailf(key, format string, args ...interface{}) {
	if knownKeys[key] {
		r.mu.Lock()
		if r.known == nil {
			r.known = map[string]string{}
		}
		if _, ok := r.known[key]; !ok {
			r.known[key] = fmt.Sprintf(format, args...)
		}
		r.mu.Unlock()
		return
	}
	r.Failf("[%s] "+format, append([]interface{}{key}, args...)...)
}

// Opts are the options of a part.
type Opts struct {
	Quick    int           // cases, over all shards, in the quick tier
	Thorough int           // cases, over all shards, in the thorough tier
	Budget   time.Duration // soft wall budget per shard in the quick tier (default 20 s)
	Rule     string        // what makes a case non-trivial
	NoMutex  bool          // a mutex wait-for cycle is not judged in this part
	Units    bool          // the time unit of the case (what Us scales by) is drawn too
}

type part struct {
	prop, name string
	o          Opts
	run        func(rt *rapid.T) (caseJSON []byte, r *R)
	replay     func(raw []byte, unit int) (*R, error)
}

var registry []*part

var knownKeys = map[string]bool{}

// Register adds a part to a property: gen draws one case (a JSON-able value,
// a pure function of the draws) and run executes it.
func Register[C any](prop, name string, o Opts, gen func(*rapid.T) C, run func(*R, C)) {
	p := &part{prop: prop, name: name, o: o}
	exec := func(c C) *R {
		r := &R{}
		defer endCase()
		func() {
			defer func() {
				if e := recover(); e != nil {
					r.Failf("panic: %v\n%s", e, debug.Stack())
				}
			}()
			run(r, c)
		}()
		return r
	}
	p.run = func(rt *rapid.T) ([]byte, *R) {
		c := gen(rt)
		raw, err := json.Marshal(c)
		if err != nil {
			panic("case is not JSON-able: " + err.Error())
		}
		// run the decoded copy, so that a replay runs the very same value
		var c2 C
		if err := json.Unmarshal(raw, &c2); err != nil {
			panic("case does not round-trip: " + err.Error())
		}
		u := 0
		if o.Units {
			u = Pick(rt, "unit", 0, 0, 0, 1, 2)
		}
		beginCase(p, raw, u)
		return raw, exec(c2)
	}
	p.replay = func(raw []byte, unit int) (*R, error) {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return nil, err
		}
		beginCase(p, raw, unit)
		return exec(c), nil
	}
	registry = append(registry, p)
}

// ---- current case, for crash capture and the watchdog ----

var (
	curMu    sync.Mutex
	curPart  *part
	curRaw   []byte
	curStart time.Time
	curCPU   time.Duration
	curN     int64
	outDir   string
	curT     *testing.T
	curFile  *os.File
)

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

func beginCase(p *part, raw []byte, u int) {
	setUnit(u)
	// a buffer freed twice in one case must not poison the next one
	arpc.DefaultAllocator = arpc.New(64, 64)
	curMu.Lock()
	curPart, curRaw, curStart, curCPU = p, raw, time.Now(), cpuTime()
	curN++
	curMu.Unlock()
	if curFile != nil {
		doc := replayDoc(p, raw, "crash of the process while this case ran")
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(len(doc)))
		curFile.WriteAt(append(b[:], doc...), 0)
	}
}

func endCase() {
	curMu.Lock()
	curPart = nil
	curMu.Unlock()
}

func replayDoc(p *part, raw []byte, msg string) []byte {
	doc, _ := json.Marshal(map[string]interface{}{
		"property": p.prop, "part": p.name, "case": json.RawMessage(raw), "message": msg, "unit": unitIdx,
	})
	return doc
}

// ---- bubble ----

// Bubble runs f in a synctest bubble (fake clock, exact quiescence). A hang of
// everything in it is a violation; goroutines left behind go to r.Leak.
func (r *R) Bubble(f func()) {
	exited := false
	defer func() {
		if e := recover(); e != nil {
			msg := fmt.Sprint(e)
			dump := ""
			if !exited || !r.LeftOver {
				dump = bubbleStacks()
			}
			if strings.Contains(msg, "deadlock") || strings.Contains(msg, "blocked goroutines remain") {
				if exited {
					r.Leak = msg + "\n" + dump
				} else {
					r.Failf("hang: every goroutine of the case is blocked for ever: %s\n%s", msg, dump)
				}
				return
			}
			r.Failf("panic: %v\n%s", e, debug.Stack())
		}
	}()
	synctest.Test(curT, func(*testing.T) {
		defer func() {
			if e := recover(); e != nil {
				r.Failf("panic: %v\n%s", e, debug.Stack())
			}
			exited = true
		}()
		f()
	})
}

func bubbleStacks() string {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	var out []string
	for _, g := range strings.Split(string(buf[:n]), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble") {
			out = append(out, g)
		}
	}
	// the last bubble only
	last := ""
	for _, g := range out {
		head, _, _ := strings.Cut(g, "\n")
		if i := strings.Index(head, "synctest bubble "); i >= 0 {
			id := head[i+len("synctest bubble "):]
			if j := strings.IndexAny(id, " ],:"); j >= 0 {
				id = id[:j]
			} // else: the dump ends here
			if len(id) > len(last) || (len(id) == len(last) && id > last) {
				last = id
			}
		}
	}
	var keep []string
	for _, g := range out {
		head, _, _ := strings.Cut(g, "\n")
		if strings.Contains(head, "synctest bubble "+last) {
			keep = append(keep, g)
		}
	}
	s := strings.Join(keep, "\n\n")
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

// ---- watchdog ----

func watchdog() {
	for {
		time.Sleep(500 * time.Millisecond)
		curMu.Lock()
		p, raw, start, cpu, n := curPart, curRaw, curStart, curCPU, curN
		curMu.Unlock()
		if p == nil || time.Since(start) < 30*time.Second {
			continue
		}
		deadlock, livelock := 0, 0
		var dump string
		for i := 0; i < 6; i++ {
			buf := make([]byte, 4<<20)
			buf = buf[:runtime.Stack(buf, true)]
			dump = string(buf)
			mutex, active, arpcRun, timed := 0, 0, 0, 0
			for _, g := range strings.Split(dump, "\n\n") {
				head, _, _ := strings.Cut(g, "\n")
				if strings.Contains(g, "vkit.watchdog") || !strings.Contains(g, "harness") && !strings.Contains(g, "lesismal/arpc") {
					continue
				}
				switch {
				case strings.Contains(head, "sync.Mutex") || strings.Contains(head, "sync.RWMutex") || strings.Contains(head, "semacquire"):
					if strings.Contains(g, "lesismal/arpc") {
						mutex++
					}
				case strings.Contains(head, "[running") || strings.Contains(head, "[runnable") || strings.Contains(head, "[syscall"):
					active++
					if strings.Contains(g, "lesismal/arpc") {
						arpcRun++
					}
				case strings.Contains(head, "[sleep"):
					// a sleeper below the library may hold one of its locks
					if strings.Contains(g, "lesismal/arpc") {
						timed++
					}
				}
			}
			if mutex > 0 && active == 0 && timed == 0 {
				deadlock++
			}
			if arpcRun > 0 {
				livelock++
			}
			time.Sleep(400 * time.Millisecond)
		}
		curMu.Lock()
		same := curN == n && curPart == p
		curMu.Unlock()
		if !same {
			continue
		}
		used := cpuTime() - cpu
		verdict := ""
		if deadlock >= 5 && !p.o.NoMutex {
			verdict = "deadlock: goroutines of the library wait for each other's locks for ever"
		} else if livelock >= 4 && used > 20*time.Second {
			verdict = fmt.Sprintf("livelock: the library spins without end (%v of CPU in one case)", used)
		}
		if verdict != "" {
			if len(dump) > 20000 {
				dump = dump[:20000]
			}
			saveFail(p, raw, verdict+"\n"+dump)
			writeResult()
			os.Exit(1)
		}
		if time.Since(start) > 150*time.Second {
			os.WriteFile(filepath.Join(outDir, "error.txt"), []byte("case stuck without verdict\n"+string(raw)+"\n"+dump), 0o644)
			os.Exit(3)
		}
	}
}

// ---- results ----

type partResult struct {
	Evaluations int               `json:"evaluations"`
	Nontrivial  int               `json:"nontrivial"`
	Classes     map[string]int    `json:"classes"`
	Samples     []json.RawMessage `json:"samples"`
	Rule        string            `json:"rule"`
	Budget      bool              `json:"budget_hit"`
	Leaks       int               `json:"leaks"`
	hashes      map[uint64]struct{}
}

type result struct {
	Property string                 `json:"property"`
	Parts    map[string]*partResult `json:"parts"`
	Fail     json.RawMessage        `json:"fail,omitempty"`
	Known    map[string]string      `json:"known,omitempty"`
	Done     bool                   `json:"done"`
}

var (
	resMu   sync.Mutex
	res     = &result{Parts: map[string]*partResult{}, Known: map[string]string{}}
	failLen = -1
)

func saveFail(p *part, raw []byte, msg string) {
	resMu.Lock()
	defer resMu.Unlock()
	if failLen >= 0 && len(raw) > failLen {
		return
	}
	failLen = len(raw)
	res.Fail = replayDoc(p, raw, msg)
}

func writeResult() {
	resMu.Lock()
	defer resMu.Unlock()
	b, _ := json.Marshal(res)
	os.WriteFile(filepath.Join(outDir, "result.json"), b, 0o644)
	for name, pr := range res.Parts {
		var buf bytes.Buffer
		hs := make([]uint64, 0, len(pr.hashes))
		for h := range pr.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		binary.Write(&buf, binary.LittleEndian, hs)
		os.WriteFile(filepath.Join(outDir, "hashes-"+name), buf.Bytes(), 0o644)
	}
}

func note(pr *partResult, raw []byte, r *R) {
	resMu.Lock()
	defer resMu.Unlock()
	pr.Evaluations++
	for c := range r.classes {
		pr.Classes[c]++
	}
	for k, v := range r.known {
		res.Known[k] = v
	}
	if r.Leak != "" {
		pr.Leaks++
	}
	if r.nontrivial {
		h := fnv.New64a()
		h.Write(raw)
		pr.Nontrivial++
		pr.hashes[h.Sum64()] = struct{}{}
		if len(pr.Samples) < 3 && len(raw) < 3000 && (len(pr.Samples) == 0 || pr.Nontrivial%50 == 0) {
			pr.Samples = append(pr.Samples, json.RawMessage(append([]byte(nil), raw...)))
		}
	}
}

type quietTB struct {
	name   string
	failed bool
}

func (t *quietTB) Helper()                   {}
func (t *quietTB) Name() string              { return t.name }
func (t *quietTB) Logf(f string, a ...any)   {}
func (t *quietTB) Log(a ...any)              {}
func (t *quietTB) Skipf(f string, a ...any)  {}
func (t *quietTB) Skip(a ...any)             {}
func (t *quietTB) SkipNow()                  {}
func (t *quietTB) Errorf(f string, a ...any) { t.failed = true; t.logErr(fmt.Sprintf(f, a...)) }
func (t *quietTB) Error(a ...any)            { t.failed = true; t.logErr(fmt.Sprint(a...)) }
func (t *quietTB) Fatalf(f string, a ...any) { t.failed = true; t.logErr(fmt.Sprintf(f, a...)) }
func (t *quietTB) Fatal(a ...any)            { t.failed = true; t.logErr(fmt.Sprint(a...)) }
func (t *quietTB) FailNow()                  { t.failed = true }
func (t *quietTB) Fail()                     { t.failed = true }
func (t *quietTB) Failed() bool              { return t.failed }
func (t *quietTB) logErr(s string)           { rapidErr.Store(s) }

var rapidErr atomic.Value

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

// Main runs the parts of the property named by VERIF_PROP.
func Main(t *testing.T) {
	curT = t
	prop := os.Getenv("VERIF_PROP")
	outDir = os.Getenv("VERIF_OUT")
	if prop == "" || outDir == "" {
		t.Skip("VERIF_PROP/VERIF_OUT not set")
	}
	for _, k := range strings.Split(os.Getenv("VERIF_KNOWN"), ",") {
		if k != "" {
			knownKeys[k] = true
		}
	}
	log.SetLevel(log.LevelNone)
	seed := uint64(envInt("VERIF_SEED", 1))
	shard := envInt("VERIF_SHARD", 0)
	shards := envInt("VERIF_SHARDS", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	only := os.Getenv("VERIF_PART")
	scale := float64(envInt("VERIF_SCALE", 100)) / 100

	f, err := os.Create(filepath.Join(outDir, "current.bin"))
	if err != nil {
		t.Fatal(err)
	}
	curFile = f
	go watchdog()
	res.Property = prop

	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		replayFiles(t, []string{rp}, envInt("VERIF_REPEAT", 200))
		res.Done = true
		writeResult()
		return
	}
	if dir := os.Getenv("VERIF_REGRESS"); dir != "" {
		files, _ := filepath.Glob(filepath.Join(dir, "*.json"))
		var mine []string
		for i, f := range files {
			if i%shards == shard {
				mine = append(mine, f)
			}
		}
		if !replayFiles(t, mine, envInt("VERIF_REPEAT", 10)) {
			writeResult()
			os.Exit(1)
		}
	}

	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "8s")
	for _, p := range registry {
		if p.prop != prop || (only != "" && only != p.name) {
			continue
		}
		n := p.o.Quick
		budget := p.o.Budget
		if budget == 0 {
			budget = 20 * time.Second
		}
		if thorough {
			n = p.o.Thorough
			if n == 0 {
				n = p.o.Quick * 12
			}
			budget *= 12
		}
		n = int(float64(n) * scale)
		n = (n + shards - 1) / shards
		if n < 1 {
			n = 1
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "%d/%d/%s/%s", seed, shard, p.prop, p.name)
		s := h.Sum64()>>1 | 1
		flag.Set("rapid.checks", strconv.Itoa(n))
		flag.Set("rapid.seed", strconv.FormatUint(s, 10))
		pr := &partResult{Classes: map[string]int{}, Rule: p.o.Rule, hashes: map[uint64]struct{}{}}
		res.Parts[p.name] = pr
		tb := &quietTB{name: p.prop + "_" + p.name}
		deadline := time.Now().Add(budget)
		found := false
		rapid.Check(tb, func(rt *rapid.T) {
			if !found && time.Now().After(deadline) {
				pr.Budget = true
				return
			}
			raw, r := p.run(rt)
			if !found {
				note(pr, raw, r)
			}
			if r.fail != "" {
				found = true
				saveFail(p, raw, r.fail)
				rt.Fatalf("violated")
			}
		})
		if tb.failed {
			if res.Fail == nil {
				e, _ := rapidErr.Load().(string)
				os.WriteFile(filepath.Join(outDir, "error.txt"), []byte("rapid: "+e), 0o644)
				writeResult()
				os.Exit(3)
			}
			writeResult()
			os.Exit(1)
		}
	}
	res.Done = true
	writeResult()
	if os.Getenv("VERIF_COVER") != "" {
		return // the test binary writes its coverage profile
	}
	// goroutines of leaked bubbles must not turn the exit code
	os.Exit(0)
}

func replayFiles(t *testing.T, files []string, repeat int) bool {
	for _, file := range files {
		b, err := os.ReadFile(file)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var doc struct {
			Property, Part string
			Case           json.RawMessage
			Unit           int
		}
		if err := json.Unmarshal(b, &doc); err != nil {
			fmt.Fprintln(os.Stderr, file, err)
			os.Exit(3)
		}
		for _, p := range registry {
			if p.prop != doc.Property || p.name != doc.Part {
				continue
			}
			pr := res.Parts["regress-"+p.name]
			if pr == nil {
				pr = &partResult{Classes: map[string]int{}, Rule: "saved failing cases of earlier defects", hashes: map[uint64]struct{}{}}
				res.Parts["regress-"+p.name] = pr
			}
			// as often as asked, but not for ever
			for i, end := 0, time.Now().Add(time.Duration(repeat)*300*time.Millisecond); i < repeat && (i == 0 || time.Now().Before(end)); i++ {
				r, err := p.replay(doc.Case, doc.Unit)
				if err != nil {
					fmt.Fprintln(os.Stderr, file, err)
					os.Exit(3)
				}
				note(pr, doc.Case, r)
				if r.fail != "" {
					saveFail(p, doc.Case, r.fail)
					fmt.Printf("replay %s: fails on run %d: %s\n", file, i+1, r.fail)
					return false
				}
			}
		}
	}
	return true
}
