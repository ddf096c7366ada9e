// Package hx drives the generated checks: it runs rapid properties with the case counts
// of the tier, counts and classifies the cases, watches for cases that hang, and writes
// the record the driver turns into the evidence file.
package hx

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Thorough reports whether this is the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

var started = time.Now()

// N selects the bound of the tier.
func N(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Seed is VERIF_SEED, never 0.
func Seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 63)
	if err != nil || s == 0 {
		return 1000003
	}
	return s
}

type testRec struct {
	Evaluations int            `json:"evaluations"`
	NonTrivial  int            `json:"nontrivial"`
	Distinct    int            `json:"distinct_nontrivial"`
	Classes     map[string]int `json:"classes"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Exhaustive  bool           `json:"exhaustive,omitempty"`
	seen        map[uint64]struct{}
	lastSample  int
}

var (
	mu      sync.Mutex
	recs    = map[string]*testRec{}
	current atomic.Int64 // start of the running case, unix nano; 0: none
	curName atomic.Value
)

func rec(name string) *testRec {
	r := recs[name]
	if r == nil {
		r = &testRec{Classes: map[string]int{}, seen: map[uint64]struct{}{}}
		recs[name] = r
	}
	return r
}

// Case collects what is known about one generated case.
type Case struct {
	name    string
	classes []string
	key     string
	nt      bool
	sample  func() string
}

// Class labels the case.
func (c *Case) Class(s string) { c.classes = append(c.classes, s) }

// ClassIf labels the case when cond holds.
func (c *Case) ClassIf(cond bool, s string) {
	if cond {
		c.Class(s)
	}
}

// NonTrivial marks the case as non-trivial; key identifies it.
func (c *Case) NonTrivial(key string) { c.nt = true; c.key = key }

// Sample describes the case (called only for the few that are kept).
func (c *Case) Sample(f func() string) { c.sample = f }

func hash(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

func (c *Case) commit() {
	mu.Lock()
	defer mu.Unlock()
	r := rec(c.name)
	r.Evaluations++
	seen := map[string]bool{}
	for _, s := range c.classes {
		if !seen[s] {
			seen[s] = true
			r.Classes[s]++
		}
	}
	if !c.nt {
		return
	}
	r.NonTrivial++
	h := hash(c.key)
	if _, ok := r.seen[h]; !ok {
		r.seen[h] = struct{}{}
		r.Distinct++
		// Samples: the first, then ever rarer ones, so that they span the run.
		if c.sample != nil && len(r.Samples) < 6 && (r.lastSample == 0 || r.Distinct >= 4*r.lastSample) {
			r.lastSample = r.Distinct
			s := c.sample()
			if len(s) > 900 {
				s = s[:900] + "..."
			}
			r.Samples = append(r.Samples, s)
		}
	}
}

// Rule states how the cases of the enumerating test t are made and when one is
// non-trivial. Enumerations run in the first shard only.
func Rule(t *testing.T, rule string) {
	if Shard() > 0 {
		t.Skip("enumeration: first shard only")
	}
	setRule(t, rule)
}

// Shard is the number of this process among those that run the same test with different seeds.
func Shard() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	return n
}

func setRule(t *testing.T, rule string) {
	mu.Lock()
	defer mu.Unlock()
	rec(t.Name()).Rule = rule
}

// Exhaustive notes that test t enumerated its whole (finite) space.
func Exhaustive(t *testing.T) {
	mu.Lock()
	defer mu.Unlock()
	rec(t.Name()).Exhaustive = true
}

func begin(name string) {
	curName.Store(name)
	current.Store(time.Now().UnixNano())
}
func end() { current.Store(0) }

// Check runs prop with the number of cases of the tier.
func Check(t *testing.T, quick, thorough int, rule string, prop func(t *rapid.T, c *Case)) {
	if capture != nil {
		*capture = prop
		return
	}
	t.Helper()
	setRule(t, rule)
	quick *= 4
	if thorough < 2*quick {
		thorough = 2 * quick
	}
	flag.Set("rapid.checks", strconv.Itoa(N(quick, thorough)))
	name := t.Name()
	stop := time.Now().Add(time.Duration(N(200, 500)) * time.Second)
	if whole := started.Add(400 * time.Second); !Thorough() && stop.After(whole) {
		// However slow the machine, the whole run has to end in time.
		if stop = time.Now().Add(10 * time.Second); stop.Before(whole) {
			stop = whole
		}
	}
	failed := false
	rapid.Check(t, func(rt *rapid.T) {
		// Out of time: fewer cases, not a verdict. Never while a failure is being shrunk.
		if !failed && time.Now().After(stop) {
			return
		}
		done := false
		defer func() { failed = failed || !done }()
		c := &Case{name: name}
		begin(name)
		defer end()
		defer c.commit()
		prop(rt, c)
		done = true
	})
}

var capture *func(t *rapid.T, c *Case)

// Fuzz makes a coverage-guided fuzz target of test, which does nothing but Check: the
// fuzzer's bytes are the choices of the generators.
func Fuzz(f *testing.F, test func(t *testing.T)) {
	var prop func(t *rapid.T, c *Case)
	capture = &prop
	test(nil)
	capture = nil
	rnd := rand.New(rand.NewSource(int64(Seed())))
	for _, n := range []int{0, 64, 512, 4096, 4096, 16384, 16384, 65536} {
		b := make([]byte, n)
		rnd.Read(b)
		f.Add(b)
	}
	name := f.Name()
	fuzz := rapid.MakeFuzz(func(rt *rapid.T) {
		begin(name)
		defer end()
		prop(rt, &Case{name: name})
	})
	f.Fuzz(func(t *testing.T, b []byte) { fuzz(t, b) })
}

// Each runs one enumerated case.
func Each(t *testing.T, f func(c *Case)) {
	c := &Case{name: t.Name()}
	begin(t.Name())
	defer end()
	defer c.commit()
	f(c)
}

// HarnessError ends the run: the check could not be carried out.
func HarnessError(format string, args ...interface{}) {
	fmt.Printf("VERIF-HARNESS-ERROR: "+format+"\n", args...)
	os.Exit(4)
}

// hangLimit is how long one case may run. Cases take milliseconds; this is not a
// performance bound but the point at which a case is taken to never end.
const hangLimit = 150 * time.Second

func watchdog() {
	for {
		time.Sleep(time.Second)
		var ms runtime.MemStats
		if runtime.ReadMemStats(&ms); ms.HeapAlloc > 16<<30 {
			fmt.Printf("VERIF-HANG: a case of %v uses more than 16 GB\n", curName.Load())
			os.Exit(3)
		}
		s := current.Load()
		if s != 0 && time.Since(time.Unix(0, s)) > hangLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			fmt.Printf("VERIF-HANG: a case of %v did not end within %v\n%s\n", curName.Load(), hangLimit, buf)
			write()
			os.Exit(3)
		}
	}
}

func write() {
	out := os.Getenv("VERIF_REC")
	if out == "" {
		mu.Lock()
		defer mu.Unlock()
		names := make([]string, 0, len(recs))
		for n := range recs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			r := recs[n]
			fmt.Printf("# %s: %d cases, %d non-trivial, %d distinct, classes %v\n", n, r.Evaluations, r.NonTrivial, r.Distinct, r.Classes)
			if testing.Verbose() {
				for _, s := range r.Samples {
					fmt.Printf("#    sample: %s\n", s)
				}
			}
		}
		return
	}
	mu.Lock()
	defer mu.Unlock()
	b, _ := json.MarshalIndent(recs, "", " ")
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println("VERIF-HARNESS-ERROR: writing record:", err)
	}
}

// Main is the TestMain of every check.
func Main(m *testing.M) {
	flag.Parse()
	if f := flag.Lookup("rapid.seed"); f != nil && f.Value.String() == "0" {
		flag.Set("rapid.seed", strconv.FormatUint(Seed()+uint64(Shard())*1000003, 10))
	}
	go watchdog()
	code := m.Run()
	write()
	os.Exit(code)
}
