// Package kit is the bounded-exhaustive explorer shared by every check.
//
// A check declares sections.  A section is a generator that draws a finite
// number of choices (Choose) and returns the execution to run on the real
// code.  Explore enumerates every choice sequence depth first, so a section
// that finishes has covered its whole stated space.  The enumeration is
// sharded over child processes; a child that crashes or stops making progress
// is attributed to the execution it was running.
package kit

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// C is a choice source: a depth-first enumerator over finite choices.
type C struct {
	choices []int
	arity   []int
	pos     int
	devMax  int
	devUsed int
}

// Choose returns every value in [0,n) over the course of an exploration.
func (c *C) Choose(n int) int {
	if n <= 0 {
		panic("kit: Choose(0)")
	}
	if c.pos < len(c.choices) {
		v := c.choices[c.pos]
		if c.pos < len(c.arity) && c.arity[c.pos] != n {
			panic(fmt.Sprintf("kit: divergence at choice %d: arity %d, was %d", c.pos, n, c.arity[c.pos]))
		}
		if v >= n {
			panic(fmt.Sprintf("kit: divergence at choice %d: value %d arity %d", c.pos, v, n))
		}
		if c.pos >= len(c.arity) {
			c.arity = append(c.arity, n)
		}
		c.pos++
		return v
	}
	c.choices = append(c.choices, 0)
	c.arity = append(c.arity, n)
	c.pos++
	return 0
}

// Bool chooses false then true.
func (c *C) Bool() bool { return c.Choose(2) == 1 }

// Dev chooses among n environment answers, 0 being the default one; any other
// answer is a deviation, and at most the budget of them occur per execution.
func (c *C) Dev(n int) int {
	if n <= 1 || c.devUsed >= c.devMax {
		return 0
	}
	v := c.Choose(n)
	if v != 0 {
		c.devUsed++
	}
	return v
}

// Range chooses an integer in [lo,hi].
func (c *C) Range(lo, hi int) int { return lo + c.Choose(hi-lo+1) }

// Pick chooses an element.
func Pick[X any](c *C, xs []X) X { return xs[c.Choose(len(xs))] }

func (c *C) reset() { c.pos = 0; c.devUsed = 0 }

// advance moves to the next choice sequence; false when the space is done.
func (c *C) advance() bool {
	c.choices = c.choices[:c.pos]
	c.arity = c.arity[:c.pos]
	for i := len(c.choices) - 1; i >= 0; i-- {
		if c.choices[i]+1 < c.arity[i] {
			c.choices[i]++
			c.choices = c.choices[:i+1]
			c.arity = c.arity[:i+1]
			return true
		}
	}
	return false
}

type failNow struct{}

// T is one execution against the real code.
type T struct {
	r       *Run
	sec     *secStat
	msg     string
	key     string
	log     []string
	logging bool
}

// Op counts n operations (transitions) performed on the real code.
func (t *T) Op(n int) { t.sec.Ops += int64(n) }

// Trace counts one complete execution compared with the reference.
func (t *T) Trace() { t.sec.Traces++ }

// State records a canonical state reached or observed.
func (t *T) State(parts ...interface{}) {
	h := fnv.New64a()
	for _, p := range parts {
		switch x := p.(type) {
		case string:
			h.Write([]byte(x))
		case []byte:
			h.Write(x)
		default:
			fmt.Fprintf(h, "%#v", x)
		}
		h.Write([]byte{0xff})
	}
	v := h.Sum64()
	t.r.stated = true
	if len(t.r.states) < maxStates {
		t.r.states[v] = struct{}{}
	}
}

const maxStates = 8000000

// Logf adds to the description of a failing execution.
func (t *T) Logf(f string, a ...interface{}) {
	if t.logging && len(t.log) < 400 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 2000 {
			s = s[:2000] + "…"
		}
		t.log = append(t.log, s)
	}
}

// Failf ends the execution: the property is broken on it.
func (t *T) Failf(f string, a ...interface{}) {
	t.msg = fmt.Sprintf(f, a...)
	panic(failNow{})
}

// FailKey is Failf for a failure identified by a key that the known-findings
// file may list.
func (t *T) FailKey(key, f string, a ...interface{}) {
	t.key = key
	t.Failf(f, a...)
}

// Sample keeps the case written out in the evidence (first few per section).
func (t *T) Sample(f string, a ...interface{}) {
	if len(t.sec.Samples) < 2 {
		s := fmt.Sprintf(f, a...)
		if len(s) > 300 {
			s = s[:300] + "…"
		}
		t.sec.Samples = append(t.sec.Samples, t.sec.Name+": "+s)
	}
}

// Dyn explores every environment answer sequence of body with at most maxDev
// deviations from the default answers.
func (t *T) Dyn(maxDev int, body func(c *C)) int {
	c := &C{devMax: maxDev}
	n := 0
	for {
		c.reset()
		func() {
			defer func() {
				if e := recover(); e != nil {
					t.Logf("environment choices: %v", c.choices)
					panic(e)
				}
			}()
			body(c)
		}()
		n++
		t.sec.Inner++
		t.r.beat()
		if !c.advance() {
			return n
		}
	}
}

type violation struct {
	Section string   `json:"section"`
	Choices []int    `json:"choices"`
	Index   int64    `json:"index"`
	Msg     string   `json:"msg"`
	Key     string   `json:"key,omitempty"`
	Log     []string `json:"log,omitempty"`
}

type secStat struct {
	Name    string
	Enum    int64 // executions enumerated (all shards)
	Cases   int64 // executions run by this shard
	Inner   int64
	Ops     int64
	Traces  int64
	Samples []string
	Capped  bool
	WallMS  int64
}

// Run is one shard of a check.
type Run struct {
	Prop     string
	Tier     string
	Thorough bool
	shard    int64
	nshards  int64
	idx      int64
	only     int64 // replay: run this global index only
	states   map[uint64]struct{}
	secs     []*secStat
	viol     []violation
	known    map[string]int
	knownSet map[string]string
	unrep    int
	deadline time.Time
	status   []byte
	nViol    int
	filter   string
	stated   bool
}

func (r *Run) beat() {
	if r.status != nil {
		atomicStore(r.status[8:], time.Now().UnixNano())
	}
}

// T0 chooses between a quick and a thorough bound.
func (r *Run) T0(quick, thorough int) int {
	if r.Thorough {
		return thorough
	}
	return quick
}

// Explore enumerates every choice sequence of gen, and runs the execution it
// returns (nil: the sequence is not a case).
func (r *Run) Explore(name string, gen func(c *C) func(t *T)) {
	if r.filter != "" && !strings.Contains(name, r.filter) {
		return
	}
	start := time.Now()
	st := &secStat{Name: name}
	r.secs = append(r.secs, st)
	c := &C{}
	secViol := 0
	for {
		c.reset()
		f := gen(c)
		if f != nil {
			st.Enum++
			r.idx++
			i := r.idx
			mine := i%r.nshards == r.shard
			if r.only != 0 {
				mine = i == r.only
			}
			if mine && secViol < 3 {
				if r.status != nil {
					atomicStore(r.status[0:], i)
					atomicStore(r.status[8:], time.Now().UnixNano())
				}
				st.Cases++
				if r.only != 0 {
					fmt.Fprintf(os.Stderr, "section %q choices %v\n", name, c.choices)
				}
				if r.exec(st, c, i, f) {
					secViol++
				}
			}
			if st.Enum&0x3f == 0 && time.Now().After(r.deadline) {
				st.Capped = true
				break
			}
		}
		if !c.advance() {
			break
		}
	}
	st.WallMS = time.Since(start).Milliseconds()
}

// Case runs a single execution as its own section.
func (r *Run) Case(name string, f func(t *T)) {
	r.Explore(name, func(c *C) func(t *T) { return f })
}

func (r *Run) once(st *secStat, f func(t *T), logging bool) (msg, key string, log []string) {
	t := &T{r: r, sec: st, logging: logging}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(failNow); ok {
				msg, key, log = t.msg, t.key, t.log
				return
			}
			if s, ok := e.(string); ok && strings.HasPrefix(s, "kit: ") {
				panic(e)
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, trimStack(debug.Stack()))
			log = t.log
		}
	}()
	f(t)
	return "", "", nil
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for _, l := range ls {
		if strings.Contains(l, "/repo/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) >= 8 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (r *Run) exec(st *secStat, c *C, idx int64, f func(t *T)) bool {
	r.stated = false
	msg, key, _ := r.once(st, f, false)
	if msg == "" {
		if !r.stated {
			// the case itself is the state that was explored
			(&T{r: r}).State(st.Name, fmt.Sprint(c.choices[:c.pos]))
		}
		return false
	}
	if key != "" {
		if _, ok := r.knownSet[key]; ok {
			r.known[key]++
			return false
		}
	}
	// Re-run before believing it.
	again, firstLog := 0, []string(nil)
	scratch := &secStat{Name: st.Name}
	for i := 0; i < 5; i++ {
		m, _, l := r.once(scratch, f, true)
		if m != "" {
			again++
			if firstLog == nil {
				firstLog = l
			}
		}
	}
	if again == 0 {
		for i := 0; i < 100 && again == 0; i++ {
			if m, _, l := r.once(scratch, f, true); m != "" {
				again, firstLog = 1, l
			}
		}
	}
	if again == 0 {
		r.unrep++
		fmt.Fprintf(os.Stderr, "unreproduced failure in %s %v: %s\n", st.Name, c.choices[:c.pos], msg)
		return false
	}
	r.viol = append(r.viol, violation{Section: st.Name, Choices: append([]int{}, c.choices[:c.pos]...), Index: idx, Msg: msg, Key: key, Log: firstLog})
	return true
}

type shardResult struct {
	Secs    []*secStat
	Viol    []violation
	Known   map[string]int
	Unrep   int
	NStates int
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

type known struct {
	Kind     string `json:"kind"` // known | fixed
	Property string `json:"property"`
	Key      string `json:"key"`
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
}

func loadKnown(prop string) map[string]string {
	m := map[string]string{}
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.jsonl"))
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.TrimSpace(l) == "" {
			continue
		}
		var k known
		if json.Unmarshal([]byte(l), &k) == nil && k.Kind == "known" && k.Property == prop {
			m[k.Key] = k.What
		}
	}
	return m
}

func atomicStore(b []byte, v int64) {
	atomic.StoreInt64((*int64)(ptr(b)), v)
}
func atomicLoad(b []byte) int64 { return atomic.LoadInt64((*int64)(ptr(b))) }

func (r *Run) child() {
	debug.SetMaxStack(256 << 20)
	go func() {
		var ms runtime.MemStats
		for {
			time.Sleep(200 * time.Millisecond)
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<30 {
				fmt.Fprintln(os.Stderr, "memory watchdog: execution holds more than 3 GiB")
				os.Exit(77)
			}
		}
	}()
}

// Def is a check.
type Def struct {
	Prop   string
	Level  string // model_checking or fault_enumeration
	Rule   string // what is enumerated and what makes a case distinct
	Bounds string
	Assume []string
	Body   func(r *Run)
	Hang   time.Duration // without progress, for this long, is a hang
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

// Main runs the check: parent, shard child or replay.
func Main(d Def) {
	if s := os.Getenv("VMC_SHARD"); s != "" {
		runChild(d)
		return
	}
	os.Exit(parent(d))
}

func newRun(d Def) *Run {
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	r := &Run{Prop: d.Prop, Tier: tier, Thorough: tier == "thorough", nshards: 1, states: map[uint64]struct{}{},
		known: map[string]int{}, knownSet: loadKnown(d.Prop), filter: os.Getenv("VMC_FILTER")}
	lim := 500
	if r.Thorough {
		lim = 7200
	}
	r.deadline = time.Now().Add(time.Duration(envInt("VMC_DEADLINE", lim)) * time.Second)
	return r
}

func runChild(d Def) {
	r := newRun(d)
	fmt.Sscanf(os.Getenv("VMC_SHARD"), "%d/%d", &r.shard, &r.nshards)
	r.only = int64(envInt("VMC_ONLY", 0))
	dir := os.Getenv("VMC_DIR")
	r.status = mapStatus(filepath.Join(dir, fmt.Sprintf("status%d", r.shard)))
	r.child()
	d.Body(r)
	res := shardResult{Secs: r.secs, Viol: r.viol, Known: r.known, Unrep: r.unrep, NStates: len(r.states)}
	b, err := json.Marshal(res)
	if err != nil {
		panic(err)
	}
	hs := make([]byte, 0, len(r.states)*8)
	for h := range r.states {
		for k := 0; k < 8; k++ {
			hs = append(hs, byte(h>>(8*k)))
		}
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("states%d", r.shard)), hs, 0644); err != nil {
		panic(err)
	}
	if err := os.WriteFile(filepath.Join(dir, fmt.Sprintf("result%d", r.shard)), b, 0644); err != nil {
		panic(err)
	}
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
