// Command verifharness drives the real go-docx code under generated workloads
// while monitors watch for property violations. It only uses the exported API.
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one monitored property.
type Prop struct {
	ID    string
	Quick int    // number of cases in the quick tier
	Deep  int    // number of cases in the thorough tier
	Rule  string // how cases are made and what makes one non-trivial
	Run   func(c *Ctx)
	// CPU seconds a single case may burn before the watchdog declares that the
	// code under test does not return (0: default).
	CaseCPU float64
	// Minimum number of each event over a whole run: fewer means the monitors
	// were not exercised (inconclusive, exit 3).
	Need map[string]int
	// Probes are fixed cases run before the random ones.
	Probes []Probe
	// Shards limits worker processes (0: driver default).
	Shards int
}

// Probe is a fixed, named case.
type Probe struct {
	Name string
	Run  func(c *Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Violation is one refuted expectation with what is needed to replay it.
type Violation struct {
	Property string `json:"property"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
	Tier     string `json:"tier"`
	Sig      string `json:"sig"`
	Msg      string `json:"msg"`
	Detail   string `json:"detail,omitempty"`
}

// Result is what a worker reports.
type Result struct {
	Property   string         `json:"property"`
	Cases      int            `json:"cases"`
	Events     map[string]int `json:"events"`
	Distinct   []string       `json:"distinct"`
	Samples    []string       `json:"samples"`
	Violations []Violation    `json:"violations"`
	NViol      int            `json:"nviol"`
	Rule       string         `json:"rule"`
	Need       map[string]int `json:"need"`
	Total      int            `json:"total"`
}

// Ctx is handed to a case: randomness, and the recording side of the monitors.
type Ctx struct {
	*rand.Rand
	Prop  *Prop
	Case  int
	Seed  int64
	Tier  string
	sink  *sink
	trace []string
	nviol int
	mu    sync.Mutex
}

type sink struct {
	mu       sync.Mutex
	events   map[string]int
	distinct map[uint64]struct{}
	samples  []string
	viol     []Violation
	nviol    int
	sigs     map[string]int
}

// Event counts one observation made by a monitor.
func (c *Ctx) Event(name string) { c.EventN(name, 1) }

// EventN counts n observations.
func (c *Ctx) EventN(name string, n int) {
	c.sink.mu.Lock()
	c.sink.events[name] += n
	c.sink.mu.Unlock()
}

// Distinct records the identity of a non-trivial case.
func (c *Ctx) Distinct(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.sink.mu.Lock()
	c.sink.distinct[h.Sum64()] = struct{}{}
	c.sink.mu.Unlock()
}

// Sample keeps a few written-out cases for the evidence file.
func (c *Ctx) Sample(s string) {
	c.sink.mu.Lock()
	if len(c.sink.samples) < 3 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.sink.samples = append(c.sink.samples, strings.ToValidUTF8(s, "?"))
	}
	c.sink.mu.Unlock()
}

// Trace logs an operation of the history of this case.
func (c *Ctx) Trace(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.trace) < 4000 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.trace = append(c.trace, s)
	}
	c.mu.Unlock()
}

// Violate reports a violation; sig is a stable class used for known findings.
func (c *Ctx) Violate(sig, format string, a ...interface{}) {
	c.ViolateD(sig, "", format, a...)
}

// ViolateD is Violate with a long detail.
func (c *Ctx) ViolateD(sig, detail, format string, a ...interface{}) {
	msg := fmt.Sprintf(format, a...)
	if len(msg) > 2000 {
		msg = msg[:2000] + "..."
	}
	c.mu.Lock()
	tr := strings.Join(c.trace, "\n")
	c.nviol++
	c.mu.Unlock()
	if tr != "" {
		detail += "\n--- history ---\n" + tr
	}
	if len(detail) > 200000 {
		detail = detail[:200000] + "..."
	}
	v := Violation{Property: c.Prop.ID, Case: c.Case, Seed: c.Seed, Tier: c.Tier, Sig: sig, Msg: strings.ToValidUTF8(msg, "?"), Detail: strings.ToValidUTF8(detail, "?")}
	s := c.sink
	s.mu.Lock()
	s.nviol++
	s.sigs[sig]++
	if s.sigs[sig] <= 3 && len(s.viol) < 60 {
		s.viol = append(s.viol, v)
	}
	s.mu.Unlock()
}

// Failed says whether this case has reported something.
func (c *Ctx) Failed() bool { c.mu.Lock(); defer c.mu.Unlock(); return c.nviol > 0 }

// Chance is true with probability p.
func (c *Ctx) Chance(p float64) bool { return c.Float64() < p }

// guard runs f and turns a panic into a violation.
func (c *Ctx) guard(sig, what string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			st := string(debug.Stack())
			c.ViolateD(sig, st, "panic in %s: %v @ %s", what, r, panicSite(st))
		}
	}()
	f()
	return true
}

// panicSite extracts the first library frame below the panic from a stack.
func panicSite(st string) string {
	lines := strings.Split(st, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if seen && strings.Contains(l, "go-docx.") && !strings.HasPrefix(l, "\t") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return strings.TrimPrefix(l, "github.com/fumiama/")
		}
	}
	return "?"
}

func caseSeed(seed int64, prop string, k int) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%d", seed, prop, k)
	return int64(h.Sum64() & 0x7fffffffffffffff)
}

// deadlocked gives the stacks if no goroutine but the watchdog can ever run
// again: all wait for locks or channels.
func deadlocked() string {
	buf := make([]byte, 1<<20)
	buf = buf[:runtime.Stack(buf, true)]
	for i, g := range strings.Split(string(buf), "\n\n") {
		if i == 0 || g == "" {
			continue // the watchdog itself comes first
		}
		a, b := strings.IndexByte(g, '['), strings.IndexByte(g, ']')
		if a < 0 || b < a {
			return ""
		}
		state := g[a+1 : b]
		if j := strings.IndexByte(state, ','); j >= 0 {
			state = state[:j]
		}
		switch {
		case strings.HasPrefix(state, "sync."), strings.HasPrefix(state, "semacquire"), strings.HasPrefix(state, "chan "), strings.HasPrefix(state, "select"):
		default:
			return ""
		}
	}
	return string(buf)
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec) + float64(ru.Utime.Usec)/1e6
}

func main() {
	propID := flag.String("prop", "", "property id")
	seed := flag.Int64("seed", 1, "seed")
	tier := flag.String("tier", "quick", "quick or thorough")
	shard := flag.Int("shard", 0, "shard index")
	shards := flag.Int("shards", 1, "number of shards")
	one := flag.Int("case", -1, "run only this case, verbosely")
	out := flag.String("out", "", "result file")
	prog := flag.String("progress", "", "progress file")
	cases := flag.Int("cases", 0, "override the number of cases")
	info := flag.Bool("info", false, "print property info")
	flag.Parse()
	if *info {
		for id, p := range props {
			fmt.Printf("%s %d %d %d\n", id, p.Quick, p.Deep, p.Shards)
		}
		return
	}
	p := props[*propID]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", *propID)
		os.Exit(4)
	}
	n := p.Quick
	if *tier == "thorough" {
		n = p.Deep
	}
	if *cases > 0 {
		n = *cases
	}
	n += len(p.Probes)
	s := &sink{events: map[string]int{}, distinct: map[uint64]struct{}{}, sigs: map[string]int{}}
	var pf *os.File
	if *prog != "" {
		var err error
		pf, err = os.Create(*prog)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
	}
	limit := p.CaseCPU
	if limit == 0 {
		limit = 60
	}
	var cur atomic.Int64
	var startCPU atomic.Int64 // microseconds
	cur.Store(-1)
	flush := func(ncases int) {
		s.mu.Lock()
		defer s.mu.Unlock()
		r := Result{Property: p.ID, Cases: ncases, Events: s.events, Samples: s.samples, Violations: s.viol, NViol: s.nviol, Rule: p.Rule, Need: p.Need, Total: n}
		for h := range s.distinct {
			var b [8]byte
			for i := range b {
				b[i] = byte(h >> (8 * i))
			}
			r.Distinct = append(r.Distinct, hex.EncodeToString(b[:]))
		}
		sort.Strings(r.Distinct)
		if *out == "" {
			fmt.Printf("cases %d distinct %d violations %d\n", ncases, len(r.Distinct), r.NViol)
			ev := []string{}
			for k, v := range r.Events {
				if !strings.HasPrefix(k, "tag ") {
					ev = append(ev, fmt.Sprintf("%s=%d", k, v))
				}
			}
			sort.Strings(ev)
			fmt.Println(strings.Join(ev, "; "))
			for sig, k := range s.sigs {
				fmt.Printf("SIG %s x%d\n", sig, k)
			}
			for _, v := range r.Violations {
				m := v.Msg
				if len(m) > 500 {
					m = m[:500] + "..."
				}
				fmt.Printf("* case %d [%s] %s\n", v.Case, v.Sig, m)
				if *one >= 0 && len(v.Detail) > 0 {
					fmt.Println(v.Detail)
				}
			}
			return
		}
		f, err := os.Create(*out)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		w := bufio.NewWriter(f)
		_ = json.NewEncoder(w).Encode(&r)
		_ = w.Flush()
		_ = f.Close()
	}
	var curCtx atomic.Pointer[Ctx]
	var done atomic.Int64
	go func() { // watchdog: a case that burns CPU or memory without end
		var ms runtime.MemStats
		var last int64 = -1
		ticks, stuck := 0, 0
		for i := 0; ; i++ {
			time.Sleep(250 * time.Millisecond)
			k := cur.Load()
			if k < 0 {
				continue
			}
			if k != last {
				last, ticks, stuck = k, 0, 0
			}
			ticks++
			if ticks > 60 && ticks%4 == 0 {
				if st := deadlocked(); st != "" && cur.Load() == k {
					stuck++
					if stuck >= 15 {
						curCtx.Load().ViolateD("deadlock", st, "case %d: every goroutine waits for another one", k)
						flush(int(done.Load()))
						os.Exit(0)
					}
				} else {
					stuck = 0
				}
			}
			c := curCtx.Load()
			if used := cpuSeconds() - float64(startCPU.Load())/1e6; used > limit && cur.Load() == k {
				c.Violate("no-return", "case %d used %.0f CPU seconds without returning", k, used)
				flush(int(done.Load()))
				os.Exit(0)
			}
			if i%4 == 0 {
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 3<<30 && cur.Load() == k {
					c.Violate("memory", "case %d holds %d MiB of heap", k, ms.HeapAlloc>>20)
					flush(int(done.Load()))
					os.Exit(0)
				}
			}
		}
	}()
	for k := 0; k < n; k++ {
		if *one >= 0 {
			if k > 0 {
				break
			}
			k = *one
		} else if k%*shards != *shard {
			continue
		}
		if pf != nil {
			_, _ = pf.WriteAt([]byte(fmt.Sprintf("%012d\n", k)), 0)
		}
		c := &Ctx{Rand: rand.New(rand.NewSource(caseSeed(*seed, p.ID, k))), Prop: p, Case: k, Seed: *seed, Tier: *tier, sink: s}
		curCtx.Store(c)
		startCPU.Store(int64(cpuSeconds() * 1e6))
		cur.Store(int64(k))
		if k < len(p.Probes) {
			c.Event("fixed probes run")
			c.guard("panic:"+p.Probes[k].Name, "probe "+p.Probes[k].Name, func() { p.Probes[k].Run(c) })
		} else {
			c.guard("panic", "case", func() { p.Run(c) })
		}
		cur.Store(-1)
		done.Add(1)
		if s.nviol > 400 {
			break
		}
		if *one >= 0 {
			break
		}
	}
	flush(int(done.Load()))
}
