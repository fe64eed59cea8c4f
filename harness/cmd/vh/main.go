// Command vh replays behaviours generated from the TLA+ specifications into
// the code under test (built from /repo's working tree) and compares what it
// observes with what the specification says.
//
//	vh PROP -traces FILE -seed N -tier quick|thorough -out DIR -known FILE
//
// It writes DIR/result.json; check.py turns that into exit codes and evidence.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

// T is the context of one replayed behaviour.
type T struct {
	Prop  string
	Idx   int
	Raw   json.RawMessage
	R     *rand.Rand
	C     *Ctx
	Steps int
	Tag   string // which generator the behaviour came from
	viols []viol
	limit time.Duration
}

type viol struct {
	Idx  int    `json:"trace_index"`
	Tag  string `json:"generator"`
	Key  string `json:"key"`
	Msg  string `json:"message"`
	Blob []byte `json:"-"`
	Raw  json.RawMessage
}

type Ctx struct {
	Prop, Tier, Out string
	Seed            int64
	known           map[string]bool
	mu              sync.Mutex
	viols           []viol
	knownHits       map[string]viol
	samples, steps  int64
	counts          map[string]int64
}

// Fail records a violation. key identifies the failing input or history and is
// what the known-findings file refers to.
func (t *T) Fail(key, f string, a ...interface{}) {
	t.FailBlob(key, nil, f, a...)
}

func (t *T) FailBlob(key string, blob []byte, f string, a ...interface{}) {
	if len(t.viols) < 20 {
		t.viols = append(t.viols, viol{Idx: t.Idx, Tag: t.Tag, Key: key, Msg: fmt.Sprintf(f, a...), Blob: blob, Raw: t.Raw})
	}
}

func (t *T) Failed() bool { return len(t.viols) > 0 }

// Count adds to a named coverage counter.
func (t *T) Count(name string, n int) {
	t.C.mu.Lock()
	t.C.counts[name] += int64(n)
	t.C.mu.Unlock()
}

// Do runs f, turning a panic into a violation.
func (t *T) Do(what string, blob []byte, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			t.FailBlob("panic:"+what, blob, "%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
			ok = false
		}
	}()
	f()
	return true
}

func trimStack(b []byte) []byte {
	lines := bytes.Split(b, []byte("\n"))
	var o [][]byte
	for _, l := range lines {
		if bytes.Contains(l, []byte("pdfer")) {
			o = append(o, l)
		}
	}
	if len(o) > 8 {
		o = o[:8]
	}
	return bytes.Join(o, []byte("\n"))
}

func (t *T) JSON(v interface{}) {
	if err := json.Unmarshal(t.Raw, v); err != nil {
		panic(fmt.Sprintf("harness: bad trace: %v: %.200s", err, t.Raw))
	}
}

type propFn func(t *T)

var props = map[string]propFn{}

// limits are the properties' own limits on the time of one behaviour.
var limits = map[string]time.Duration{}

func main() {
	debug.SetGCPercent(400) // documents are built and dropped all the time
	debug.SetMemoryLimit(12 << 30)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh PROP flags")
		os.Exit(2)
	}
	prop := os.Args[1]
	if prop == "robust-child" {
		robustChild()
		return
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	traces := fs.String("traces", "", "comma separated trace files")
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "")
	known := fs.String("known", "", "known findings file")
	only := fs.String("only", "", "replay only generator:index")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	prof := fs.String("cpuprofile", "", "")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, err := os.Create(*prof)
		if err != nil {
			panic(err)
		}
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if rec, ok := recorders[prop]; ok && *traces == "" {
		rec(*seed, *tier, *out)
		return
	}
	fn, ok := props[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	debug.SetMemoryLimit(20 << 30)
	c := &Ctx{Prop: prop, Tier: *tier, Out: *out, Seed: *seed, known: map[string]bool{},
		knownHits: map[string]viol{}, counts: map[string]int64{}}
	c.loadKnown(*known)

	type job struct {
		tag string
		idx int
		raw []byte
	}
	jobs := make(chan job, 64)
	var wg sync.WaitGroup
	for w := 0; w < *workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				c.one(fn, j.tag, j.idx, j.raw)
			}
		}()
	}
	for _, f := range strings.Split(*traces, ",") {
		if f == "" {
			continue
		}
		fh, err := os.Open(f)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		tag := strings.TrimSuffix(filepath.Base(f), ".ndjson")
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 256<<20)
		i := 0
		for sc.Scan() {
			if len(bytes.TrimSpace(sc.Bytes())) == 0 {
				continue
			}
			if *only == "" || *only == fmt.Sprintf("%s:%d", tag, i) {
				jobs <- job{tag, i, append([]byte(nil), sc.Bytes()...)}
			}
			i++
			if c.tooMany() {
				break
			}
		}
		fh.Close()
	}
	close(jobs)
	wg.Wait()
	c.finish()
}

func (c *Ctx) tooMany() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viols) > 200
}

func (c *Ctx) one(fn propFn, tag string, idx int, raw []byte) {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s|%s|%d|%d", c.Prop, tag, idx, c.Seed)
	t := &T{Prop: c.Prop, Idx: idx, Raw: raw, C: c, Tag: tag, R: rand.New(rand.NewSource(int64(h.Sum64()))), limit: 60 * time.Second}
	if l, ok := limits[c.Prop]; ok {
		t.limit = l
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(string); ok && strings.HasPrefix(s, "harness:") {
					fmt.Fprintln(os.Stderr, s)
					fmt.Fprintf(os.Stderr, "%s\n", debug.Stack())
					os.Exit(2)
				}
				st := debug.Stack()
				if !bytes.Contains(st, []byte("benedoc-inc/pdfer")) {
					fmt.Fprintln(os.Stderr, "harness error:", r)
					fmt.Fprintf(os.Stderr, "%s\n", st)
					os.Exit(2)
				}
				t.Fail("panic", "panic: %v\n%s", r, trimStack(st))
			}
		}()
		fn(t)
	}()
	select {
	case <-done:
	case <-time.After(t.limit):
		// The call never came back: report it and stop, the goroutine cannot be killed.
		c.mu.Lock()
		c.viols = append(c.viols, viol{Idx: idx, Tag: tag, Key: "hang", Msg: fmt.Sprintf("no answer within %v", t.limit), Raw: raw})
		c.mu.Unlock()
		c.finish()
		os.Exit(0)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	c.samples++
	c.steps += int64(t.Steps)
	for _, v := range t.viols {
		if c.known[v.Key] {
			if old, ok := c.knownHits[v.Key]; !ok || v.Idx < old.Idx {
				c.knownHits[v.Key] = v
			}
			continue
		}
		c.viols = append(c.viols, v)
	}
}

// known findings: lines "known: property=<id> key=<key> <text>"
func (c *Ctx) loadKnown(p string) {
	if p == "" {
		return
	}
	b, err := os.ReadFile(p)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		fs := strings.Fields(l)
		if len(fs) >= 3 && fs[0] == "known:" && fs[1] == "property="+c.Prop && strings.HasPrefix(fs[2], "key=") {
			c.known[strings.TrimPrefix(fs[2], "key=")] = true
		}
	}
}

func (c *Ctx) finish() {
	sort.SliceStable(c.viols, func(i, j int) bool {
		a, b := c.viols[i], c.viols[j]
		if a.Tag != b.Tag {
			return a.Tag < b.Tag
		}
		return a.Idx < b.Idx
	})
	keys := map[string]int{}
	for _, v := range c.viols {
		keys[v.Key]++
	}
	res := map[string]interface{}{
		"samples": c.samples, "steps": c.steps, "violations": len(c.viols), "violation_keys": keys,
		"counts": c.counts,
	}
	kh := []string{}
	for k := range c.knownHits {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	res["known_hit"] = kh
	if len(c.viols) > 0 {
		v := c.viols[0]
		rp := filepath.Join(c.Out, fmt.Sprintf("replay-%s-%s-%d.json", c.Prop, v.Tag, v.Idx))
		o := map[string]interface{}{"property": c.Prop, "seed": c.Seed, "tier": c.Tier, "generator": v.Tag, "trace_index": v.Idx,
			"key": v.Key, "message": v.Msg, "trace": v.Raw}
		if v.Blob != nil {
			bp := strings.TrimSuffix(rp, ".json") + ".bin"
			os.WriteFile(bp, v.Blob, 0o644)
			o["input_file"] = bp
		}
		b, _ := json.MarshalIndent(o, "", " ")
		os.WriteFile(rp, b, 0o644)
		res["replay"] = rp
		seen := map[string]bool{}
		var msgs []string
		for _, v := range c.viols {
			if !seen[v.Key] && len(msgs) < 25 {
				seen[v.Key] = true
				msgs = append(msgs, fmt.Sprintf("[%s:%d] %s: %s", v.Tag, v.Idx, v.Key, v.Msg))
			}
		}
		res["messages"] = msgs
	}
	b, _ := json.MarshalIndent(res, "", " ")
	if err := os.WriteFile(filepath.Join(c.Out, "result.json"), b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// recorders produce observed traces (one JSON array) for trace validation.
var recorders = map[string]func(seed int64, tier, out string){}

// jsonRaw is a piece of a trace to be decoded later.
type jsonRaw struct{ json.RawMessage }

func (j jsonRaw) to(v interface{}) {
	if err := json.Unmarshal(j.RawMessage, v); err != nil {
		panic(fmt.Sprintf("harness: bad trace: %v: %.200s", err, j.RawMessage))
	}
}
