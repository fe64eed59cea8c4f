package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"sync"
	"syscall"
	"time"
)

// P12 runs the code under test in child processes: what it must not do (never
// come back, eat all memory, die of a fatal error that cannot be recovered
// from) would end the process that does it.

const (
	robCallCPU = 25 * time.Second // processor time one call may use
	robCallRSS = 3 << 30          // memory one call may use
	robWall    = 10 * time.Minute // a call that sleeps
)

type robReq struct {
	Raw  json.RawMessage
	Tag  string
	Idx  int
	Seed int64
	Tier string
}

type robViol struct {
	Key, Msg string
	Blob     []byte
}

type robAns struct {
	Viols  []robViol
	Counts map[string]int64
	Steps  int
}

type robProc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	errb *tailBuf
	pr   *os.File
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 { // a fatal error says what happened first
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func (t *tailBuf) reset() { t.mu.Lock(); t.b = nil; t.mu.Unlock() }

func robStart() *robProc {
	cmd := exec.Command(os.Args[0], "robust-child")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	pr, pw, err := os.Pipe()
	if err != nil {
		panic("harness: " + err.Error())
	}
	cmd.ExtraFiles = []*os.File{pw}
	p := &robProc{cmd: cmd, in: in, errb: &tailBuf{}, pr: pr}
	cmd.Stderr = p.errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	pw.Close()
	p.out = bufio.NewReaderSize(pr, 1<<20)
	return p
}

func (p *robProc) end() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
	p.pr.Close()
}

var (
	robMu   sync.Mutex
	robIdle []*robProc
)

func init() {
	props["P12"] = robustParent
	limits["P12"] = 20 * time.Minute
}

func robustParent(t *T) {
	robMu.Lock()
	var p *robProc
	if n := len(robIdle); n > 0 {
		p, robIdle = robIdle[n-1], robIdle[:n-1]
	}
	robMu.Unlock()
	if p == nil {
		p = robStart()
	}
	p.errb.reset()
	if os.Getenv("VH_SLOW") != "" {
		defer func(at time.Time) {
			if d := time.Since(at); d > 15*time.Second {
				fmt.Fprintf(os.Stderr, "slow: %s:%d %v\n", t.Tag, t.Idx, d)
			}
		}(time.Now())
	}
	b, _ := json.Marshal(robReq{Raw: t.Raw, Tag: t.Tag, Idx: t.Idx, Seed: t.C.Seed, Tier: t.C.Tier})
	call, at, told := "start", time.Now(), os.Getenv("VH_SLOW") != ""
	var ans *robAns
	lines := make(chan string, 16)
	go func() {
		defer close(lines)
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			return
		}
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				return
			}
			lines <- l
			if l[0] == '=' {
				return
			}
		}
	}()
	timer := time.NewTimer(robWall)
	defer timer.Stop()
	var stop string
loop:
	for {
		select {
		case l, ok := <-lines:
			if !ok {
				break loop
			}
			switch l[0] {
			case '@':
				if d := time.Since(at); told && d > 2*time.Second {
					fmt.Fprintf(os.Stderr, "slow: %s:%d %s %v\n", t.Tag, t.Idx, call, d)
				}
				call, at = strings.TrimSpace(l[1:]), time.Now()
			case '!':
				stop = strings.TrimSpace(l[1:])
			case '=':
				ans = &robAns{}
				if err := json.Unmarshal([]byte(l[1:]), ans); err != nil {
					panic("harness: " + err.Error())
				}
			}
		case <-timer.C:
			stop = "does not come back"
			break loop
		}
	}
	if ans == nil {
		p.end()
		for range lines {
		}
		p.errb.mu.Lock()
		text := string(p.errb.b)
		p.errb.mu.Unlock()
		if strings.Contains(text, "harness:") && stop == "" {
			panic("harness: " + text)
		}
		if stop == "" {
			stop = "ends the process: " + robFatal(text)
		}
		t.Fail("dead:"+call, "%s %s", call, stop)
		return
	}
	for _, v := range ans.Viols {
		t.FailBlob(v.Key, v.Blob, "%s", v.Msg)
	}
	for k, n := range ans.Counts {
		t.Count(k, int(n))
	}
	t.Steps = ans.Steps
	robMu.Lock()
	robIdle = append(robIdle, p)
	robMu.Unlock()
}

func robFatal(text string) string {
	var o []string
	for _, l := range strings.Split(text, "\n") {
		if strings.Contains(l, "fatal error") || strings.Contains(l, "runtime:") || strings.Contains(l, "panic") ||
			(strings.Contains(l, "pdfer") && len(o) < 12) {
			o = append(o, l)
		}
		if len(o) > 14 {
			break
		}
	}
	if len(o) == 0 && len(text) > 500 {
		return text[:500]
	}
	return strings.Join(o, "\n")
}

// ------------------------------------------------------------- the child

type robChild struct {
	mu    sync.Mutex
	out   *os.File
	call  string
	since time.Duration
}

func cpuNow() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func rssNow() int64 {
	b, _ := os.ReadFile("/proc/self/statm")
	var size, rss int64
	fmt.Sscan(string(b), &size, &rss)
	return rss * int64(os.Getpagesize())
}

func (c *robChild) say(s string) { c.out.WriteString(s + "\n") }

func (c *robChild) begin(call string) {
	c.mu.Lock()
	c.call, c.since = call, cpuNow()
	c.mu.Unlock()
	if call != "" {
		c.say("@" + call)
	}
}

// robWhere names the functions of the code under test that are running.
func robWhere() string {
	b := make([]byte, 1<<20)
	b = b[:runtime.Stack(b, true)]
	o, last := "", ""
	for _, l := range strings.Split(string(b), "\n") {
		const p = "github.com/benedoc-inc/pdfer/"
		if strings.HasPrefix(l, p) && len(o) < 700 {
			if i := strings.LastIndexByte(l, '('); i > 0 && l[len(p):i] != last {
				last = l[len(p):i]
				o += " in " + last
			}
		}
	}
	return o
}

func (c *robChild) watch() {
	for {
		time.Sleep(100 * time.Millisecond)
		c.mu.Lock()
		call, since := c.call, c.since
		c.mu.Unlock()
		if call == "" {
			continue
		}
		if d := cpuNow() - since; d > robCallCPU {
			c.say(fmt.Sprintf("!has no answer after %v of processor time%s", d.Round(time.Second), robWhere()))
			os.Exit(3)
		}
		if m := rssNow(); m > robCallRSS {
			c.say(fmt.Sprintf("!uses %d MB of memory%s", m>>20, robWhere()))
			os.Exit(3)
		}
	}
}

func robustChild() {
	if f, err := os.Create(os.Getenv("VH_CHILD_PROFILE")); err == nil {
		pprof.StartCPUProfile(f)
		time.AfterFunc(20*time.Second, pprof.StopCPUProfile)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(2 << 30)
	syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30})
	c := &robChild{out: os.NewFile(3, "answers")}
	go c.watch()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	for {
		l, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q robReq
		if err := json.Unmarshal(l, &q); err != nil {
			panic("harness: " + err.Error())
		}
		h := fnv.New64a()
		fmt.Fprintf(h, "P12|%s|%d|%d", q.Tag, q.Idx, q.Seed)
		t := &T{Prop: "P12", Idx: q.Idx, Raw: q.Raw, Tag: q.Tag, R: rand.New(rand.NewSource(int64(h.Sum64()))),
			C: &Ctx{Prop: "P12", Tier: q.Tier, Seed: q.Seed, counts: map[string]int64{}}}
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprintf(os.Stderr, "harness: %v\n%s\n", r, debug.Stack())
					os.Exit(2)
				}
			}()
			robustTrace(t, c)
		}()
		c.begin("")
		a := robAns{Counts: t.C.counts, Steps: t.Steps}
		for _, v := range t.viols {
			a.Viols = append(a.Viols, robViol{v.Key, v.Msg, v.Blob})
		}
		b, _ := json.Marshal(a)
		c.say("=" + string(b))
	}
}

// topFrame is the function of the code under test in which a panic arose.
func topFrame(st []byte) string {
	seen := false
	for _, l := range bytes.Split(st, []byte("\n")) {
		if bytes.HasPrefix(l, []byte("panic(")) {
			seen = true
		}
		if seen && bytes.HasPrefix(l, []byte("github.com/benedoc-inc/pdfer/")) {
			s := strings.TrimPrefix(string(l), "github.com/benedoc-inc/pdfer/")
			if i := strings.LastIndexByte(s, '('); i > 0 {
				s = s[:i]
			}
			return s
		}
	}
	return "?"
}
