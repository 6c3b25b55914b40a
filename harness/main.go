// Conformance harness: drives the real github.com/lkmio/avformat code, either
// with behaviours generated by TLC from the TLA+ specifications ("replay") or
// with seeded random/enumerated histories whose observations are written as
// ndjson traces for TLC to validate ("record").
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// J is one trace record or one generated behaviour.
type J = map[string]any

// ---- watchdog --------------------------------------------------------------

var (
	opSeq   int64 // number of guarded calls started
	opBusy  int32 // guarded calls running
	curMu   sync.Mutex
	curDesc any
	hangSec = 45
	// several clients record at once: what the harness does for each must not
	// put their calls in an order, lest the race detector sees too little
	apart   bool
	clients []*tracer // then they count what they have recorded
)

func watchdog(hangFile string) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(200 * time.Millisecond)
		seq, busy := atomic.LoadInt64(&opSeq), atomic.LoadInt32(&opBusy) > 0
		if apart {
			curMu.Lock()
			busy = clients != nil
			for _, c := range clients {
				seq += atomic.LoadInt64(&c.beats)
			}
			curMu.Unlock()
		}
		if !busy || seq != last {
			last, since = seq, time.Now()
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		tooBig := ms.HeapAlloc > 6<<30
		if tooBig || time.Since(since) > time.Duration(hangSec)*time.Second {
			curMu.Lock()
			d, _ := json.Marshal(J{"hang": !tooBig, "memory": tooBig, "heap": ms.HeapAlloc, "call": curDesc})
			curMu.Unlock()
			if hangFile != "" {
				_ = os.WriteFile(hangFile, d, 0o644)
			}
			fmt.Fprintf(os.Stderr, "HANG %s\n", d)
			os.Exit(7)
		}
	}
}

// alive tells the watchdog that what is running gets on.
func alive() {
	if !apart {
		atomic.AddInt64(&opSeq, 1)
	}
}

// setCur describes what is running, for the watchdog's report.
func setCur(d any) {
	if apart {
		return
	}
	curMu.Lock()
	curDesc = d
	curMu.Unlock()
}

// guard runs f and reports whether it panicked.
func guard(f func()) (panicked bool, msg string) {
	if !apart {
		atomic.AddInt64(&opSeq, 1)
		atomic.AddInt32(&opBusy, 1)
	}
	done := false
	defer func() {
		if !apart {
			atomic.AddInt32(&opBusy, -1)
		}
		if r := recover(); !done { // panic(nil) included
			panicked = true
			msg = fmt.Sprint(r)
			if os.Getenv("VERIF_STACK") != "" {
				debug.PrintStack()
			}
		}
	}()
	f()
	done = true
	return
}

// ---- trace output ----------------------------------------------------------

type tracer struct {
	w        *bufio.Writer
	f        *os.File
	enc      *json.Encoder
	n        int
	beats    int64
	episodes int
	ops      map[string]int
}

func newTracer(path string) *tracer {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	return &tracer{w: w, f: f, enc: json.NewEncoder(w), ops: map[string]int{}}
}

func (t *tracer) emit(r any) {
	t.n++
	atomic.AddInt64(&t.beats, 1)
	if m, ok := r.(J); ok {
		if op, ok := m["op"].(string); ok {
			t.ops[op]++
		}
	}
	if apart {
		_, _ = t.w.Write(append(appendJSON(nil, reflect.ValueOf(r)), '\n'))
		return
	}
	if err := t.enc.Encode(r); err != nil {
		fatal(err)
	}
}

func (t *tracer) close() {
	_ = t.w.Flush()
	_ = t.f.Close()
}

// together lets k clients record at the same time, each with objects of its own;
// the trace is one client's after another's.
func together(t *tracer, r recorder, seed int64, n int, opt map[string]string, k int) {
	ts := make([]*tracer, k)
	mem := make([]*bytes.Buffer, k)
	var wg sync.WaitGroup
	start := make(chan bool)
	for i := range ts {
		mem[i] = &bytes.Buffer{}
		w := bufio.NewWriter(mem[i])
		ts[i] = &tracer{w: w, enc: json.NewEncoder(w), ops: map[string]int{}}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			<-start
			r(ts[i], rand.New(rand.NewSource(seed*64+int64(i))), n, opt)
		}(i)
	}
	curMu.Lock()
	clients = ts
	curMu.Unlock()
	close(start)
	wg.Wait()
	curMu.Lock()
	clients = nil
	curMu.Unlock()
	for i, x := range ts {
		_ = x.w.Flush()
		_, _ = t.w.Write(mem[i].Bytes())
		t.n += x.n
		t.episodes += x.episodes
		for o, c := range x.ops {
			t.ops[o] += c
		}
	}
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "HARNESS ERROR:", err)
	os.Exit(2)
}

// ---- registry --------------------------------------------------------------

type recorder func(t *tracer, rng *rand.Rand, n int, opt map[string]string)

// replayer executes one generated behaviour and returns "" or a mismatch.
type replayer func(b J) string

var (
	recorders = map[string]recorder{}
	replayers = map[string]replayer{}
)

// behaviours calls f with each behaviour TLC printed: "@@{\"ops\":...}"
func behaviours(path string, f func(J)) {
	file, err := os.Open(path)
	if err != nil {
		fatal(err)
	}
	defer file.Close()
	sc := bufio.NewScanner(file)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		if !strings.HasPrefix(sc.Text(), "\"@@") {
			continue
		}
		line, err := strconv.Unquote(sc.Text())
		if err != nil {
			fatal(err)
		}
		var b J
		if err := json.Unmarshal([]byte(line[2:]), &b); err != nil {
			fatal(err)
		}
		f(b)
	}
	if err := sc.Err(); err != nil {
		fatal(err)
	}
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: harness record|replay MODEL ...")
		os.Exit(2)
	}
	mode, model := os.Args[1], os.Args[2]
	fs := flag.NewFlagSet(mode, flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	n := fs.Int("n", 100, "number of episodes")
	out := fs.String("out", "", "trace or report file")
	in := fs.String("in", "", "behaviours (one JSON per line)")
	hang := fs.String("hang", "", "where a hang is described")
	opts := fs.String("opt", "{}", "JSON object of string options")
	_ = fs.Parse(os.Args[3:])
	opt := map[string]string{}
	if err := json.Unmarshal([]byte(*opts), &opt); err != nil {
		fatal(err)
	}
	// the library prints diagnostics; keep them out of our pipes
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	realOut := os.Stdout
	os.Stdout = devnull
	par, _ := strconv.Atoi(opt["par"])
	apart = mode == "record" && par > 1
	go watchdog(*hang)

	switch mode {
	case "record":
		r := recorders[model]
		if r == nil {
			fatal(fmt.Errorf("no recorder %s", model))
		}
		t := newTracer(*out)
		if apart {
			together(t, r, *seed, *n, opt, par)
		} else {
			r(t, rand.New(rand.NewSource(*seed)), *n, opt)
		}
		t.close()
		b, _ := json.Marshal(J{"events": t.n, "episodes": t.episodes, "ops": t.ops})
		fmt.Fprintf(realOut, "%s\n", b)
	case "replay":
		r := replayers[model]
		if r == nil {
			fatal(fmt.Errorf("no replayer %s", model))
		}
		total, bad := 0, 0
		var sample J
		behaviours(*in, func(b J) {
			setCur(b)
			total++
			if total < 4 || total == 1000 {
				sample = b
			}
			if why := r(b); why != "" {
				bad++
				if bad <= 5 {
					m, _ := json.Marshal(J{"behaviour": b, "why": why})
					fmt.Fprintf(realOut, "MISMATCH %s\n", m)
				}
			}
		})
		m, _ := json.Marshal(J{"replayed": total, "bad": bad, "sample": sample})
		fmt.Fprintf(realOut, "%s\n", m)
	default:
		fatal(fmt.Errorf("mode %s", mode))
	}
}
