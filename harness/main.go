// The conformance driver: it replays behaviours generated from the TLA+
// specifications in /verif/spec against the real packages, and records
// behaviours of the real packages for TLC to check.
//
//	drv replay PROP VECTORS   replay every vector, compare for PROP
//	drv record PROP N OUT     write N recorded behaviours to OUT
//
// It prints one JSON object per failure on stdout and a summary at the end.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// A checker replays one vector and returns the differences it saw.
type checker func(c *ctx, raw json.RawMessage)

type ctx struct {
	prop   string
	seed   int64
	idx    int
	rng    *rand.Rand
	fails  []string
	checks int64
	notes  map[string]int
	job    job
}

func (c *ctx) fail(format string, args ...interface{}) {
	if len(c.fails) < 5 {
		c.fails = append(c.fails, fmt.Sprintf(format, args...))
	}
}

// check counts one comparison
func (c *ctx) check(ok bool, format string, args ...interface{}) bool {
	c.checks++
	if !ok {
		c.fail(format, args...)
	}
	return ok
}

func (c *ctx) note(what string) {
	if c.notes == nil {
		c.notes = make(map[string]int)
	}
	c.notes[what]++
}

func (c *ctx) is(props ...string) bool {
	for _, p := range props {
		if p == c.prop {
			return true
		}
	}
	return false
}

func decode(c *ctx, raw json.RawMessage, v interface{}) bool {
	if err := json.Unmarshal(raw, v); err != nil {
		fmt.Fprintf(os.Stderr, "bad vector %d: %v\n", c.idx, err)
		os.Exit(3)
	}
	return true
}

func seedEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func newRand(seed int64, parts ...interface{}) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, seed, parts)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

var checkers = map[string]checker{}   // by vector kind
var recorders = map[string]recorder{} // by property

type recorder func(seed int64, n int, emit func(v interface{}))

func main() {
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage: drv replay PROP FILE | drv record PROP N FILE")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "replay":
		replay(os.Args[2], os.Args[3])
	case "record":
		n, _ := strconv.Atoi(os.Args[3])
		record(os.Args[2], n, os.Args[4])
	default:
		os.Exit(3)
	}
}

func record(prop string, n int, out string) {
	r, ok := recorders[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no recorder for", prop)
		os.Exit(3)
	}
	f, err := os.Create(out)
	if err != nil {
		panic(err)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	lines := 0
	r(seedEnv(), n, func(v interface{}) {
		b, err := json.Marshal(v)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		lines++
	})
	w.Flush()
	f.Close()
	fmt.Printf("{\"recorded\":%d}\n", lines)
}

type job struct {
	idx int
	raw json.RawMessage
}

// vectorHeader is the part of a vector that selects its checker.
type vectorHeader struct {
	K string `json:"k"`
}

// CSVWrite quotes the JSON text of a vector as a JSON string.
func unquote(line []byte) (json.RawMessage, error) {
	if len(line) > 0 && line[0] == '"' {
		var s string
		if err := json.Unmarshal(line, &s); err != nil {
			return nil, err
		}
		return json.RawMessage(s), nil
	}
	return json.RawMessage(append([]byte(nil), line...)), nil
}

var hangAfter = 60 * time.Second

func replay(prop, file string) {
	f, err := os.Open(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	if s := os.Getenv("DRV_HANG"); s != "" {
		if n, err := strconv.Atoi(s); err == nil {
			hangAfter = time.Duration(n) * time.Second
		}
	}
	workers := runtime.NumCPU()
	if os.Getenv("DRV_WORKERS") != "" {
		workers, _ = strconv.Atoi(os.Getenv("DRV_WORKERS"))
	}
	// What every worker is busy with, so that the caller can find the
	// culprit when the process dies.
	var busyf *os.File
	if p := os.Getenv("DRV_BUSY"); p != "" {
		busyf, _ = os.Create(p)
	}
	var (
		jobs             = make(chan job, 256)
		wg               sync.WaitGroup
		mu               sync.Mutex
		cases, chks, bad int64
		out              = bufio.NewWriter(os.Stdout)
		notes            = map[string]int{}
		current          = make([]atomic.Value, workers)
	)
	seed := seedEnv()
	report := func(j job, msgs []string) {
		mu.Lock()
		defer mu.Unlock()
		bad++
		if bad <= 50 {
			b, _ := json.Marshal(map[string]interface{}{"fail": msgs, "idx": j.idx, "vector": string(j.raw)})
			out.Write(b)
			out.WriteByte('\n')
		}
	}
	for w := 0; w < workers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				if busyf != nil {
					var b [8]byte
					binary.LittleEndian.PutUint64(b[:], uint64(j.idx)+1)
					busyf.WriteAt(b[:], int64(w*8))
				}
				c := &ctx{prop: prop, seed: seed, idx: j.idx, rng: newRand(seed, j.idx), job: j}
				current[w].Store(&running{j, time.Now()})
				runOne(c, j)
				current[w].Store((*running)(nil))
				atomic.AddInt64(&cases, 1)
				atomic.AddInt64(&chks, c.checks)
				if len(c.fails) > 0 {
					report(j, c.fails)
				}
				if len(c.notes) > 0 {
					mu.Lock()
					for k, v := range c.notes {
						notes[k] += v
					}
					mu.Unlock()
				}
			}
			if busyf != nil {
				var b [8]byte
				busyf.WriteAt(b[:], int64(w*8))
			}
		}()
	}
	finish := func() {
		b, _ := json.Marshal(map[string]interface{}{"cases": cases, "checks": chks, "failed": bad, "notes": notes})
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
	go func() {
		for {
			time.Sleep(time.Second)
			for w := range current {
				if r, _ := current[w].Load().(*running); r != nil && time.Since(r.since) > hangAfter {
					report(r.job, []string{fmt.Sprintf("no answer within %v", hangAfter)})
					mu.Lock()
					finish()
					os.Exit(1)
				}
			}
		}
	}()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	idx := 0
	if s := os.Getenv("DRV_IDX"); s != "" {
		idx, _ = strconv.Atoi(s)
	}
	skip := map[int]bool{}
	for _, s := range strings.Split(os.Getenv("DRV_SKIP"), ",") {
		if n, err := strconv.Atoi(s); err == nil {
			skip[n] = true
		}
	}
	only := -1
	if s := os.Getenv("DRV_ONLY"); s != "" {
		only, _ = strconv.Atoi(s)
	}
	for sc.Scan() {
		if len(sc.Bytes()) == 0 {
			continue
		}
		if !skip[idx] && (only < 0 || only == idx) {
			jobs <- job{idx, append([]byte(nil), sc.Bytes()...)}
		}
		idx++
	}
	if sc.Err() != nil {
		fmt.Fprintln(os.Stderr, sc.Err())
		os.Exit(3)
	}
	close(jobs)
	wg.Wait()
	if fin, ok := finalizers[prop]; ok {
		c := &ctx{prop: prop, seed: seed, idx: -1, rng: newRand(seed, -1)}
		fin(c, func(j job, msgs []string) { report(j, msgs) })
		chks += c.checks
		for k, v := range c.notes {
			notes[k] += v
		}
	}
	finish()
	if bad > 0 {
		os.Exit(1)
	}
}

// A finalizer runs after all the vectors of a property, for checks that
// are batched (compiling generated code, for example).
var finalizers = map[string]func(c *ctx, report func(job, []string)){}

type running struct {
	job   job
	since time.Time
}

func runOne(c *ctx, j job) {
	defer func() {
		if r := recover(); r != nil {
			c.fail("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	raw, err := unquote(j.raw)
	if err != nil {
		fmt.Fprintln(os.Stderr, "bad line", j.idx, err)
		os.Exit(3)
	}
	var h vectorHeader
	if err := json.Unmarshal(raw, &h); err != nil {
		fmt.Fprintln(os.Stderr, "bad line", j.idx, err)
		os.Exit(3)
	}
	fn, ok := checkers[h.K]
	if !ok {
		fmt.Fprintln(os.Stderr, "no checker for kind", h.K)
		os.Exit(3)
	}
	fn(c, raw)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

func jsonOf(v interface{}) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprint(v)
	}
	return string(b)
}
