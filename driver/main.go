// The driver generates cases from a seed, runs them on the real code of
// aiq/tok (built from /repo) and records what happened, one JSON row per line.
// TLC then checks the rows against the specification in /verif/spec.
//
//	driver <suite> -seed N -tier quick|thorough -out rows.ndjson [-in file]
//	driver replay -in case.json           runs one row again and prints it
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sync/atomic"
	"time"
)

// A case is generated without results; run fills them in.
type row interface {
	run()
}

type ctx struct {
	rnd      *rand.Rand
	thorough bool
	in       string
	emit     func(row)
}

// n picks a size by tier.
func (c *ctx) n(quick, thorough int) int {
	if c.thorough {
		return thorough
	}
	return quick
}

var suites = map[string]func(*ctx){}
var kinds = map[string]func() row{}

var (
	progress int64 // cases and runs started
	current  atomic.Value
)

func tick() { atomic.AddInt64(&progress, 1) }

// stop ends the run with the case that hangs (exit 3) or eats the memory
// (exit 4).  The results that were recorded up to then stay in the out file.
func stop(code int, why string) {
	r, _ := current.Load().([]byte)
	fmt.Printf("STOPPED %s %s\n", why, r)
	os.Exit(code)
}

func watch(limit time.Duration) {
	last, since := int64(-1), time.Now()
	var ms runtime.MemStats
	for {
		time.Sleep(200 * time.Millisecond)
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 6<<30 {
			stop(4, "memory")
		}
		if p := atomic.LoadInt64(&progress); p != last {
			last, since = p, time.Now()
		} else if time.Since(since) > limit {
			stop(3, "hang")
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver <suite> [flags]")
		os.Exit(2)
	}
	fs := flag.NewFlagSet("driver", flag.ExitOnError)
	seed := fs.Int64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	out := fs.String("out", "", "")
	in := fs.String("in", "", "")
	limit := fs.Int("limit", 20, "seconds without progress")
	fs.Parse(os.Args[2:])
	debug.SetMaxStack(512 << 20)
	go watch(time.Duration(*limit) * time.Second)

	if os.Args[1] == "replay" {
		replay(*in)
		return
	}
	suite, ok := suites[os.Args[1]]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown suite %q\n", os.Args[1])
		os.Exit(2)
	}
	f, err := os.Create(*out)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w := bufio.NewWriterSize(f, 1<<20)
	enc := json.NewEncoder(w)
	enc.SetEscapeHTML(false)
	rows := 0
	c := &ctx{
		rnd:      rand.New(rand.NewSource(*seed)),
		thorough: *tier == "thorough",
		in:       *in,
	}
	c.emit = func(r row) {
		b, _ := json.Marshal(r)
		current.Store(b)
		tick()
		w.Flush() // a fatal crash must not lose rows
		os.WriteFile(*out+".cur", b, 0o644)
		r.run()
		rows++
		if err := enc.Encode(r); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	suite(c)
	w.Flush()
	f.Close()
	os.Remove(*out + ".cur")
	fmt.Printf("ROWS %d\n", rows)
}

// rows runs cases that were generated from the specification.
func init() {
	suites["rows"] = func(c *ctx) {
		f, err := os.Open(c.in)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		defer f.Close()
		lines := bufio.NewScanner(f)
		lines.Buffer(nil, 1<<26)
		for lines.Scan() {
			var head struct {
				Kind string `json:"kind"`
			}
			err := json.Unmarshal(lines.Bytes(), &head)
			mk := kinds[head.Kind]
			if err == nil && mk != nil {
				r := mk()
				if err = json.Unmarshal(lines.Bytes(), r); err == nil {
					c.emit(r)
					continue
				}
			}
			fmt.Fprintf(os.Stderr, "bad row %s: %v\n", lines.Text(), err)
			os.Exit(2)
		}
	}
}

func replay(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var head struct {
		Kind string `json:"kind"`
	}
	if err := json.Unmarshal(b, &head); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	mk, ok := kinds[head.Kind]
	if !ok {
		fmt.Fprintf(os.Stderr, "unknown kind %q\n", head.Kind)
		os.Exit(2)
	}
	r := mk()
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	current.Store(b)
	tick()
	r.run()
	o, _ := json.MarshalIndent(r, "", " ")
	fmt.Println(string(o))
}

// guard runs f and reports a panic.
func guard(f func()) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
	}()
	f()
	return false
}

// ints keeps values inside of what TLC can represent.
func clip(i int) int {
	if i > 1000000000 {
		return 1000000000
	}
	if i < -1000000000 {
		return -1000000000
	}
	return i
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// bytes are recorded as a list of numbers
func bytesOf(s string) []int {
	res := make([]int, len(s))
	for i := 0; i < len(s); i++ {
		res[i] = int(s[i])
	}
	return res
}

func strOf(b []int) string {
	res := make([]byte, len(b))
	for i, v := range b {
		res[i] = byte(v)
	}
	return string(res)
}
