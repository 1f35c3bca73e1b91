// The trace driver: reads programs (one JSON trace per line, each a list of
// calls), performs the calls against the library, and writes the same traces
// with the observed results.  It decides nothing: the specification does.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// M is a JSON object: a call with its arguments, and later its results.
type M = map[string]interface{}

// B is a byte string, written as a JSON array of numbers.
type B []byte

// MarshalJSON implements json.Marshaler.
func (b B) MarshalJSON() ([]byte, error) {
	out := make([]byte, 0, 4*len(b)+2)
	out = append(out, '[')
	for i, x := range b {
		if i > 0 {
			out = append(out, ',')
		}
		if x >= 100 {
			out = append(out, '0'+x/100)
		}
		if x >= 10 {
			out = append(out, '0'+x/10%10)
		}
		out = append(out, '0'+x%10)
	}
	return append(out, ']'), nil
}

// L is a limb vector.
type L []int64

type opFunc func(env *Env, ev M)

var ops = map[string]opFunc{}

// Env is the state of one trace: the objects its calls share.
type Env struct {
	objs   map[string]interface{}
	reader io.Reader
	pos    func() int // how much of it was read
	fails  func() int // how often it failed during the last call
	global bool
	close  io.Closer
	order  []string
	bufs   map[string]*buffer
	last   map[string]string
	hist   bool
	guard  bool // a call may never return
	stuck  bool
	inner  []M // the calls the source of entropy made meanwhile
}

func newEnv() *Env {
	return &Env{objs: map[string]interface{}{}, bufs: map[string]*buffer{}, last: map[string]string{}}
}

// run performs one call; a panic of the library is a result like any other.
func run(env *Env, ev M) {
	name, _ := ev["op"].(string)
	f, ok := ops[name]
	if !ok {
		fatal("unknown op %q", name)
	}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(progError); ok {
				fatal("op %s: %s", name, string(e))
			}
			ev["st"] = "panic"
			ev["pmsg"] = fmt.Sprint(r)
			if _, ok := r.(skipCall); ok {
				ev["st"] = "skip"
			}
		}
	}()
	f(env, ev)
}

// patience: how long a guarded call may take; not long once one has not returned.
var patience atomic.Int64

func init() { patience.Store(int64(60 * time.Second)) }

// guarded: the same, for a call that may wait for ever.
func (env *Env) guarded(ev M) {
	done := make(chan M, 1)
	if !env.stuck {
		mine := M{}
		for k, v := range ev {
			mine[k] = v
		}
		go func() {
			run(env, mine)
			done <- mine
		}()
		select {
		case got := <-done:
			for k, v := range got {
				ev[k] = v
			}
			return
		case <-time.After(time.Duration(patience.Load())):
			env.stuck = true
			patience.Store(int64(2 * time.Second))
		}
	}
	ev["st"], ev["pos"] = "stuck", 0
}

// progError is a mistake in a program, not in the library.
type progError string

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "driver: "+f+"\n", a...)
	os.Exit(3)
}

func bad(f string, a ...interface{}) { panic(progError(fmt.Sprintf(f, a...))) }

func perform(line []byte) []byte {
	var tr M
	if err := json.Unmarshal(line, &tr); err != nil {
		fatal("%v", err)
	}
	env := newEnv()
	evs, _ := tr["ev"].([]interface{})
	for _, e := range evs {
		ev := e.(M)
		if env.guard {
			env.guarded(ev)
		} else {
			run(env, ev)
		}
		if env.hist {
			env.observe(ev)
		}
	}
	if env.global {
		setGlobal(nil)
	}
	if env.close != nil {
		env.close.Close()
	}
	b, err := json.Marshal(tr)
	if err != nil {
		fatal("%v", err)
	}
	return b
}

func died(line []byte) []byte {
	var tr M
	if err := json.Unmarshal(line, &tr); err != nil {
		fatal("%v", err)
	}
	evs, _ := tr["ev"].([]interface{})
	for _, e := range evs {
		e.(M)["st"] = "died"
		e.(M)["got"] = M{"st": "died"}
	}
	b, _ := json.Marshal(tr)
	return b
}

func main() {
	if len(os.Args) == 2 && os.Args[1] == "probes" {
		for n := range probes() {
			fmt.Println(n)
		}
		return
	}
	if len(os.Args) == 2 && os.Args[1] == "one" { // one trace, alone in this process
		line, err := io.ReadAll(os.Stdin)
		if err != nil {
			fatal("%v", err)
		}
		w := os.Stdout
		os.Stdout = os.Stderr // for what the library prints
		w.Write(perform(line))
		return
	}
	in, err := os.Open(os.Args[1])
	if err != nil {
		fatal("%v", err)
	}
	out, err := os.Create(os.Args[2])
	if err != nil {
		fatal("%v", err)
	}
	w := bufio.NewWriterSize(out, 1<<20)
	sc := bufio.NewScanner(in)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	var lines [][]byte
	for sc.Scan() {
		lines = append(lines, append([]byte(nil), sc.Bytes()...))
	}
	if err := sc.Err(); err != nil {
		fatal("%v", err)
	}
	results := make([][]byte, len(lines))
	// Traces that touch process-wide state, or that make their own
	// concurrency, run alone; the others run on all cores.
	mode := ""
	if len(os.Args) > 3 {
		mode = os.Args[3]
	}
	do := func(i int) { results[i] = perform(lines[i]) }
	if mode == "alone" {
		// every trace in a process of its own
		do = func(i int) {
			c := exec.Command(os.Args[0], "one")
			c.Stdin, c.Stderr = bytes.NewReader(lines[i]), os.Stderr
			out, err := c.Output()
			if x, ok := err.(*exec.ExitError); ok && x.ExitCode() != 3 {
				out = died(lines[i]) // the process ended: an outcome like any other
			} else if err != nil {
				fatal("line %d: %v", i+1, err)
			}
			results[i] = out
		}
	}
	if mode == "serial" {
		for i := range lines {
			do(i)
		}
	} else {
		var wg sync.WaitGroup
		next := make(chan int)
		for k := 0; k < 4*runtime.NumCPU(); k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range next {
					do(i)
				}
			}()
		}
		for i := range lines {
			next <- i
		}
		close(next)
		wg.Wait()
	}
	for _, r := range results {
		w.Write(r)
		w.WriteByte('\n')
	}
	if err := w.Flush(); err != nil {
		fatal("%v", err)
	}
	out.Close()
}

// ---- arguments ----

func has(ev M, k string) bool { _, ok := ev[k]; return ok }

func getBytes(ev M, k string) []byte {
	v, ok := ev[k]
	if !ok {
		bad("missing %s", k)
	}
	b := toBytes(v)
	if len(b) == 0 && getBool(ev, k+"nil") {
		return nil
	}
	return b
}

func toBytes(v interface{}) []byte {
	switch a := v.(type) {
	case B:
		return append([]byte{}, a...)
	case []byte:
		return append([]byte{}, a...)
	case []interface{}:
		b := make([]byte, len(a))
		for i, x := range a {
			f, ok := x.(float64)
			if !ok || f < 0 || f > 255 {
				bad("not a byte: %v", x)
			}
			b[i] = byte(f)
		}
		return b
	}
	bad("not bytes: %T", v)
	return nil
}

// getMsg: field k, or pattern k+"p" repeated to length k+"n".
func getMsg(ev M, k string) []byte {
	if has(ev, k) {
		return getBytes(ev, k)
	}
	p := getBytes(ev, k+"p")
	n := getInt(ev, k+"n")
	b := make([]byte, n)
	for i := range b {
		b[i] = p[i%len(p)]
	}
	return b
}

func getInt(ev M, k string) int {
	f, ok := ev[k].(float64)
	if !ok {
		bad("missing int %s", k)
	}
	return int(f)
}

func getStr(ev M, k string) string {
	s, _ := ev[k].(string)
	return s
}

func getBool(ev M, k string) bool {
	s, _ := ev[k].(bool)
	return s
}

func getLimbs(v interface{}) (r [10]int64) {
	a, ok := v.([]interface{})
	if !ok || len(a) != 10 {
		bad("not limbs: %v", v)
	}
	for i, x := range a {
		r[i] = int64(x.(float64))
	}
	return
}

// live: an object the calls of a trace that describe it alike share, if they ask for it.
func live[T any](env *Env, ev M, mk func() T, args ...string) T {
	if !getBool(ev, "live") {
		return mk()
	}
	d := M{}
	for _, a := range args {
		d[a] = ev[a]
	}
	k, _ := json.Marshal(d)
	name := fmt.Sprintf("%T %s", mk, k)
	if o, ok := env.objs[name]; ok {
		return o.(T)
	}
	o := mk()
	env.objs[name] = o
	return o
}

// alias: argument j of the call is to be the very object argument i is.
func alias(ev M, i, j string) bool { return getBool(ev, "same") && reflect.DeepEqual(ev[i], ev[j]) }

// geTwo: the elements p and q of the call.
func geTwo(ev M) (p, q ge) {
	p = geOf(ev["p"])
	if alias(ev, "p", "q") {
		return p, p
	}
	return p, geOf(ev["q"])
}

// efThree: the encoded field elements a, b and c of the call.
func efThree(ev M) (a, b, c ef) {
	a, b, c = efOf(getBytes(ev, "a")), efOf(getBytes(ev, "b")), efOf(getBytes(ev, "c"))
	if alias(ev, "a", "b") {
		b = a
	}
	if alias(ev, "a", "c") {
		c = a
	} else if alias(ev, "b", "c") {
		c = b
	}
	return
}

func getText(ev M, k string) string { return string(getBytes(ev, k)) }

func setErr(ev M, err error) bool {
	if err != nil {
		ev["st"] = "err"
		return true
	}
	ev["st"] = "ok"
	return false
}
