package main

import (
	"bytes"
	"io"
	"runtime"
	"strconv"
	"sync"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// turnReader makes the threads that read from it take turns in a given order,
// and records who got how many bytes.
type turnReader struct {
	mu    sync.Mutex
	cond  *sync.Cond
	data  []byte
	pos   int
	turns []int       // threads, in the order of their Reads; empty: any order
	who   map[int]int // goroutine -> thread
	call  []int       // the call a thread is making
	log   [][3]int    // thread, call, bytes
	free  bool        // no more waiting
	moved time.Time
}

func goid() int {
	var b [64]byte
	f := bytes.Fields(b[:runtime.Stack(b[:], false)])
	n, _ := strconv.Atoi(string(f[1]))
	return n
}

func (r *turnReader) Read(p []byte) (int, error) {
	g := goid()
	r.mu.Lock()
	defer r.mu.Unlock()
	t, ok := r.who[g]
	for ok && !r.free && r.scheduled(t) && r.turns[0] != t {
		r.cond.Wait()
	}
	c := 0
	if ok {
		c = r.call[t]
		if len(r.turns) > 0 && r.turns[0] == t {
			r.turns = r.turns[1:]
		}
	} else {
		t = -1
	}
	n := copy(p, r.data[r.pos:])
	r.pos += n
	r.log = append(r.log, [3]int{t + 1, c + 1, n})
	r.moved = time.Now()
	r.cond.Broadcast()
	if n == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	return n, nil
}

func (r *turnReader) scheduled(t int) bool {
	for _, x := range r.turns {
		if x == t {
			return true
		}
	}
	return false
}

// finished: thread t ended a call and takes no more of its turns than the
// rest of its calls need.
func (r *turnReader) finished(t, left int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n := 0
	for _, x := range r.turns {
		if x == t {
			n++
		}
	}
	keep := r.turns[:0:0]
	for _, x := range r.turns {
		if x == t && n > left {
			n--
			continue
		}
		keep = append(keep, x)
	}
	r.turns = keep
	r.call[t]++
	r.moved = time.Now()
	r.cond.Broadcast()
}

func init() {
	// Threads that generate keys and encrypt, all with one generator and one
	// cipher on one source.
	ops["turns"] = func(env *Env, ev M) {
		r := &turnReader{data: getBytes(ev, "data"), who: map[int]int{}, moved: time.Now()}
		r.cond = sync.NewCond(&r.mu)
		if has(ev, "turns") {
			for _, t := range ev["turns"].([]interface{}) {
				r.turns = append(r.turns, int(t.(float64))-1)
			}
		}
		plan := ev["plan"].([]interface{})
		s, rc := onePair(ev, "sk", "sA"), onePair(ev, "rk", "rA")
		var rd io.Reader = r
		if getBool(ev, "global") {
			setGlobal(r)
			defer setGlobal(nil)
			rd = nil
		}
		gen := crypto.NewEd25519KeyGenerator(rd)
		cip := crypto.NewEd25519BlockCipher(s, rc, rd)
		r.call = make([]int, len(plan))
		outs := make([][]M, len(plan))
		var wg, ready sync.WaitGroup
		start := make(chan struct{})
		for t := range plan {
			calls := plan[t].([]interface{})
			outs[t] = make([]M, len(calls))
			wg.Add(1)
			ready.Add(1)
			go func(t int) {
				defer wg.Done()
				r.mu.Lock()
				r.who[goid()] = t
				r.mu.Unlock()
				ready.Done()
				<-start
				for i, k := range calls {
					outs[t][i] = turn(k.(string), gen, cip, s, rc)
					left := 0
					for _, x := range calls[i+1:] {
						left += map[string]int{"gen": 1, "enc": 2}[x.(string)]
					}
					r.finished(t, left)
				}
			}(t)
		}
		ready.Wait()
		close(start)
		stop := make(chan struct{})
		go func() { // an implementation that does not let others read meanwhile
			for {
				select {
				case <-stop:
					return
				case <-time.After(20 * time.Millisecond):
				}
				r.mu.Lock()
				if time.Since(r.moved) > 300*time.Millisecond {
					r.free = true
					r.cond.Broadcast()
				}
				r.mu.Unlock()
			}
		}()
		wg.Wait()
		close(stop)
		ev["outs"], ev["log"], ev["pos"], ev["st"], ev["free"] = outs, r.log, r.pos, "ok", r.free
	}
}

func turn(k string, gen crypto.KeyGenerator, cip crypto.BlockCipher, s, rc *crypto.KeyPair) (o M) {
	o = M{"k": k}
	defer func() {
		if x := recover(); x != nil {
			o["st"] = "panic"
		}
	}()
	if k == "gen" {
		kp, err := gen.GenerateKeyPair()
		if setErr(o, err) {
			o["nil"] = kp == nil
			return
		}
		o["b"] = B(append([]byte{}, kp.PrivateKey.Raw...))
		return
	}
	m := []byte("some plaintext of a block and more")
	c, err := cip.Encrypt(m)
	if setErr(o, err) {
		o["nil"] = len(c) == 0
		return
	}
	o["n"] = len(c)
	if len(c) < 48 {
		o["b"] = B{}
		return
	}
	o["b"] = B(append([]byte{}, c[:48]...))
	d, err := crypto.NewEd25519BlockCipher(&crypto.KeyPair{PublicKey: s.PublicKey}, rc, nil).Decrypt(append([]byte{}, c...))
	o["same"] = err == nil && string(d) == string(m)
	return
}
