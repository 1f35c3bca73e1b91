// Package aaavp replaces crypto/rand.Reader by a switchable reader.  Its
// import path sorts before that of the library, so its initialisation runs
// first, and the library never sees the original reader value.
package aaavp

import (
	"crypto/rand"
	"io"
	"sync"
)

type sw struct {
	mu   sync.RWMutex
	real io.Reader
	cur  io.Reader
}

func (s *sw) Read(p []byte) (int, error) {
	s.mu.RLock()
	r := s.cur
	s.mu.RUnlock()
	return r.Read(p)
}

var global = &sw{real: rand.Reader, cur: rand.Reader}

func init() { rand.Reader = global }

// Set makes crypto/rand.Reader read from r (nil: from the system).
func Set(r io.Reader) {
	global.mu.Lock()
	defer global.mu.Unlock()
	if r == nil {
		r = global.real
	}
	global.cur = r
}
