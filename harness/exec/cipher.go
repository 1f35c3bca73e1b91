package main

import (
	"bufio"
	"bytes"
	"errors"
	"io"
	"os"
	"strings"
	"sync"

	"aaavp"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// scriptReader delivers data in the given portions and then fails.
type scriptReader struct {
	mu     sync.Mutex
	data   []byte
	cuts   []int
	end    string // eof, err; with suffix +data: together with the last portion
	pos    int
	ci, co int
	once   []int // where it fails once
	gone   int   // how many of these failures are past
	panics bool  // they are panics
}

var errScript = errors.New("scripted failure")

func (r *scriptReader) failure() error {
	if r.end == "err" || r.end == "err+data" {
		return errScript
	}
	return io.EOF
}

func (r *scriptReader) Read(p []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if len(r.once) > 0 && r.once[0] == r.pos {
		r.once = r.once[1:]
		r.gone++
		if r.panics {
			panic(errScript)
		}
		return 0, errScript
	}
	if r.pos >= len(r.data) && r.ci >= len(r.cuts) {
		return 0, r.failure()
	}
	if len(r.once) > 0 && len(p) > r.once[0]-r.pos {
		p = p[:r.once[0]-r.pos]
	}
	n := len(r.data) - r.pos
	if r.ci < len(r.cuts) {
		n = r.cuts[r.ci] - r.co
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if n > len(p) {
		n = len(p)
		r.co += n
	} else {
		r.ci++
		r.co = 0
	}
	copy(p, r.data[r.pos:r.pos+n])
	r.pos += n
	if n > 0 && r.pos >= len(r.data) && (r.end == "eof+data" || r.end == "err+data") {
		r.ci = len(r.cuts)
		return n, r.failure()
	}
	return n, nil
}

// byteScript can also be read byte by byte.
type byteScript struct{ *scriptReader }

func (r *byteScript) ReadByte() (byte, error) {
	var b [1]byte
	for {
		n, err := r.Read(b[:])
		if n == 1 {
			return b[0], nil
		}
		if err != nil {
			return 0, err
		}
	}
}

// used: how much the call took from the source.
func (env *Env) used(ev M) {
	if env.reader != nil {
		ev["pos"] = env.pos()
	}
	if env.fails != nil {
		ev["fails"] = env.fails()
	}
	if len(env.inner) > 0 {
		ev["inner"], env.inner = env.inner, nil
	}
}

// innerReader is a source that itself uses the library whenever it is read
// (in the same goroutine, or in another one for which it waits).
type innerReader struct {
	io.Reader
	env   *Env
	calls []interface{}
	apart bool
}

func (r *innerReader) Read(p []byte) (int, error) {
	if len(r.calls) > 0 {
		ev := r.calls[0].(M)
		r.calls = r.calls[1:]
		if r.apart {
			done := make(chan bool)
			go func() {
				run(newEnv(), ev)
				close(done)
			}()
			<-done
		} else {
			run(newEnv(), ev)
		}
		r.env.inner = append(r.env.inner, ev)
	}
	return r.Reader.Read(p)
}

func setGlobal(r io.Reader) { aaavp.Set(r) }

func pub(b []byte) *crypto.PublicKey { return crypto.NewPublicKey(b) }

// onePair: the pair of private key k (absent: none) and public key A.
func onePair(ev M, k, a string) *crypto.KeyPair {
	kp := &crypto.KeyPair{}
	if has(ev, k) {
		kp.PrivateKey = crypto.NewPrivateKey(getBytes(ev, k))
	}
	if has(ev, a) {
		kp.PublicKey = pub(getBytes(ev, a))
	}
	return kp
}

// twoPairs: the pairs of sender and recipient, one object if they are the same.
func twoPairs(ev M) (s, r *crypto.KeyPair) {
	s = onePair(ev, "sk", "sA")
	if alias(ev, "sk", "rk") && alias(ev, "sA", "rA") {
		return s, s
	}
	return s, onePair(ev, "rk", "rA")
}

func mkCipher(env *Env, ev M) crypto.BlockCipher {
	return live(env, ev, func() crypto.BlockCipher { return newCipher(ev, env.reader) }, "via", "sk", "sA", "rk", "rA")
}

func newCipher(ev M, rd io.Reader) crypto.BlockCipher {
	s, r := twoPairs(ev)
	switch getStr(ev, "via") {
	case "", "new":
		return crypto.NewEd25519BlockCipher(s, r, rd)
	case "wrapper":
		return crypto.NewBlockCipher(s, r, nil)
	case "wrappereng":
		return crypto.NewBlockCipher(s, r, crypto.CryptoEngines.Ed25519Engine)
	case "engine":
		return crypto.CryptoEngines.DefaultEngine.CreateBlockCipher(s, r)
	case "nilreader":
		return crypto.NewEd25519BlockCipher(s, r, nil)
	}
	bad("via")
	return nil
}

func init() {
	// The entropy source of this trace.
	ops["reader"] = func(env *Env, ev M) {
		data := append([]byte{}, getBytes(ev, "data")...)
		r := &scriptReader{data: data, end: getStr(ev, "end")}
		for _, c := range ev["cuts"].([]interface{}) {
			r.cuts = append(r.cuts, int(c.(float64)))
		}
		if has(ev, "once") {
			for _, c := range ev["once"].([]interface{}) {
				r.once = append(r.once, int(c.(float64)))
			}
			env.fails = func() int { n := r.gone; r.gone = 0; return n }
		}
		env.objs = map[string]interface{}{} // none of them is to know the last reader
		env.reader, env.pos = r, func() int { return r.pos }
		left := func(l interface{ Len() int }) func() int { return func() int { return len(data) - l.Len() } }
		switch kind := getStr(ev, "kind"); kind {
		case "":
		case "byte":
			env.reader = &byteScript{r}
		case "bytes":
			b := bytes.NewReader(data)
			env.reader, env.pos = b, left(b)
		case "buffer":
			b := bytes.NewBuffer(data)
			env.reader, env.pos = b, left(b)
		case "strings":
			b := strings.NewReader(string(data))
			env.reader, env.pos = b, left(b)
		case "bufio":
			b := bufio.NewReaderSize(r, 16)
			env.reader, env.pos = b, func() int { return r.pos - b.Buffered() }
		case "file":
			f, err := os.CreateTemp("", "vp-entropy-")
			if err != nil {
				fatal("%v", err)
			}
			os.Remove(f.Name())
			f.Write(data)
			f.Seek(0, io.SeekStart)
			env.reader, env.pos = f, func() int { n, _ := f.Seek(0, io.SeekCurrent); return int(n) }
			env.close = f
		default:
			bad("kind %q", kind)
		}
		r.panics = getBool(ev, "panics")
		if has(ev, "calls") {
			env.reader = &innerReader{env.reader, env, ev["calls"].([]interface{}), getBool(ev, "apart")}
			delete(ev, "calls")
		}
		env.guard = env.guard || r.panics || has(ev, "apart")
		env.global = getBool(ev, "global")
		if env.global {
			setGlobal(env.reader)
		}
		ev["st"] = "ok"
	}

	ops["genkey"] = func(env *Env, ev M) {
		defer env.used(ev) // also when the call panics
		var kp *crypto.KeyPair
		var err error
		gen := func(f func() crypto.KeyGenerator) (*crypto.KeyPair, error) {
			return live(env, ev, f, "via").GenerateKeyPair()
		}
		switch getStr(ev, "via") {
		case "", "new":
			kp, err = gen(func() crypto.KeyGenerator { return crypto.NewEd25519KeyGenerator(env.reader) })
		case "nilreader":
			kp, err = gen(func() crypto.KeyGenerator { return crypto.NewEd25519KeyGenerator(nil) })
		case "engine":
			kp, err = gen(crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator)
		case "byengine":
			kp, err = crypto.NewKeyPairByEngine(crypto.CryptoEngines.Ed25519Engine)
		case "random":
			kp, err = crypto.NewRandomKeyPair()
		default:
			bad("via")
		}
		if setErr(ev, err) {
			ev["nil"] = kp == nil
			return
		}
		ev["k"], ev["A"] = B(kp.PrivateKey.Raw), B(kp.PublicKey.Raw)
		ev["has"] = kp.HasPrivateKey()
	}

	ops["enc"] = func(env *Env, ev M) {
		defer env.used(ev) // also when the call panics
		c, err := mkCipher(env, ev).Encrypt(getMsg(ev, "m"))
		if setErr(ev, err) {
			ev["nil"] = len(c) == 0
			return
		}
		ev["c"] = B(c)
	}

	ops["dec"] = func(env *Env, ev M) {
		m, err := mkCipher(env, ev).Decrypt(getBytes(ev, "c"))
		if setErr(ev, err) {
			ev["nil"] = len(m) == 0
			return
		}
		ev["m"] = B(m)
	}

	// Encrypt by the sender, decrypt by the recipient.
	ops["encdec"] = func(env *Env, ev M) {
		s, r := twoPairs(ev)
		salt := getBytes(ev, "rnd")
		m := getMsg(ev, "m")
		rd := &scriptReader{data: salt, end: "eof"}
		sendTo := &crypto.KeyPair{PublicKey: r.PublicKey}
		if s == r {
			sendTo = s
		}
		bc := crypto.NewEd25519BlockCipher(s, sendTo, rd)
		c, err := bc.Encrypt(m)
		if setErr(ev, err) {
			return
		}
		ev["c"] = B(c)
		sentBy := &crypto.KeyPair{PublicKey: s.PublicKey}
		if s != r {
			bc = crypto.NewEd25519BlockCipher(sentBy, r, nil)
		}
		d, err := bc.Decrypt(append([]byte{}, c...))
		if setErr(ev, err) {
			return
		}
		if has(ev, "m") {
			ev["d"] = B(d)
		} else {
			ev["same"] = string(d) == string(m)
		}
	}

	ops["shared"] = func(env *Env, ev M) {
		kp := &crypto.KeyPair{PublicKey: pub(make([]byte, 32))}
		bc := crypto.NewEd25519BlockCipher(kp, kp, nil)
		var k *crypto.PrivateKey
		if has(ev, "k") {
			k = crypto.NewPrivateKey(getBytes(ev, "k"))
		}
		key, err := bc.GetSharedKey(k, pub(getBytes(ev, "A")), getBytes(ev, "salt"))
		if setErr(ev, err) {
			return
		}
		ev["key"] = B(key)
	}
	// Both directions.
	ops["sharedsym"] = func(env *Env, ev M) {
		kp := &crypto.KeyPair{PublicKey: pub(make([]byte, 32))}
		bc := crypto.NewEd25519BlockCipher(kp, kp, nil)
		s, r := twoPairs(ev)
		k1, err := bc.GetSharedKey(s.PrivateKey, r.PublicKey, getBytes(ev, "salt"))
		if setErr(ev, err) {
			return
		}
		k2, err := bc.GetSharedKey(r.PrivateKey, s.PublicKey, getBytes(ev, "salt"))
		if setErr(ev, err) {
			return
		}
		ev["k1"], ev["k2"] = B(k1), B(k2)
	}
}
