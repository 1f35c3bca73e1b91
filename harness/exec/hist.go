package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"time"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// buffer is a piece of caller-visible memory: n bytes of a slice, followed by
// spare capacity (of which the library must not write anything either).
type buffer struct {
	full []byte
	n    int
}

func (env *Env) buf(ev M, k string) []byte {
	b, ok := env.bufs[getStr(ev, k)]
	if !ok {
		panic(skipCall(getStr(ev, k)))
	}
	return b.full[:b.n]
}

// skipCall: the call needs the result of an earlier call that had none.
type skipCall string

func (env *Env) pair(ev M, k string) *crypto.KeyPair {
	p, ok := env.objs[getStr(ev, k)].(*crypto.KeyPair)
	if !ok {
		bad("no pair %q (%s)", getStr(ev, k), k)
	}
	return p
}

func (env *Env) put(name string, b []byte) {
	env.bufs[name] = &buffer{b, len(b)}
	env.last[name] = string(b)
	env.order = append(env.order, name)
}

// digest of everything the package exports as a constant, and of the key
// objects of this trace.
func (env *Env) hidden() map[string]string {
	h := sha256.New()
	f := crypto.Ed25519Field
	fmt.Fprint(h, f.P, f.ZERO, f.ONE, f.TWO, f.D, f.DTimesTWO, f.I, crypto.SqrtM1, crypto.A)
	fmt.Fprint(h, crypto.Ed25519Group.GROUP_ORDER, crypto.MathUtils.D, crypto.MathUtils.EXPONENTS)
	g := crypto.Ed25519Group.BASE_POINT()
	fmt.Fprint(h, g.X.Raw, g.Y.Raw, g.Z.Raw, g.T.Raw)
	m := map[string]string{"const": string(h.Sum(nil)[:8])}
	for n, o := range env.objs {
		switch v := o.(type) {
		case *crypto.KeyPair:
			h := sha256.New()
			if v.PrivateKey != nil {
				fmt.Fprint(h, v.PrivateKey.Raw, cap(v.PrivateKey.Raw), v.PrivateKey.Raw[:cap(v.PrivateKey.Raw)], v.PrivateKey.String())
			}
			fmt.Fprint(h, v.PublicKey.Raw, v.PublicKey.Raw[:cap(v.PublicKey.Raw)])
			m["obj:"+n] = string(h.Sum(nil)[:8])
		case ge:
			s := ""
			for _, c := range []*fe{v.X, v.Y, v.Z, v.T} {
				if c != nil {
					s += fmt.Sprint(c.Raw)
				}
			}
			m["obj:"+n] = s
		}
	}
	return m
}

// tables: the multiples the exported table lookup returns, once per trace.
func tableDigest() string {
	h := sha256.New()
	b := crypto.Ed25519Group.BASE_POINT()
	for pos := 0; pos < 32; pos++ {
		for d := 1; d <= 8; d++ {
			e, err := b.Select(pos, d)
			if err != nil {
				return err.Error()
			}
			h.Write(e.X.Encode().Raw)
			h.Write(e.Y.Encode().Raw)
			h.Write(e.Z.Encode().Raw)
		}
	}
	return string(h.Sum(nil))
}

// observe reports which memory differs from the previous observation.
func (env *Env) observe(ev M) {
	delta := []M{}
	for _, n := range env.order {
		b := env.bufs[n]
		if s := string(b.full); s != env.last[n] {
			delta = append(delta, M{"h": n, "b": B(append([]byte{}, b.full...))})
			env.last[n] = s
		}
	}
	hid := env.hidden()
	names := []string{}
	for n := range hid {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if old, ok := env.last["?"+n]; ok && old != hid[n] {
			delta = append(delta, M{"h": n, "b": B(hid[n])})
		}
		env.last["?"+n] = hid[n]
	}
	ev["delta"] = delta
}

func spare(b []byte, extra int) []byte {
	full := make([]byte, len(b)+extra)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	return full
}

// lockedReader makes an entropy source usable from several goroutines.
type lockedReader struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (l *lockedReader) Read(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.r.Read(p)
}

// cellReader reads from whatever reader the current call was given.
type cellReader struct{ r io.Reader }

func (c *cellReader) Read(p []byte) (int, error) { return c.r.Read(p) }

type result struct {
	st   string
	out  [][]byte // fresh memory of the library
	info M        // further observations
}

func errRes(err error) result { return result{st: "err"} }

// callFn performs the call ev.f on shared objects and buffers.
func callFn(env *Env, ev M) result {
	sigOf := func() *crypto.Signature { return &crypto.Signature{R: env.buf(ev, "r"), S: env.buf(ev, "s")} }
	signer := func() crypto.DsaSigner {
		s, ok := env.objs[getStr(ev, "o")].(crypto.DsaSigner)
		if !ok {
			bad("no signer %q", getStr(ev, "o"))
		}
		return s
	}
	cipher := func() crypto.BlockCipher {
		s, ok := env.objs[getStr(ev, "o")].(crypto.BlockCipher)
		if !ok {
			bad("no cipher %q", getStr(ev, "o"))
		}
		return s
	}
	one := func(b []byte, err error) result {
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{b}}
	}
	switch f := getStr(ev, "f"); f {
	case "sign":
		s, err := signer().Sign(env.buf(ev, "m"))
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{s.R, s.S}}
	case "verify":
		sig := sigOf()
		before := fmt.Sprintf("%p %p", sig.R, sig.S)
		v := signer().Verify(env.buf(ev, "m"), sig)
		return result{st: "ok", info: M{"v": v, "kept": before == fmt.Sprintf("%p %p", sig.R, sig.S)}}
	case "canon":
		return result{st: "ok", info: M{"v": signer().IsCanonicalSignature(sigOf())}}
	case "mkcanon":
		c, err := signer().MakeSignatureCanonical(sigOf())
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{c.S}, info: M{"rr": B(append([]byte{}, c.R...))}}
	case "derive":
		k := env.pair(ev, "o").PrivateKey
		return result{st: "ok", out: [][]byte{crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(k).Raw}}
	case "gen": // with the given entropy
		kp, err := crypto.NewEd25519KeyGenerator(bytes.NewReader(getBytes(ev, "rnd"))).GenerateKeyPair()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{kp.PrivateKey.Raw, kp.PublicKey.Raw}}
	case "newpair":
		kp, err := crypto.NewKeyPair(env.pair(ev, "o").PrivateKey, nil, nil)
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{kp.PublicKey.Raw}}
	case "enc": // with the given entropy (one call at a time)
		env.objs[getStr(ev, "o")+"#"].(*cellReader).r = bytes.NewReader(getBytes(ev, "rnd"))
		return one(cipher().Encrypt(env.buf(ev, "m")))
	case "encrt": // with any entropy; what was encrypted is read back by fresh objects
		m := env.buf(ev, "m")
		c, err := cipher().Encrypt(m)
		if err != nil {
			return errRes(err)
		}
		ps := env.objs[getStr(ev, "o")+"%"].([2]*crypto.KeyPair)
		fresh := func(p *crypto.KeyPair) *crypto.KeyPair {
			q := &crypto.KeyPair{PublicKey: pub(append([]byte{}, p.PublicKey.Raw...))}
			if p.PrivateKey != nil {
				q.PrivateKey = crypto.NewPrivateKey(append([]byte{}, p.PrivateKey.Raw...))
			}
			return q
		}
		d, err := crypto.NewEd25519BlockCipher(fresh(ps[0]), fresh(ps[1]), nil).Decrypt(append([]byte{}, c...))
		if err != nil {
			return result{st: "err", info: M{"n": len(c)}}
		}
		return result{st: "ok", info: M{"n": len(c), "same": bytes.Equal(d, m)}}
	case "dec":
		return one(cipher().Decrypt(env.buf(ev, "c")))
	case "shared":
		bc := cipher().(*crypto.Ed25519BlockCipher)
		return one(bc.GetSharedKey(env.pair(ev, "k").PrivateKey, env.pair(ev, "p").PublicKey, env.buf(ev, "salt")))
	case "hash":
		m := env.buf(ev, "m")
		switch getStr(ev, "alg") {
		case "sha256":
			return one(crypto.HashesSha_256(m))
		case "sha3_256":
			return one(crypto.HashesSha3_256(m))
		case "sha3_512":
			return one(crypto.HashesSha3_512(m))
		case "sha3_512x":
			return one(crypto.HashesSha3_512(m[:len(m)/3], m[len(m)/3:]))
		case "keccak_256":
			return one(crypto.HashesKeccak_256(m))
		case "ripemd160":
			return one(crypto.HashesRipemd160(m))
		}
	case "sigbytes":
		return result{st: "ok", out: [][]byte{sigOf().Bytes()}}
	case "sigstr":
		return result{st: "ok", info: M{"str": B(sigOf().String())}}
	case "sigints":
		g := sigOf()
		s, err := crypto.NewSignatureFromBigInt(g.GetR(), g.GetS())
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{s.R, s.S}}
	case "keystr":
		p := env.pair(ev, "o")
		return result{st: "ok", info: M{"str": B(p.PrivateKey.String()), "str2": B(p.PublicKey.String())}}
	case "keyhex":
		p := env.pair(ev, "o")
		k, err := crypto.NewPrivateKeyfromHexString(p.PrivateKey.String())
		if err != nil {
			return errRes(err)
		}
		q, err := crypto.NewPublicKeyfromHex(p.PublicKey.String())
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{k.Raw, q.Raw}}
	case "keyint":
		k := crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(env.pair(ev, "o").PrivateKey.Raw))
		return result{st: "ok", out: [][]byte{k.Raw}}
	case "gdecenc": // decode the point in buffer b, encode it
		e, err := crypto.NewEd25519EncodedGroupElement(env.buf(ev, "b"))
		if err != nil {
			return errRes(err)
		}
		g, err := e.Decode()
		if err != nil {
			return errRes(err)
		}
		r, err := g.Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "genc": // encode a shared element
		r, err := env.objs[getStr(ev, "o")].(ge).Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "geq":
		p, q := env.objs[getStr(ev, "o")].(ge), env.objs[getStr(ev, "q")].(ge)
		return result{st: "ok", info: M{"v": p.Equals(q)}}
	case "gcurve":
		return result{st: "ok", info: M{"v": env.objs[getStr(ev, "o")].(ge).SatisfiesCurveEquation()}}
	case "fdecenc":
		e, err := crypto.NewEd25519EncodedFieldElement(env.buf(ev, "b"))
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{e.Decode().Encode().Raw}}
	case "affx":
		e := &crypto.Ed25519EncodedGroupElement{Raw: env.buf(ev, "b")}
		x, err := e.GetAffineX()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{x.Encode().Raw}}
	case "mredq":
		e, err := crypto.NewEd25519EncodedFieldElement(env.buf(ev, "b"))
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{crypto.MathUtils.ReduceModGroupOrder(e).Raw}}
	case "mtogroup":
		g, err := crypto.MathUtils.ToGroupElement(env.buf(ev, "b"))
		if err != nil {
			return errRes(err)
		}
		r, err := g.Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "madd":
		p, q := env.objs[getStr(ev, "o")].(ge), env.objs[getStr(ev, "q")].(ge)
		r, err := crypto.MathUtils.AddGroupElements(p, q).Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "mneg":
		r, err := crypto.MathUtils.NegateGroupElement(env.objs[getStr(ev, "o")].(ge)).Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "mdbl":
		r, err := crypto.MathUtils.DoubleGroupElement(env.objs[getStr(ev, "o")].(ge)).Encode()
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", out: [][]byte{r.Raw}}
	case "mnum": // bytes to integers and back
		n := crypto.MathUtils.BytesToBigInteger(env.buf(ev, "b"))
		f := crypto.MathUtils.ToFieldElement(n)
		return result{st: "ok", out: [][]byte{crypto.MathUtils.ToByteArray(n), crypto.MathUtils.ToEncodedFieldElement(n).Raw, f.Encode().Raw}}
	case "mtorep":
		p := env.objs[getStr(ev, "o")].(ge)
		g, err := crypto.MathUtils.ToRepresentation(p, csOf(getStr(ev, "to")))
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", info: M{"g": geOut(g)}}
	case "select":
		g, err := crypto.Ed25519Group.BASE_POINT().Select(getInt(ev, "pos"), getInt(ev, "d"))
		if err != nil {
			return errRes(err)
		}
		return result{st: "ok", info: M{"g": geOut(g)}}
	case "secret":
		return result{st: "ok", out: [][]byte{crypto.PrepareForScalarMultiply(env.pair(ev, "o").PrivateKey).Raw}}
	}
	bad("f %q", getStr(ev, "f"))
	return result{}
}

func safeCall(env *Env, ev M) (r result) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(progError); ok {
				fatal("%s", string(e))
			}
			if _, ok := x.(skipCall); ok {
				r = result{st: "skip"}
				return
			}
			r = result{st: "panic", info: M{"pmsg": fmt.Sprint(x)}}
		}
	}()
	return callFn(env, ev)
}

func init() {
	ops["hbuf"] = func(env *Env, ev M) {
		env.hist = true
		b := getBytes(ev, "data")
		name := getStr(ev, "h")
		full := spare(b, getInt(ev, "extra"))
		env.put(name, full)
		env.bufs[name].n = len(b)
		ev["full"] = B(append([]byte{}, full...))
		ev["st"] = "ok"
	}
	ops["hpair"] = func(env *Env, ev M) {
		env.hist = true
		if has(ev, "pub") {
			a := getBytes(ev, "pub")
			env.objs[getStr(ev, "h")] = &crypto.KeyPair{PublicKey: crypto.NewPublicKey(spare(a, 16)[:len(a)])}
			ev["st"] = "ok"
			return
		}
		k := getBytes(ev, "k")
		mem := spare(k, 16)
		env.put("key:"+getStr(ev, "h"), mem)
		kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(mem[:len(k)]), nil, nil)
		if setErr(ev, err) {
			return
		}
		// a public key whose slice has spare capacity, too
		a := kp.PublicKey.Raw
		kp.PublicKey = crypto.NewPublicKey(spare(a, 16)[:len(a)])
		env.objs[getStr(ev, "h")] = kp
		ev["A"] = B(append([]byte{}, a...))
	}
	ops["hsigner"] = func(env *Env, ev M) {
		env.objs[getStr(ev, "h")] = mkSigner(env.pair(ev, "pair"), getStr(ev, "via"))
		ev["st"] = "ok"
	}
	ops["hcipher"] = func(env *Env, ev M) {
		s, r := env.pair(ev, "sender"), env.pair(ev, "recipient")
		env.objs[getStr(ev, "h")+"%"] = [2]*crypto.KeyPair{s, r}
		ev["st"] = "ok"
		switch getStr(ev, "via") {
		case "wrapper":
			env.objs[getStr(ev, "h")] = crypto.NewBlockCipher(s, r, nil)
		case "cell":
			c := &cellReader{}
			env.objs[getStr(ev, "h")+"#"] = c
			env.objs[getStr(ev, "h")] = crypto.NewEd25519BlockCipher(s, r, c)
		case "script":
			env.objs[getStr(ev, "h")] = crypto.NewEd25519BlockCipher(s, r, &lockedReader{r: rand.New(rand.NewSource(int64(getInt(ev, "seed"))))})
		default:
			env.objs[getStr(ev, "h")] = crypto.NewEd25519BlockCipher(s, r, nil)
		}
	}
	ops["helem"] = func(env *Env, ev M) {
		env.hist = true
		env.objs[getStr(ev, "h")] = geOf(ev["p"])
		ev["st"] = "ok"
	}
	ops["hwrite"] = func(env *Env, ev M) {
		b := env.buf(ev, "h")
		d := getBytes(ev, "data")
		at := getInt(ev, "at")
		for i := range d {
			if at+i < len(b) {
				b[at+i] = d[i]
			}
		}
		ev["st"] = "ok"
	}
	ops["hcall"] = func(env *Env, ev M) {
		r := safeCall(env, ev)
		ev["st"] = r.st
		ev["got"] = asM(r)
		outs := []B{}
		names, _ := ev["out"].([]interface{})
		for i, o := range r.out {
			outs = append(outs, B(append([]byte{}, o...)))
			if i < len(names) {
				env.put(names[i].(string), o[:len(o):len(o)])
			}
		}
		ev["res"] = outs
	}
	// The collector runs; the objects are no longer used.
	ops["hgc"] = func(env *Env, ev M) {
		if getBool(ev, "drop") {
			env.objs = map[string]interface{}{}
		}
		for i := 0; i < 2; i++ {
			runtime.GC()
			time.Sleep(time.Millisecond)
		}
		ev["st"] = "ok"
	}
	ops["htables"] = func(env *Env, ev M) {
		t := tableDigest()
		ev["st"] = "ok"
		if old, ok := env.last["!tables"]; ok && old != t {
			ev["st"] = "changed"
		}
		env.last["!tables"] = t
	}

	// Many goroutines perform the calls on the shared objects; each call
	// reports its distinct outcomes.
	ops["conc"] = func(env *Env, ev M) {
		calls := ev["calls"].([]interface{})
		threads, reps := getInt(ev, "threads"), getInt(ev, "reps")
		seed := int64(getInt(ev, "seed"))
		// no synchronisation between the goroutines while they call
		type rec struct {
			seen map[string]M
			n    int
		}
		recs := make([][]rec, threads)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < threads; t++ {
			recs[t] = make([]rec, len(calls))
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed*1000 + int64(t)))
				<-start
				for k := 0; k < reps; k++ {
					for _, i := range rng.Perm(len(calls)) {
						o := asM(safeCall(env, calls[i].(M)))
						key, _ := json.Marshal(o)
						rc := &recs[t][i]
						rc.n++
						if rc.seen == nil {
							rc.seen = map[string]M{}
						}
						if _, ok := rc.seen[string(key)]; !ok && len(rc.seen) < 4 {
							rc.seen[string(key)] = o
						}
					}
				}
			}(t)
		}
		close(start)
		wg.Wait()
		for i := range calls {
			all, runs := map[string]M{}, 0
			for t := range recs {
				runs += recs[t][i].n
				for k, v := range recs[t][i].seen {
					all[k] = v
				}
			}
			keys := []string{}
			for k := range all {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			outs := []M{}
			for _, k := range keys {
				outs = append(outs, all[k])
			}
			calls[i].(M)["outs"] = outs
			calls[i].(M)["runs"] = runs
		}
		ev["st"] = "ok"
	}

	// Many goroutines make calls that stand for themselves; every distinct
	// outcome of a call is reported as an event of its own.
	ops["par"] = func(env *Env, ev M) {
		evs := ev["evs"].([]interface{})
		threads, reps := getInt(ev, "threads"), getInt(ev, "reps")
		seed := int64(getInt(ev, "seed"))
		recs := make([]map[string]M, threads)
		runs := make([]int, threads)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for t := 0; t < threads; t++ {
			recs[t] = map[string]M{}
			wg.Add(1)
			go func(t int) {
				defer wg.Done()
				rng := rand.New(rand.NewSource(seed*1000 + int64(t)))
				<-start
				for k := 0; k < reps; k++ {
					for _, i := range rng.Perm(len(evs)) {
						c := M{}
						for k, v := range evs[i].(M) {
							c[k] = v
						}
						run(newEnv(), c)
						key, _ := json.Marshal(c)
						recs[t][string(key)] = c
						runs[t]++
					}
				}
			}(t)
		}
		close(start)
		wg.Wait()
		all, n := map[string]M{}, 0
		for t := range recs {
			n += runs[t]
			for k, v := range recs[t] {
				all[k] = v
			}
		}
		outs := []M{}
		for _, v := range all {
			outs = append(outs, v)
		}
		ev["outs"], ev["runs"], ev["st"] = outs, n, "ok"
		delete(ev, "evs")
	}
}
