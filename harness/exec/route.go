package main

import (
	"bytes"
	"sync"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// globalMu: the default entropy source is shared by the whole process.
var globalMu sync.Mutex

func withGlobal(data []byte, f func()) {
	globalMu.Lock()
	defer globalMu.Unlock()
	setGlobal(&scriptReader{data: data, end: "eof"})
	defer setGlobal(nil)
	f()
}

func protect(f func() result) (r result) {
	defer func() {
		if x := recover(); x != nil {
			if e, ok := x.(progError); ok {
				fatal("%s", string(e))
			}
			r = result{st: "panic"}
		}
	}()
	return f()
}

func asM(r result) M {
	o := M{"st": r.st}
	for k, v := range r.info {
		o[k] = v
	}
	outs := []B{}
	for _, b := range r.out {
		outs = append(outs, B(append([]byte{}, b...)))
	}
	o["res"] = outs
	return o
}

func init() {
	ops["signcanon"] = func(env *Env, ev M) { ops["sign"](env, ev) }

	// One signer object, many messages.
	ops["signmany"] = func(env *Env, ev M) {
		kp, err := pairOf(ev)
		if setErr(ev, err) {
			return
		}
		s := mkSigner(kp, getStr(ev, "via"))
		var out []M
		for _, m := range ev["ms"].([]interface{}) {
			g, err := s.Sign(toBytes(m))
			if setErr(ev, err) {
				return
			}
			out = append(out, M{"r": B(append([]byte{}, g.R...)), "s": B(append([]byte{}, g.S...))})
		}
		ev["out"] = out
	}
	// One verifier object, many messages and signatures.
	ops["verifymany"] = func(env *Env, ev M) {
		s := mkSigner(&crypto.KeyPair{PublicKey: crypto.NewPublicKey(getBytes(ev, "A"))}, getStr(ev, "via"))
		var out []bool
		for _, c := range ev["cs"].([]interface{}) {
			m := c.(M)
			out = append(out, s.Verify(getBytes(m, "m"), &crypto.Signature{R: getBytes(m, "r"), S: getBytes(m, "s")}))
		}
		ev["out"] = out
		ev["st"] = "ok"
	}
	// Large messages: only the relation between the two sides.
	ops["encround"] = func(env *Env, ev M) {
		s, r := twoPairs(ev)
		m := getMsg(ev, "m")
		keep := append([]byte{}, m...)
		rd := &scriptReader{data: getBytes(ev, "rnd"), end: "eof"}
		c, err := crypto.NewEd25519BlockCipher(s, &crypto.KeyPair{PublicKey: r.PublicKey}, rd).Encrypt(m)
		if setErr(ev, err) {
			return
		}
		ev["n"] = len(c)
		if len(c) >= 48 {
			ev["head"] = B(append([]byte{}, c[:48]...))
		}
		d, err := crypto.NewEd25519BlockCipher(&crypto.KeyPair{PublicKey: s.PublicKey}, r, nil).Decrypt(c)
		if setErr(ev, err) {
			return
		}
		ev["same"] = bytes.Equal(d, keep)
	}

	// The same operation by every documented route.
	ops["dispatch"] = func(env *Env, ev M) {
		var outs []M
		do := func(f func() result) { outs = append(outs, asM(protect(f))) }
		ed, def := crypto.CryptoEngines.Ed25519Engine, crypto.CryptoEngines.DefaultEngine
		f := getStr(ev, "f")
		switch f {
		case "sign", "verify", "canon", "mkcanon":
			for _, via := range []string{"dsa", "signer", "signereng", "engine", "wrap", "edengine"} {
				via := via
				do(func() result {
					kp := onePair(ev, "k", "A")
					var s crypto.DsaSigner
					if via == "edengine" {
						s = ed.CreateDsaSigner(kp)
					} else {
						s = mkSigner(kp, via)
					}
					switch f {
					case "sign":
						g, err := s.Sign(getMsg(ev, "m"))
						if err != nil {
							return result{st: "err", info: M{"nil": g == nil}}
						}
						return result{st: "ok", out: [][]byte{g.R, g.S}}
					case "verify":
						g := &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")}
						return result{st: "ok", info: M{"v": s.Verify(getMsg(ev, "m"), g)}}
					case "canon":
						g := &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")}
						return result{st: "ok", info: M{"v": s.IsCanonicalSignature(g)}}
					}
					g, err := s.MakeSignatureCanonical(&crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")})
					if err != nil {
						return result{st: "err", info: M{"nil": g == nil}}
					}
					return result{st: "ok", out: [][]byte{g.R, g.S}}
				})
			}
		case "derive":
			k := func() *crypto.PrivateKey { return crypto.NewPrivateKey(getBytes(ev, "k")) }
			for _, g := range []crypto.KeyGenerator{crypto.NewEd25519KeyGenerator(nil), ed.CreateKeyGenerator(), def.CreateKeyGenerator()} {
				g := g
				do(func() result { return result{st: "ok", out: [][]byte{k().Raw, g.DerivePublicKey(k()).Raw}} })
			}
			for _, e := range []crypto.CryptoEngine{nil, ed, def} {
				e := e
				do(func() result {
					kp, err := crypto.NewKeyPair(k(), nil, e)
					if err != nil {
						return errRes(err)
					}
					return result{st: "ok", out: [][]byte{kp.PrivateKey.Raw, kp.PublicKey.Raw}}
				})
			}
		case "gen":
			rnd := getBytes(ev, "rnd")
			pair := func(kp *crypto.KeyPair, err error) result {
				if err != nil {
					return result{st: "err", info: M{"nil": kp == nil}}
				}
				return result{st: "ok", out: [][]byte{kp.PrivateKey.Raw, kp.PublicKey.Raw}}
			}
			do(func() result { return pair(crypto.NewEd25519KeyGenerator(bytes.NewReader(rnd)).GenerateKeyPair()) })
			for _, g := range []func() (*crypto.KeyPair, error){
				func() (*crypto.KeyPair, error) { return crypto.NewEd25519KeyGenerator(nil).GenerateKeyPair() },
				func() (*crypto.KeyPair, error) { return ed.CreateKeyGenerator().GenerateKeyPair() },
				func() (*crypto.KeyPair, error) { return def.CreateKeyGenerator().GenerateKeyPair() },
				func() (*crypto.KeyPair, error) { return crypto.NewKeyPairByEngine(ed) },
				func() (*crypto.KeyPair, error) { return crypto.NewKeyPairByEngine(def) },
				crypto.NewRandomKeyPair,
			} {
				g := g
				withGlobal(rnd, func() { do(func() result { return pair(g()) }) })
			}
		case "enc", "dec":
			mk := []func(s, r *crypto.KeyPair) crypto.BlockCipher{
				func(s, r *crypto.KeyPair) crypto.BlockCipher { return crypto.NewEd25519BlockCipher(s, r, nil) },
				func(s, r *crypto.KeyPair) crypto.BlockCipher { return crypto.NewBlockCipher(s, r, nil) },
				func(s, r *crypto.KeyPair) crypto.BlockCipher { return crypto.NewBlockCipher(s, r, ed) },
				func(s, r *crypto.KeyPair) crypto.BlockCipher { return crypto.NewBlockCipher(s, r, def) },
				ed.CreateBlockCipher, def.CreateBlockCipher,
			}
			rnd := []byte{}
			if f == "enc" {
				rnd = getBytes(ev, "rnd")
			}
			for _, c := range mk {
				c := c
				withGlobal(rnd, func() {
					do(func() result {
						bc := c(twoPairs(ev))
						var o []byte
						var err error
						if f == "enc" {
							o, err = bc.Encrypt(getMsg(ev, "m"))
						} else {
							o, err = bc.Decrypt(getBytes(ev, "c"))
						}
						if err != nil {
							return result{st: "err", info: M{"nil": len(o) == 0}}
						}
						return result{st: "ok", out: [][]byte{o}}
					})
				})
			}
		default:
			bad("f")
		}
		ev["outs"] = outs
		ev["st"] = "ok"
	}
}
