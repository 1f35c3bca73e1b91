package main

import (
	"bytes"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// Pairs, signers and ciphers made with several engines in one history. The
// custom engines answer with their mark and the names of the pairs they got.
type weaveEngine struct {
	env  *Env
	mark byte
}

type weaveThing struct {
	e    *weaveEngine
	s, r *crypto.KeyPair
	log  M
}

func (e *weaveEngine) fill(n int, k byte) []byte { return bytes.Repeat([]byte{e.mark + k}, n) }

// lean: a custom engine may itself use the library.
func lean(s, r *crypto.KeyPair) {
	k := crypto.NewPrivateKey([]byte("a private key of custom engines.."))
	if p, err := crypto.NewKeyPair(k, crypto.NewPublicKey(make([]byte, 32)), nil); err == nil {
		crypto.NewSignerFromKeyPair(p, nil).Verify(nil, &crypto.Signature{R: make([]byte, 32), S: make([]byte, 32)})
		crypto.NewBlockCipher(p, p, nil)
	}
	if s != nil {
		crypto.NewSignerFromKeyPair(s, nil)
	}
	if r != nil && r.PublicKey != nil {
		crypto.NewBlockCipher(s, r, nil)
	}
	crypto.HashesSha3_512([]byte("anything"))
}

func (e *weaveEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	lean(kp, nil)
	return &weaveSigner{weaveThing{e: e, s: kp, r: kp}}
}
func (e *weaveEngine) CreateKeyGenerator() crypto.KeyGenerator {
	lean(nil, nil)
	return weaveGen{e}
}
func (e *weaveEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	lean(s, r)
	return &weaveCipher{weaveThing{e: e, s: s, r: r}}
}
func (e *weaveEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return weaveAn{} }

type weaveSigner struct{ weaveThing }
type weaveCipher struct{ weaveThing }
type weaveGen struct{ e *weaveEngine }
type weaveAn struct{}

func (weaveAn) IsKeyCompressed(*crypto.PublicKey) bool {
	lean(nil, nil)
	return true
}

func (t *weaveThing) saw(f string, m []byte) {
	lean(t.s, t.r)
	t.e.env.objs["saw"] = M{"f": f, "m": B(append([]byte{}, m...)), "s": t.e.env.nameOf(t.s), "r": t.e.env.nameOf(t.r), "mark": int(t.e.mark)}
}
func (env *Env) nameOf(p *crypto.KeyPair) string {
	for n, o := range env.objs {
		if o == interface{}(p) {
			return n
		}
	}
	return "?"
}

func (t *weaveSigner) Sign(m []byte) (*crypto.Signature, error) {
	t.saw("sign", m)
	return &crypto.Signature{R: t.e.fill(32, 1), S: t.e.fill(32, 2)}, nil
}
func (t *weaveSigner) Verify(m []byte, g *crypto.Signature) bool {
	t.saw("verify", m)
	return len(g.R) == 0 || g.R[0]%2 == 0
}
func (t *weaveSigner) IsCanonicalSignature(g *crypto.Signature) bool { return true }
func (t *weaveSigner) MakeSignatureCanonical(g *crypto.Signature) (*crypto.Signature, error) {
	return g, nil
}
func (g weaveGen) GenerateKeyPair() (*crypto.KeyPair, error) {
	lean(nil, nil)
	return &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(g.e.fill(32, 5)), PublicKey: crypto.NewPublicKey(g.e.fill(32, 6))}, nil
}
func (g weaveGen) DerivePublicKey(*crypto.PrivateKey) *crypto.PublicKey {
	lean(nil, nil)
	return crypto.NewPublicKey(g.e.fill(32, 7))
}
func (t *weaveCipher) Encrypt(m []byte) ([]byte, error) { t.saw("enc", m); return t.e.fill(20, 8), nil }
func (t *weaveCipher) Decrypt(m []byte) ([]byte, error) { t.saw("dec", m); return t.e.fill(21, 9), nil }

var weaveMarks = map[string]byte{"s1": 10, "s2": 60}

func (env *Env) engine(n string) crypto.CryptoEngine {
	switch n {
	case "nil":
		return nil
	case "def":
		return crypto.CryptoEngines.DefaultEngine
	case "ed":
		return crypto.CryptoEngines.Ed25519Engine
	}
	if e, ok := env.objs["engine:"+n]; ok {
		return e.(*weaveEngine)
	}
	m, ok := weaveMarks[n]
	if !ok {
		bad("engine %q", n)
	}
	e := &weaveEngine{env, m}
	env.objs["engine:"+n] = e
	return e
}

func (env *Env) keepPair(ev M, kp *crypto.KeyPair, err error) {
	if setErr(ev, err) {
		ev["nil"] = kp == nil
		return
	}
	env.objs[getStr(ev, "h")] = kp
	ev["has"] = kp.HasPrivateKey()
	ev["k2"], ev["A2"] = B{}, B{}
	if kp.PrivateKey != nil {
		ev["k2"] = B(append([]byte{}, kp.PrivateKey.Raw...))
	}
	if kp.PublicKey != nil {
		ev["A2"] = B(append([]byte{}, kp.PublicKey.Raw...))
	}
}

func init() {
	ops["wpair"] = func(env *Env, ev M) {
		var k *crypto.PrivateKey
		var a *crypto.PublicKey
		if has(ev, "k") {
			k = crypto.NewPrivateKey(getBytes(ev, "k"))
		}
		if has(ev, "A") {
			a = crypto.NewPublicKey(getBytes(ev, "A"))
		}
		kp, err := crypto.NewKeyPair(k, a, env.engine(getStr(ev, "eng")))
		env.keepPair(ev, kp, err)
	}
	ops["wgen"] = func(env *Env, ev M) {
		if e := env.engine(getStr(ev, "eng")); e != nil {
			kp, err := crypto.NewKeyPairByEngine(e)
			env.keepPair(ev, kp, err)
			return
		}
		kp, err := crypto.NewRandomKeyPair()
		env.keepPair(ev, kp, err)
	}
	ops["wsigner"] = func(env *Env, ev M) {
		env.objs[getStr(ev, "h")] = crypto.NewSignerFromKeyPair(env.pair(ev, "p"), env.engine(getStr(ev, "eng")))
		ev["st"] = "ok"
	}
	ops["wcipher"] = func(env *Env, ev M) {
		env.objs[getStr(ev, "h")] = crypto.NewBlockCipher(env.pair(ev, "p"), env.pair(ev, "q"), env.engine(getStr(ev, "eng")))
		ev["st"] = "ok"
	}
	ops["wuse"] = func(env *Env, ev M) {
		delete(env.objs, "saw")
		defer func() {
			if s, ok := env.objs["saw"]; ok {
				ev["saw"] = s
			}
		}()
		ev["nil"] = true
		switch o := env.objs[getStr(ev, "h")].(type) {
		case *crypto.Signer:
			if getStr(ev, "f") == "sign" {
				g, err := o.Sign(getBytes(ev, "m"))
				ev["nil"] = g == nil
				if !setErr(ev, err) {
					ev["r"], ev["s"] = B(g.R), B(g.S)
				}
				return
			}
			ev["v"] = o.Verify(getBytes(ev, "m"), &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")})
			ev["st"] = "ok"
		case crypto.BlockCipher:
			f := o.Encrypt
			if getStr(ev, "f") == "dec" {
				f = o.Decrypt
			}
			b, err := f(getBytes(ev, "m"))
			ev["nil"] = b == nil
			if !setErr(ev, err) {
				ev["out"] = B(b)
			}
		default:
			bad("no object %q", getStr(ev, "h"))
		}
	}
}
