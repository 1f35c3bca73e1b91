package main

import (
	"bytes"
	"errors"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

// stubEngine is a custom engine: everything it makes is recognisable.
type stubEngine struct {
	log  []string
	mark byte
	comp bool
	fail bool
	val  bool

	lastKP, lastS, lastR *crypto.KeyPair
	lastMsg              []byte
	lastSig              *crypto.Signature
	lastKey              *crypto.PrivateKey
}

var errStub = errors.New("stub failure")

func (e *stubEngine) bytes(n int, k byte) []byte {
	return bytes.Repeat([]byte{e.mark + k}, n)
}

func (e *stubEngine) CreateDsaSigner(kp *crypto.KeyPair) crypto.DsaSigner {
	e.lastKP = kp
	return (*stubSigner)(e)
}
func (e *stubEngine) CreateKeyGenerator() crypto.KeyGenerator { return (*stubGen)(e) }
func (e *stubEngine) CreateBlockCipher(s, r *crypto.KeyPair) crypto.BlockCipher {
	e.lastS, e.lastR = s, r
	return (*stubCipher)(e)
}
func (e *stubEngine) CreateKeyAnalyzer() crypto.KeyAnalyzer { return (*stubAn)(e) }

type stubSigner stubEngine
type stubGen stubEngine
type stubCipher stubEngine
type stubAn stubEngine

func (s *stubSigner) Sign(m []byte) (*crypto.Signature, error) {
	s.lastMsg = append([]byte{}, m...)
	if s.fail {
		return nil, errStub
	}
	e := (*stubEngine)(s)
	return &crypto.Signature{R: e.bytes(32, 1), S: e.bytes(32, 2)}, nil
}
func (s *stubSigner) Verify(m []byte, g *crypto.Signature) bool {
	s.lastMsg, s.lastSig = append([]byte{}, m...), g
	return s.val
}
func (s *stubSigner) IsCanonicalSignature(g *crypto.Signature) bool {
	s.lastSig = g
	return s.val
}
func (s *stubSigner) MakeSignatureCanonical(g *crypto.Signature) (*crypto.Signature, error) {
	s.lastSig = g
	if s.fail {
		return nil, errStub
	}
	e := (*stubEngine)(s)
	return &crypto.Signature{R: e.bytes(32, 3), S: e.bytes(32, 4)}, nil
}
func (g *stubGen) GenerateKeyPair() (*crypto.KeyPair, error) {
	if g.fail {
		return nil, errStub
	}
	e := (*stubEngine)(g)
	return &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(e.bytes(32, 5)), PublicKey: crypto.NewPublicKey(e.bytes(32, 6))}, nil
}
func (g *stubGen) DerivePublicKey(k *crypto.PrivateKey) *crypto.PublicKey {
	g.lastKey = k
	return crypto.NewPublicKey((*stubEngine)(g).bytes(32, 7))
}
func (c *stubCipher) Encrypt(m []byte) ([]byte, error) {
	c.lastMsg = append([]byte{}, m...)
	if c.fail {
		return nil, errStub
	}
	return (*stubEngine)(c).bytes(20, 8), nil
}
func (c *stubCipher) Decrypt(m []byte) ([]byte, error) {
	c.lastMsg = append([]byte{}, m...)
	if c.fail {
		return nil, errStub
	}
	return (*stubEngine)(c).bytes(21, 9), nil
}
func (a *stubAn) IsKeyCompressed(*crypto.PublicKey) bool { return a.comp }

func init() {
	// NewKeyPair with every combination of keys and engines.
	ops["newpair"] = func(env *Env, ev M) {
		var k *crypto.PrivateKey
		var a *crypto.PublicKey
		if has(ev, "k") {
			k = crypto.NewPrivateKey(getBytes(ev, "k"))
		}
		if has(ev, "A") {
			a = crypto.NewPublicKey(getBytes(ev, "A"))
		}
		var e crypto.CryptoEngine
		st := &stubEngine{mark: 100, comp: getBool(ev, "comp")}
		switch getStr(ev, "eng") {
		case "nil":
		case "def":
			e = crypto.CryptoEngines.DefaultEngine
		case "ed":
			e = crypto.CryptoEngines.Ed25519Engine
		case "stub":
			e = st
		default:
			bad("eng")
		}
		kp, err := crypto.NewKeyPair(k, a, e)
		if setErr(ev, err) {
			ev["nil"] = kp == nil
			return
		}
		ev["has"] = kp.HasPrivateKey()
		ev["k2"], ev["A2"] = B{}, B{}
		if kp.PrivateKey != nil {
			ev["k2"] = B(kp.PrivateKey.Raw)
		}
		if kp.PublicKey != nil {
			ev["A2"] = B(kp.PublicKey.Raw)
		}
	}
	ops["compressed"] = func(env *Env, ev M) {
		p := crypto.NewPublicKey(make([]byte, getInt(ev, "n")))
		ev["v"] = crypto.CryptoEngines.DefaultEngine.CreateKeyAnalyzer().IsKeyCompressed(p)
		ev["w"] = crypto.NewEd25519KeyAnalyzer().IsKeyCompressed(p)
		ev["st"] = "ok"
	}
	// Key pair without private key.
	ops["signnokey"] = func(env *Env, ev M) {
		kp, err := crypto.NewKeyPair(nil, pub(getBytes(ev, "A")), nil)
		if err != nil {
			panic(err)
		}
		s, err := mkSigner(kp, getStr(ev, "via")).Sign(getMsg(ev, "m"))
		ev["has"] = kp.HasPrivateKey()
		ev["nil"] = s == nil
		setErr(ev, err)
	}
	// The wrappers over a custom engine.
	ops["stub"] = func(env *Env, ev M) {
		e := &stubEngine{mark: byte(getInt(ev, "mark")), fail: getBool(ev, "fail"), val: getBool(ev, "val")}
		kp := &crypto.KeyPair{PublicKey: pub(make([]byte, 32))}
		kp2 := &crypto.KeyPair{PublicKey: pub(make([]byte, 32))}
		m := getBytes(ev, "m")
		sg := &crypto.Signature{R: make([]byte, 32), S: make([]byte, 32)}
		signer := crypto.NewSignerFromKeyPair(kp, e)
		if getBool(ev, "direct") {
			signer = crypto.NewSigner((*stubSigner)(e))
			e.lastKP = kp
		}
		ev["seen"] = true
		switch f := getStr(ev, "f"); f {
		case "sign":
			s, err := signer.Sign(m)
			ev["seen"] = e.lastKP == kp && bytes.Equal(e.lastMsg, m)
			if setErr(ev, err) {
				return
			}
			ev["r1"], ev["r2"] = B(s.R), B(s.S)
		case "verify":
			ev["v"] = signer.Verify(m, sg)
			ev["seen"] = e.lastKP == kp && bytes.Equal(e.lastMsg, m) && e.lastSig == sg
			ev["st"] = "ok"
		case "canon":
			ev["v"] = signer.IsCanonicalSignature(sg)
			ev["seen"] = e.lastKP == kp && e.lastSig == sg
			ev["st"] = "ok"
		case "mkcanon":
			s, err := signer.MakeSignatureCanonical(sg)
			ev["seen"] = e.lastKP == kp && e.lastSig == sg
			if setErr(ev, err) {
				return
			}
			ev["r1"], ev["r2"] = B(s.R), B(s.S)
		case "gen":
			p, err := crypto.NewKeyPairByEngine(e)
			if setErr(ev, err) {
				return
			}
			ev["r1"], ev["r2"] = B(p.PrivateKey.Raw), B(p.PublicKey.Raw)
		case "enc", "dec":
			c := crypto.NewBlockCipher(kp, kp2, e)
			g := c.Encrypt
			if f == "dec" {
				g = c.Decrypt
			}
			o, err := g(m)
			ev["seen"] = e.lastS == kp && e.lastR == kp2 && bytes.Equal(e.lastMsg, m)
			if setErr(ev, err) {
				return
			}
			ev["r1"], ev["r2"] = B(o), B{}
		default:
			bad("f")
		}
	}
}
