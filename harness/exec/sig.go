package main

import (
	"bytes"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

func leInt(b []byte) *big.Int {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return new(big.Int).SetBytes(r)
}

func intLE(n *big.Int) B {
	b := n.Bytes()
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return B(b)
}

// mkPriv builds a private key from its bytes in the way via names.
func mkPriv(raw []byte, via string) *crypto.PrivateKey {
	switch via {
	case "", "bytes":
		return crypto.NewPrivateKey(raw)
	case "hex":
		k, err := crypto.NewPrivateKeyfromHexString(hexOf(raw, false))
		if err != nil {
			panic(err)
		}
		return k
	case "HEX":
		k, err := crypto.NewPrivateKeyfromHexString(hexOf(raw, true))
		if err != nil {
			panic(err)
		}
		return k
	case "int":
		return crypto.NewPrivateKeyFromBigInt(new(big.Int).SetBytes(raw))
	}
	bad("kvia %q", via)
	return nil
}

func hexOf(b []byte, upper bool) string {
	d := "0123456789abcdef"
	if upper {
		d = "0123456789ABCDEF"
	}
	var o []byte
	for _, x := range b {
		o = append(o, d[x>>4], d[x&15])
	}
	return string(o)
}

func mkSigner(kp *crypto.KeyPair, via string) crypto.DsaSigner {
	switch via {
	case "", "dsa":
		return crypto.NewEd25519DsaSigner(kp)
	case "signer":
		return crypto.NewSignerFromKeyPair(kp, nil)
	case "signereng":
		return crypto.NewSignerFromKeyPair(kp, crypto.CryptoEngines.Ed25519Engine)
	case "engine":
		return crypto.CryptoEngines.DefaultEngine.CreateDsaSigner(kp)
	case "wrap":
		return crypto.NewSigner(crypto.CryptoEngines.Ed25519Engine.CreateDsaSigner(kp))
	}
	bad("via %q", via)
	return nil
}

func liveSigner(env *Env, ev M, kp *crypto.KeyPair) crypto.DsaSigner {
	return live(env, ev, func() crypto.DsaSigner { return mkSigner(kp, getStr(ev, "via")) }, "via", "k", "A")
}

// anyPair: the pair of the event, if it has one.
func anyPair(ev M) *crypto.KeyPair {
	if has(ev, "A") {
		return onePair(ev, "k", "A")
	}
	return &crypto.KeyPair{PublicKey: crypto.NewPublicKey(make([]byte, 32))}
}

// pairOf: key pair of the event's k (bytes; kvia) and, when given, A.
func pairOf(ev M) (*crypto.KeyPair, error) {
	if getStr(ev, "kvia") == "gen" {
		r := bytes.NewReader(getBytes(ev, "k"))
		return crypto.NewEd25519KeyGenerator(r).GenerateKeyPair()
	}
	k := mkPriv(getBytes(ev, "k"), getStr(ev, "kvia"))
	if has(ev, "A") {
		return crypto.NewKeyPair(k, crypto.NewPublicKey(getBytes(ev, "A")), nil)
	}
	return crypto.NewKeyPair(k, nil, nil)
}

func init() {
	ops["sign"] = func(env *Env, ev M) {
		kp, err := pairOf(ev)
		if setErr(ev, err) {
			return
		}
		s := liveSigner(env, ev, kp)
		m := getMsg(ev, "m")
		n := 1
		if has(ev, "times") {
			n = getInt(ev, "times")
		}
		for i := 0; i < n; i++ {
			sig, err := s.Sign(m)
			if setErr(ev, err) {
				return
			}
			r, t := B(append([]byte{}, sig.R...)), B(append([]byte{}, sig.S...))
			if i > 0 && !(bytes.Equal(r, ev["r"].(B)) && bytes.Equal(t, ev["s"].(B))) {
				// report the deviating result
				ev["r"], ev["s"] = r, t
				return
			}
			ev["r"], ev["s"] = r, t
		}
	}

	// Sign, then verify in every documented way.
	ops["signverify"] = func(env *Env, ev M) {
		kp, err := pairOf(ev)
		if setErr(ev, err) {
			return
		}
		s := mkSigner(kp, getStr(ev, "via"))
		m := getMsg(ev, "m")
		sig, err := s.Sign(m)
		if setErr(ev, err) {
			return
		}
		ev["A1"] = B(kp.PublicKey.Raw)
		ev["r"], ev["s"] = B(sig.R), B(sig.S)
		pub, err := crypto.NewKeyPair(nil, crypto.NewPublicKey(append([]byte{}, kp.PublicKey.Raw...)), nil)
		if setErr(ev, err) {
			return
		}
		vs := []bool{s.Verify(m, sig)}
		for _, via := range []string{"dsa", "signer", "wrap"} {
			vs = append(vs, mkSigner(pub, via).Verify(m, sig))
		}
		b, err := crypto.NewSignatureFromBytes(sig.Bytes())
		if setErr(ev, err) {
			return
		}
		vs = append(vs, mkSigner(pub, "dsa").Verify(m, b))
		i, err := crypto.NewSignatureFromBigInt(sig.GetR(), sig.GetS())
		if setErr(ev, err) {
			return
		}
		vs = append(vs, mkSigner(pub, "signer").Verify(m, i))
		vs = append(vs, s.IsCanonicalSignature(sig))
		ev["vs"] = vs
		ev["A"] = B(kp.PublicKey.Raw)
	}

	ops["verify"] = func(env *Env, ev M) {
		sig := &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")}
		ev["v"] = liveSigner(env, ev, onePair(ev, "k", "A")).Verify(getMsg(ev, "m"), sig)
		ev["st"] = "ok"
	}

	ops["canon"] = func(env *Env, ev M) {
		sig := &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")}
		ev["v"] = liveSigner(env, ev, anyPair(ev)).IsCanonicalSignature(sig)
		ev["st"] = "ok"
	}

	ops["mkcanon"] = func(env *Env, ev M) {
		sig := &crypto.Signature{R: getBytes(ev, "r"), S: getBytes(ev, "s")}
		s := liveSigner(env, ev, anyPair(ev))
		c, err := s.MakeSignatureCanonical(sig)
		if setErr(ev, err) {
			return
		}
		ev["r2"], ev["s2"] = B(append([]byte{}, c.R...)), B(append([]byte{}, c.S...))
		c2, err := s.MakeSignatureCanonical(c)
		if setErr(ev, err) {
			return
		}
		ev["r3"], ev["s3"] = B(c2.R), B(c2.S)
	}

	ops["derive"] = func(env *Env, ev M) {
		k := mkPriv(getBytes(ev, "k"), getStr(ev, "kvia"))
		ev["st"] = "ok"
		switch via := getStr(ev, "via"); via {
		case "gen":
			ev["A"] = B(crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(k).Raw)
		case "engine":
			ev["A"] = B(crypto.CryptoEngines.DefaultEngine.CreateKeyGenerator().DerivePublicKey(k).Raw)
		case "pairnil", "paireng", "pairdef":
			var e crypto.CryptoEngine
			if via == "paireng" {
				e = crypto.CryptoEngines.Ed25519Engine
			} else if via == "pairdef" {
				e = crypto.CryptoEngines.DefaultEngine
			}
			kp, err := crypto.NewKeyPair(k, nil, e)
			if setErr(ev, err) {
				return
			}
			ev["A"] = B(kp.PublicKey.Raw)
			if !bytes.Equal(kp.PrivateKey.Raw, getBytes(ev, "k")) {
				ev["A"] = B{}
			}
		default:
			bad("via %q", via)
		}
	}

	// PrepareForScalarMultiply: the clamped secret scalar.
	ops["secret"] = func(env *Env, ev M) {
		ev["a"] = B(crypto.PrepareForScalarMultiply(mkPriv(getBytes(ev, "k"), getStr(ev, "kvia"))).Raw)
		ev["st"] = "ok"
	}

	ops["hash"] = func(env *Env, ev M) {
		var parts [][]byte
		if has(ev, "m") || has(ev, "mp") {
			m := getMsg(ev, "m")
			if has(ev, "cuts") {
				at := 0
				for _, c := range ev["cuts"].([]interface{}) {
					parts = append(parts, m[at:at+int(c.(float64))])
					at += int(c.(float64))
				}
				parts = append(parts, m[at:])
				if getBool(ev, "same") { // equal parts are one slice
					seen := map[string][]byte{}
					for i, p := range parts {
						if _, ok := seen[string(p)]; !ok {
							seen[string(p)] = append([]byte(nil), p...)
						}
						parts[i] = seen[string(p)]
					}
				}
			} else {
				parts = [][]byte{m}
			}
		}
		var out []byte
		var err error
		switch getStr(ev, "alg") {
		case "sha256":
			out, err = crypto.HashesSha_256(parts[0])
		case "sha3_256":
			out, err = crypto.HashesSha3_256(parts[0])
		case "sha3_512":
			out, err = crypto.HashesSha3_512(parts...)
		case "keccak_256":
			out, err = crypto.HashesKeccak_256(parts[0])
		case "ripemd160":
			out, err = crypto.HashesRipemd160(parts[0])
		default:
			bad("alg")
		}
		if setErr(ev, err) {
			return
		}
		ev["d"] = B(out)
	}

	// ---- keys and signatures: bytes, text, integers ----
	ops["priv"] = func(env *Env, ev M) {
		var k *crypto.PrivateKey
		var err error
		switch getStr(ev, "via") {
		case "bytes":
			k = crypto.NewPrivateKey(getBytes(ev, "x"))
		case "hex":
			k, err = crypto.NewPrivateKeyfromHexString(getText(ev, "x"))
		case "int":
			k = crypto.NewPrivateKeyFromBigInt(leInt(getBytes(ev, "x")))
		default:
			bad("via")
		}
		if setErr(ev, err) {
			ev["nil"] = k == nil
			return
		}
		ev["raw"] = B(k.Raw)
		ev["str"] = B(k.String())
	}
	ops["pub"] = func(env *Env, ev M) {
		var k *crypto.PublicKey
		var err error
		switch getStr(ev, "via") {
		case "bytes":
			k = crypto.NewPublicKey(getBytes(ev, "x"))
		case "hex":
			k, err = crypto.NewPublicKeyfromHex(getText(ev, "x"))
		default:
			bad("via")
		}
		if setErr(ev, err) {
			ev["nil"] = k == nil
			return
		}
		ev["raw"] = B(k.Raw)
		ev["str"] = B(k.String())
	}
	ops["sig"] = func(env *Env, ev M) {
		var s *crypto.Signature
		var err error
		switch getStr(ev, "via") {
		case "parts":
			s, err = crypto.NewSignature(getBytes(ev, "r"), getBytes(ev, "s"))
		case "bytes":
			s, err = crypto.NewSignatureFromBytes(getBytes(ev, "x"))
		case "int":
			r, t := leInt(getBytes(ev, "r")), leInt(getBytes(ev, "s"))
			if getBool(ev, "rneg") {
				r.Neg(r)
			}
			if getBool(ev, "sneg") {
				t.Neg(t)
			}
			if getBool(ev, "rnil") {
				r = nil
			}
			if getBool(ev, "snil") {
				t = nil
			}
			s, err = crypto.NewSignatureFromBigInt(r, t)
		default:
			bad("via")
		}
		if setErr(ev, err) {
			ev["nil"] = s == nil
			return
		}
		ev["r2"], ev["s2"] = B(s.R), B(s.S)
		ev["ri"], ev["si"] = intLE(s.GetR()), intLE(s.GetS())
		ev["b"] = B(s.Bytes())
		ev["str"] = B(s.String())
	}
}
