package main

import (
	"bytes"
	"crypto/aes"
	stdcipher "crypto/cipher"
	"crypto/sha256"
	"io"
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
	"golang.org/x/crypto/sha3"
)

// Mass calls (spec/Streams.tla): item i derives its arguments from the seed,
// and only a chained digest of the results is reported.

type stream struct {
	seed []byte
	edge bool
}

func (s stream) in(i, j int) []byte {
	h := sha3.Sum512(append(append([]byte{}, s.seed...), byte(i), byte(i>>8), byte(j)))
	return h[:]
}

func (s stream) val(i, j int) []byte {
	b := s.in(i, j)
	if s.edge {
		mask := s.in(i, j+100)
		for k := range b {
			switch mask[k/4] % 8 {
			case 0:
				b[k] = 0
			case 1:
				b[k] = 255
			}
		}
	}
	return b
}

func leBytes(x *big.Int, n int) []byte {
	b := make([]byte, n)
	x.FillBytes(b)
	for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return b
}

func (s stream) scalar(i, j, n int) []byte {
	v, x := s.val(i, j), s.in(i, j+50)
	if !s.edge || x[0]%2 == 0 {
		return v[:n]
	}
	q := big.NewInt(int64(x[1] % 16))
	if n != 32 {
		q = leInt(v[:x[1]%33])
	}
	t := q.Mul(q, refL)
	t.Add(t, big.NewInt(int64(x[2])+256*int64(x[3]%4)-512))
	if t.Sign() < 0 {
		return make([]byte, n)
	}
	t.Mod(t, new(big.Int).Lsh(big.NewInt(1), uint(8*n)))
	return leBytes(t, n)
}

func (s stream) limbs(i, j int, wide bool) (r [10]int64) {
	b := s.in(i, j)
	for k := range r {
		bound := int64(36909875)
		if k%2 == 1 {
			bound = 18454937
		}
		if wide {
			bound = 110729625
			if k%2 == 1 {
				bound = 55364812
			}
		}
		v := int64(b[4*k]) + 256*int64(b[4*k+1]) + 65536*int64(b[4*k+2]) + 16777216*int64(b[4*k+3]%16)
		r[k] = v%(2*bound+1) - bound
		if s.edge {
			switch c := b[4*k+3] / 16; {
			case c < 4:
				r[k] = bound
			case c < 8:
				r[k] = -bound
			case c == 8:
				r[k] = 0
			case c == 9:
				r[k] = 1
			case c == 10:
				r[k] = -1
			case c == 11:
				r[k] = bound - v%16
			case c == 12:
				r[k] = v%16 - bound
			}
		}
	}
	return
}

func (s stream) message(i, j int) []byte {
	n := s.in(i, j+50)[0] % 129
	return append(s.val(i, j), s.val(i, j+1)...)[:n]
}

func bit(v bool) []byte {
	if v {
		return []byte{1}
	}
	return []byte{0}
}

func cat(bs ...[]byte) []byte { return bytes.Join(bs, nil) }

// ---- genuine signatures and ciphertexts to damage, made without the library ----

var (
	refP, _ = new(big.Int).SetString("7fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffed", 16)
	refL, _ = new(big.Int).SetString("1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16)
	refD, _ = new(big.Int).SetString("52036cee2b6ffe738cc740797779e89800700a4d4141d8ab75eb4dca135978a3", 16)
	refI, _ = new(big.Int).SetString("2b8324804fc1df0b2b4d00993dfbd7a72f431806ad2fe478c4ee1b274a0ea0b0", 16)
	refB    = refPoint(refHex("216936d3cd6e53fec0a4e231fdd6dc5c692cc7609525a7b2c9562d608f25d51a"),
		refHex("6666666666666666666666666666666666666666666666666666666666666658"))
	refTable = tableOf(refB)
)

type refPt [4]*big.Int // extended coordinates

func refHex(s string) *big.Int { n, _ := new(big.Int).SetString(s, 16); return n }

func refPoint(x, y *big.Int) refPt {
	return refPt{x, y, big.NewInt(1), mulp(x, y)}
}

func mulp(a, b *big.Int) *big.Int {
	c := new(big.Int).Mul(a, b)
	return c.Mod(c, refP)
}

func (p refPt) add(q refPt) refPt {
	sub := func(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
	sum := func(a, b *big.Int) *big.Int { return new(big.Int).Add(a, b) }
	a := mulp(sub(p[1], p[0]), sub(q[1], q[0]))
	b := mulp(sum(p[1], p[0]), sum(q[1], q[0]))
	t := mulp(p[3], q[3])
	c := mulp(sum(t, t), refD)
	z := mulp(p[2], q[2])
	d := sum(z, z)
	e, f, g, h := sub(b, a), sub(d, c), sum(d, c), sum(b, a)
	return refPt{mulp(e, f), mulp(g, h), mulp(f, g), mulp(e, h)}
}

func refZero() refPt { return refPoint(big.NewInt(0), big.NewInt(1)) }

// tableOf: j 16^i p
func tableOf(p refPt) (t [64][16]refPt) {
	for i := range t {
		t[i][0] = refZero()
		for j := 1; j < 16; j++ {
			t[i][j] = t[i][j-1].add(p)
		}
		p = t[i][15].add(p)
	}
	return
}

func refMul(t *[64][16]refPt, n *big.Int) []byte {
	r := refZero()
	for i, x := range leBytes(n, 32) {
		r = r.add(t[2*i][x&15]).add(t[2*i+1][x>>4])
	}
	z := new(big.Int).ModInverse(r[2], refP)
	x, y := mulp(r[0], z), leBytes(mulp(r[1], z), 32)
	y[31] |= byte(x.Bit(0)) << 7
	return y
}

// refDecode: the point a byte string encodes, which has to be one.
func refDecode(b []byte) refPt {
	c := append([]byte{}, b...)
	c[31] &= 127
	y := new(big.Int).Mod(leInt(c), refP)
	yy := mulp(y, y)
	u := new(big.Int).Sub(yy, big.NewInt(1))
	v := new(big.Int).Add(mulp(yy, refD), big.NewInt(1))
	w := mulp(u, new(big.Int).ModInverse(v, refP))
	x := new(big.Int).ModSqrt(w, refP)
	if x == nil {
		bad("not a point")
	}
	if byte(x.Bit(0)) != b[31]>>7 {
		x.Sub(refP, x)
		x.Mod(x, refP)
	}
	return refPoint(x, y)
}

func refSecret(k []byte) (a *big.Int, prefix []byte) {
	h := sha3.Sum512(k)
	h[0] &= 248
	h[31] &= 127
	h[31] |= 64
	return leInt(h[:32]), h[32:]
}

func hashL(parts ...[]byte) *big.Int {
	h := sha3.Sum512(cat(parts...))
	return new(big.Int).Mod(leInt(h[:]), refL)
}

func refSign(k, A, m []byte) (r, s []byte) {
	a, prefix := refSecret(k)
	n := hashL(prefix, m)
	r = refMul(&refTable, n)
	h := hashL(r, A, m)
	h.Mul(h, a)
	h.Add(h, n)
	return r, leBytes(h.Mod(h, refL), 32)
}

func flip(b []byte, n int) []byte {
	if len(b) == 0 {
		return []byte{1}
	}
	c := append([]byte{}, b...)
	n %= 8 * len(b)
	c[n/8] ^= 1 << uint(n%8)
	return c
}

// portions is a source of at most max bytes a read.
type portions struct {
	buf []byte
	max int
}

func (r *portions) Read(p []byte) (int, error) {
	if len(p) > r.max {
		p = p[:r.max]
	}
	if len(r.buf) == 0 && len(p) > 0 {
		return 0, io.EOF
	}
	n := copy(p, r.buf)
	r.buf = r.buf[n:]
	return n, nil
}

// ---- the items ----

// res is a result as the library returned it: its parts are not copied - and
// elements not encoded - before the last call was made, so that a later call
// that changes them is noticed.
func res(parts ...interface{}) func() []byte {
	return func() []byte {
		var out []byte
		for _, p := range parts {
			switch x := p.(type) {
			case []byte:
				out = append(out, x...)
			case ge:
				e, err := x.Encode()
				if err != nil {
					panic(err)
				}
				out = append(out, e.Raw...)
			case *crypto.Ed25519FieldElement:
				out = append(out, x.Encode().Raw...)
			default:
				bad("part %T", p)
			}
		}
		return out
	}
}

// setup returns what makes item i; nil when the build lacks a probe.
func (s stream) setup(ev M) func(i int) func() []byte {
	pr := func(name string) interface{} {
		p := crypto.VPProbes[name]
		if p == nil {
			ev["st"] = "noprobe"
		}
		return p
	}
	must := func(err error) {
		if err != nil {
			panic(err)
		}
	}
	priv := func(b []byte) *crypto.KeyPair {
		kp, err := crypto.NewKeyPair(crypto.NewPrivateKey(b), nil, nil)
		must(err)
		return kp
	}
	point := func(b []byte) ge { return geOf(M{"cs": "ENC", "b": B(b)}) }
	via := getStr(ev, "via")
	switch getStr(ev, "f") {
	case "modq":
		p := pr("modQ")
		if p == nil {
			return nil
		}
		return func(i int) func() []byte { return res(p.(func(a ef) ef)(efOf(s.scalar(i, 1, 64))).Raw) }
	case "muladd":
		p := pr("mulAddQ")
		if p == nil {
			return nil
		}
		return func(i int) func() []byte {
			return res(p.(func(a, b, c ef) ef)(efOf(s.scalar(i, 1, 32)), efOf(s.scalar(i, 2, 32)), efOf(s.scalar(i, 3, 32))).Raw)
		}
	case "canon":
		d := mkSigner(&crypto.KeyPair{PublicKey: pub(make([]byte, 32))}, via)
		return func(i int) func() []byte {
			sig := &crypto.Signature{R: s.in(i, 2)[:32], S: s.scalar(i, 1, 32)}
			v := d.IsCanonicalSignature(sig)
			c, err := d.MakeSignatureCanonical(sig)
			must(err)
			return res(bit(v), c.S)
		}
	case "field":
		o := getStr(ev, "o")
		if pr("f"+o) == nil {
			return nil
		}
		wide := o == "multiply" || o == "square" || o == "squareAndDouble" || o == "invert"
		return func(i int) func() []byte {
			a, b := s.limbs(i, 1, wide), s.limbs(i, 2, wide)
			r, _ := bin(M{}, o, *crypto.NewEd25519FieldElement(a), *crypto.NewEd25519FieldElement(b))
			return res(&r)
		}
	case "fbytes":
		return func(i int) func() []byte {
			e := efOf(s.val(i, 1)[:32])
			neg, nz := e.IsNegative(), e.IsNonZero()
			return res(e.Decode().Encode().Raw, bit(neg), bit(nz))
		}
	case "gdec":
		return func(i int) func() []byte {
			e, err := crypto.NewEd25519EncodedGroupElement(s.val(i, 1)[:32])
			must(err)
			g, err := e.Decode()
			if err != nil {
				return res([]byte{0})
			}
			x, err := e.GetAffineX()
			must(err)
			y, err := e.GetAffineY()
			must(err)
			return res([]byte{1}, x, y, g)
		}
	case "gsmul":
		f := pr("gscalarMultiply")
		if f == nil {
			return nil
		}
		p := point(getBytes(ev, "q"))
		if getBool(ev, "base") {
			p = crypto.Ed25519Group.BASE_POINT()
		} else {
			p.PrecomputeForScalarMultiplication()
		}
		return func(i int) func() []byte {
			a := s.scalar(i, 1, 32)
			a[31] &= 127
			r, err := f.(func(p ge, a ef) (ge, error))(p, efOf(a))
			must(err)
			return res(r)
		}
	case "gdsm":
		f := pr("gdsm")
		if f == nil {
			return nil
		}
		p, q := crypto.Ed25519Group.BASE_POINT(), point(getBytes(ev, "q"))
		q.PrecomputeForDoubleScalarMultiplication()
		return func(i int) func() []byte {
			a, b := s.scalar(i, 1, 32), s.scalar(i, 2, 32)
			a[31] &= 127
			b[31] &= 127
			r, err := f.(func(p, q ge, a, b ef) (ge, error))(p, q, efOf(a), efOf(b))
			must(err)
			return res(r)
		}
	case "walk":
		for _, n := range []string{"gdbl", "gadd", "gsubtract", "gnegate", "gtoP3", "gtoCached"} {
			if pr(n) == nil {
				return nil
			}
		}
		un := func(n string, a ge) ge { return crypto.VPProbes[n].(func(a ge) ge)(a) }
		two := func(n string, a, b ge) ge { return crypto.VPProbes[n].(func(a, b ge) ge)(a, b) }
		p := point(getBytes(ev, "q"))
		q := un("gtoCached", point(getBytes(ev, "q2")))
		return func(i int) func() []byte {
			switch x := s.in(i, 1)[0] % 8; {
			case x < 3:
				p = un("gtoP3", un("gdbl", p))
			case x < 5:
				p = un("gtoP3", two("gadd", p, q))
			case x < 7:
				p = un("gtoP3", two("gsubtract", p, q))
			default:
				n, err := crypto.VPProbes["gnegate"].(func(a ge) (ge, error))(p)
				must(err)
				p = n
			}
			return res(p)
		}
	case "derive":
		return func(i int) func() []byte {
			k := crypto.NewPrivateKey(s.val(i, 1)[:32])
			var A *crypto.PublicKey
			if via == "pair" {
				A = priv(k.Raw).PublicKey
			} else {
				A = crypto.NewEd25519KeyGenerator(nil).DerivePublicKey(k)
			}
			return res(A.Raw, crypto.PrepareForScalarMultiply(k).Raw)
		}
	case "sign":
		return func(i int) func() []byte {
			sig, err := mkSigner(priv(s.val(i, 3)[:32]), via).Sign(s.message(i, 1))
			must(err)
			return res(sig.R, sig.S)
		}
	case "signkey":
		d := mkSigner(priv(getBytes(ev, "k")), via)
		return func(i int) func() []byte {
			sig, err := d.Sign(s.message(i, 1))
			must(err)
			return res(sig.R, sig.S)
		}
	case "signverify":
		return func(i int) func() []byte {
			kp := priv(s.val(i, 3)[:32])
			m := s.message(i, 1)
			sig, err := mkSigner(kp, via).Sign(m)
			must(err)
			return res(bit(mkSigner(&crypto.KeyPair{PublicKey: pub(kp.PublicKey.Raw)}, via).Verify(m, sig)))
		}
	case "verify":
		k := getBytes(ev, "k")
		sec, _ := refSecret(k)
		A := refMul(&refTable, sec)
		d := mkSigner(&crypto.KeyPair{PublicKey: pub(A)}, via)
		return func(i int) func() []byte {
			m := s.message(i, 1)
			r, t := refSign(k, A, m)
			x := s.in(i, 9)
			n := int(x[1]) + 256*int(x[2])
			to := d
			switch x[0] % 10 {
			case 3:
				r = flip(r, n)
			case 4:
				t = flip(t, n)
			case 5:
				m = flip(m, n)
			case 6:
				t = leBytes(new(big.Int).Add(leInt(t), refL), 32)
			case 7:
				to = mkSigner(&crypto.KeyPair{PublicKey: pub(flip(A, n))}, via)
			case 8:
				m = append(m, x[3])
			case 9:
				r, t = flip(r, 255), leBytes(new(big.Int).Sub(refL, leInt(t)), 32)
			}
			return res(bit(to.Verify(m, &crypto.Signature{R: r, S: t})))
		}
	case "shared":
		kp := &crypto.KeyPair{PublicKey: pub(make([]byte, 32))}
		bc := crypto.NewEd25519BlockCipher(kp, kp, nil)
		A := pub(getBytes(ev, "A"))
		return func(i int) func() []byte {
			x := s.val(i, 1)
			key, err := bc.GetSharedKey(crypto.NewPrivateKey(x[:32]), A, x[32:])
			if err != nil {
				return res([]byte{0})
			}
			return res([]byte{1}, key)
		}
	case "gen": // one generator, a source that delivers in small portions
		rd := new(portions)
		g := crypto.NewEd25519KeyGenerator(rd)
		return func(i int) func() []byte {
			b := s.val(i, 1)
			rd.buf = append(rd.buf, b[:32]...)
			rd.max = 1 + int(s.in(i, 1)[40])%40
			kp, err := g.GenerateKeyPair()
			must(err)
			return res(kp.PrivateKey.Raw, kp.PublicKey.Raw, bit(len(rd.buf) == 0))
		}
	case "fresh": // one cipher, the head of each ciphertext
		rd := new(portions)
		bc := crypto.NewEd25519BlockCipher(priv(getBytes(ev, "k")), &crypto.KeyPair{PublicKey: pub(getBytes(ev, "A"))}, rd)
		return func(i int) func() []byte {
			b := s.val(i, 3)
			rd.buf = append(rd.buf, b[:48]...)
			rd.max = 1 + int(s.in(i, 3)[50])%40
			c, err := bc.Encrypt(s.message(i, 1))
			must(err)
			return res(c[:48], bit(len(rd.buf) == 0), []byte{byte(len(c) - 48)})
		}
	case "enc":
		rd := new(bytes.Buffer)
		snd := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(getBytes(ev, "k")), PublicKey: pub(getBytes(ev, "kA"))}
		rcp := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(getBytes(ev, "rk")), PublicKey: pub(getBytes(ev, "A"))}
		to := crypto.NewEd25519BlockCipher(snd, &crypto.KeyPair{PublicKey: rcp.PublicKey}, rd)
		from := crypto.NewEd25519BlockCipher(&crypto.KeyPair{PublicKey: snd.PublicKey}, rcp, nil)
		if bytes.Equal(snd.PrivateKey.Raw, rcp.PrivateKey.Raw) { // to oneself
			to = crypto.NewEd25519BlockCipher(snd, snd, rd)
			from = to
		}
		return func(i int) func() []byte {
			rd.Write(s.val(i, 3)[:48])
			m := s.message(i, 1)
			c, err := to.Encrypt(m)
			must(err)
			d, err := from.Decrypt(append([]byte{}, c...))
			return res(c, bit(err == nil && bytes.Equal(d, m)))
		}
	case "dec":
		k, A := getBytes(ev, "k"), getBytes(ev, "A")
		sec, _ := refSecret(k)
		t := tableOf(refDecode(A))
		secret := refMul(&t, sec)
		own := &crypto.KeyPair{PrivateKey: crypto.NewPrivateKey(k), PublicKey: pub(getBytes(ev, "kA"))}
		from := crypto.NewEd25519BlockCipher(&crypto.KeyPair{PublicKey: pub(A)}, own, nil)
		if bytes.Equal(A, own.PublicKey.Raw) {
			from = crypto.NewEd25519BlockCipher(own, own, nil)
		}
		return func(i int) func() []byte {
			y := s.in(i, 2)
			x, b := s.in(i, 9), s.in(i, 1)
			n, p := 16*(1+int(x[0])%3), int(x[1])%20
			b = b[:n]
			for j := n - p; j < n; j++ {
				if j >= 0 {
					b[j] = byte(p)
				}
			}
			switch x[2] % 4 {
			case 0:
				if q := int(x[3]) % 17; q == 0 {
					b[n-1] = x[4]
				} else {
					b[n-q] = x[4]
				}
			case 1:
				b[n-1] = byte(p + int(x[4])%3)
				if x[4]%2 == 0 {
					b[n-1] = x[5]
				}
			}
			mix := append([]byte{}, secret...)
			for j := range mix {
				mix[j] ^= y[j]
			}
			key := sha3.Sum256(mix)
			blk, err := aes.NewCipher(key[:])
			must(err)
			c := make([]byte, n)
			stdcipher.NewCBCEncrypter(blk, y[32:48]).CryptBlocks(c, b)
			m, err := from.Decrypt(cat(y[:48], c))
			if err != nil {
				return res([]byte{0})
			}
			return res([]byte{1}, m)
		}
	case "mathutils":
		mu := &crypto.MathUtils
		p := point(getBytes(ev, "q"))
		return func(i int) func() []byte {
			b := s.val(i, 1)
			h := b[:32]
			x := s.in(i, 9)
			switch x[0] % 8 {
			case 0:
				return res(mu.ToByteArray(mu.BytesToBigInteger(h)))
			case 1:
				r, err := mu.GetAffineXFromAffineY(leInt(h), x[1]%2 == 1)
				if err != nil {
					return res([]byte{0})
				}
				return res([]byte{1}, leBytes(r, 32))
			case 2:
				return res(mu.ReduceModGroupOrder(efOf(s.scalar(i, 1, 64))).Raw)
			case 3:
				return res(mu.ToFieldElement(leInt(h)))
			case 4:
				r := mu.FieldToBigInteger(crypto.NewEd25519FieldElement(s.limbs(i, 1, false)))
				return res(leBytes(r, 32))
			case 5:
				g, err := mu.ToGroupElement(append([]byte{}, h...))
				if err != nil {
					return res([]byte{0})
				}
				return res(g)
			case 6:
				return res(mu.ToEncodedFieldElement(leInt(h)).Raw, leBytes(mu.EncodedFieldToBigInteger(efOf(b)), 64))
			default:
				h[31] &= 15
				f := efOf(h).Decode()
				r := mu.ScalarMultiplyGroupElement(p, *f)
				e, err := r.Encode()
				must(err)
				return res(r, mu.AddGroupElements(p, point(e.Raw)))
			}
		}
	case "hash":
		alg := getStr(ev, "alg")
		max := getInt(ev, "max")
		return func(i int) func() []byte {
			x, p := s.in(i, 9), s.in(i, 1)
			n := (int(x[0]) + 256*int(x[1])) % max
			m := bytes.Repeat(p, n/64+1)[:n]
			var d []byte
			var err error
			switch alg {
			case "sha256":
				d, err = crypto.HashesSha_256(m)
			case "sha3_256":
				d, err = crypto.HashesSha3_256(m)
			case "sha3_512":
				at := int(x[2]) % (n + 1)
				d, err = crypto.HashesSha3_512(m[:at], m[at:])
			case "keccak_256":
				d, err = crypto.HashesKeccak_256(m)
			case "ripemd160":
				d, err = crypto.HashesRipemd160(m)
			}
			must(err)
			return res(d)
		}
	case "keytext":
		return func(i int) func() []byte {
			x, b := s.in(i, 9), cat(s.in(i, 1), s.in(i, 2))
			n := 64
			if x[0]%8 == 0 {
				n = 60 + int(x[1])%9
			}
			t := make([]byte, n)
			for j := range t {
				dig := "0123456789abcdef"
				if b[j] >= 120 && b[j] < 240 {
					dig = "0123456789ABCDEF"
				}
				t[j] = dig[b[j]%16]
			}
			if x[2]%4 == 0 {
				t[int(x[3])%n] = x[4]
			}
			k, err := crypto.NewPrivateKeyfromHexString(string(t))
			a, err2 := crypto.NewPublicKeyfromHex(string(t))
			if err != nil && err2 != nil {
				return res([]byte{0})
			}
			if err != nil || err2 != nil || !bytes.Equal(k.Raw, a.Raw) {
				return res([]byte{2})
			}
			return res([]byte{1}, k.Raw, []byte(k.String()), []byte(a.String()))
		}
	case "keyint":
		return func(i int) func() []byte {
			b := s.val(i, 1)[:s.in(i, 9)[0]%33]
			k := crypto.NewPrivateKeyFromBigInt(leInt(b))
			return res(k.Raw, []byte(k.String()))
		}
	case "sigint":
		return func(i int) func() []byte {
			x, v := s.in(i, 9), cat(s.val(i, 1), s.val(i, 2))
			nr, ns := 32, 32
			if x[0]%4 == 0 {
				nr = int(x[1]) % 35
			}
			if x[2]%4 == 0 {
				ns = int(x[3]) % 35
			}
			r, t := leInt(v[:nr]), leInt(cat(v[32:64], v[:32])[:ns])
			if x[4]%16 == 0 {
				r.Neg(r)
			}
			if x[5]%16 == 0 {
				t.Neg(t)
			}
			g, err := crypto.NewSignatureFromBigInt(r, t)
			if err != nil {
				return res([]byte{0})
			}
			return res([]byte{1}, g.R, g.S, []byte(g.String()))
		}
	}
	bad("mass %q", getStr(ev, "f"))
	return nil
}

func init() {
	ops["mass"] = func(env *Env, ev M) {
		s := stream{seed: getBytes(ev, "seed"), edge: getBool(ev, "edge")}
		item := s.setup(ev)
		if item == nil {
			return
		}
		from, n := getInt(ev, "from"), getInt(ev, "n")
		var all []func() []byte
		for i := from; i < from+n; i++ {
			all = append(all, item(i))
		}
		if n == 1 {
			ev["result"] = B(all[0]()) // for the reader of a replay
		}
		var h []byte
		for _, out := range all { // after the last call
			d := sha256.Sum256(append(h, out()...))
			h = d[:]
		}
		ev["d"] = B(h)
		ev["st"] = "ok"
	}
}
