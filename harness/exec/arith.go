package main

import (
	"math/big"

	crypto "github.com/proximax-storage/go-xpx-crypto"
)

type fe = crypto.Ed25519FieldElement
type ge = *crypto.Ed25519GroupElement
type ef = *crypto.Ed25519EncodedFieldElement

func probes() map[string]interface{} { return crypto.VPProbes }

func feOf(v interface{}) *fe { return crypto.NewEd25519FieldElement(getLimbs(v)) }

func feEnc(f *fe) B {
	if f == nil {
		return B{}
	}
	return B(f.Encode().Raw)
}

func efOf(b []byte) ef {
	e, err := crypto.NewEd25519EncodedFieldElement(b)
	if err != nil {
		bad("%v", err)
	}
	return e
}

var csName = map[crypto.CoordinateSystem]string{
	crypto.AFFINE: "AFFINE", crypto.P2: "P2", crypto.P3: "P3",
	crypto.P1xP1: "P1xP1", crypto.PRECOMPUTED: "PRECOMPUTED", crypto.CACHED: "CACHED",
}

func csOf(s string) crypto.CoordinateSystem {
	for k, v := range csName {
		if v == s {
			return k
		}
	}
	bad("cs %q", s)
	return 0
}

// geOf: {"cs":..., "X":limbs, ...} or {"cs":"BASE"} or {"cs":"ENC","b":bytes}
func geOf(v interface{}) ge {
	m := v.(M)
	cs := getStr(m, "cs")
	switch cs {
	case "BASE":
		return crypto.Ed25519Group.BASE_POINT()
	case "ZERO_P2":
		return crypto.Ed25519Group.ZERO_P2()
	case "ZERO_P3":
		return crypto.Ed25519Group.ZERO_P3()
	case "ZERO_PRECOMPUTED":
		return crypto.Ed25519Group.ZERO_PRECOMPUTED()
	case "ENC":
		e, err := crypto.NewEd25519EncodedGroupElement(getBytes(m, "b"))
		if err != nil {
			panic(err)
		}
		g, err := e.Decode()
		if err != nil {
			panic(err)
		}
		return g
	}
	c := func(n string) *fe {
		if !has(m, n) {
			return nil
		}
		return feOf(m[n])
	}
	x, y, z, t := c("X"), c("Y"), c("Z"), c("T")
	if getBool(m, "generic") {
		return crypto.NewEd25519GroupElement(csOf(cs), x, y, z, t)
	}
	switch csOf(cs) {
	case crypto.AFFINE:
		return crypto.NewEd25519GroupElementAffine(x, y, z)
	case crypto.P2:
		return crypto.NewEd25519GroupElementP2(x, y, z)
	case crypto.P3:
		return crypto.NewEd25519GroupElementP3(x, y, z, t)
	case crypto.P1xP1:
		return crypto.NewEd25519GroupElementP1XP1(x, y, z, t)
	case crypto.PRECOMPUTED:
		return crypto.NewEd25519GroupElementPrecomputed(x, y, z)
	}
	return crypto.NewEd25519GroupElementCached(x, y, z, t)
}

func geOut(g ge) M {
	if g == nil {
		return M{"cs": "nil", "X": B{}, "Y": B{}, "Z": B{}, "T": B{}}
	}
	return M{"cs": csName[g.GetCoordinateSystem()],
		"X": feEnc(g.GetX()), "Y": feEnc(g.GetY()), "Z": feEnc(g.GetZ()), "T": feEnc(g.GetT())}
}

// probe returns the probe of that name, or records that the build has none.
func probe(ev M, name string) interface{} {
	f, ok := crypto.VPProbes[name]
	if !ok {
		ev["st"] = "noprobe"
		return nil
	}
	return f
}

func bin(ev M, name string, a, b fe) (fe, bool) {
	p := probe(ev, "f"+name)
	if p == nil {
		return fe{}, false
	}
	switch f := p.(type) {
	case func(a, b fe) fe:
		return f(a, b), true
	case func(a fe) fe:
		return f(a), true
	}
	bad("probe %s", name)
	return fe{}, false
}

func init() {
	// A straight-line program over field elements: regs starts with the
	// inputs, each instruction [op, i, j] appends a register.
	ops["fprog"] = func(env *Env, ev M) {
		var regs []fe
		for _, v := range ev["in"].([]interface{}) {
			regs = append(regs, *feOf(v))
		}
		ev["st"] = "ok"
		var outs []B
		for _, v := range ev["code"].([]interface{}) {
			c := v.([]interface{})
			i, j := int(c[1].(float64))-1, int(c[2].(float64))-1
			var r fe
			ok := true
			switch op := c[0].(string); op {
			case "sqrt":
				r = crypto.Ed25519FieldElementSqrt(regs[i], regs[j])
			case "encdec":
				r = *regs[i].Encode().Decode()
			default:
				r, ok = bin(ev, op, regs[i], regs[j])
			}
			if !ok {
				return
			}
			regs = append(regs, r)
			if len(c) == 4 {
				outs = append(outs, B{}) // beyond the bounds of Encode
				continue
			}
			outs = append(outs, feEnc(&r))
		}
		ev["out"] = outs
	}
	ops["fenc"] = func(env *Env, ev M) {
		f := feOf(ev["f"])
		ev["b"] = feEnc(f)
		ev["nz"] = f.IsNonZero()
		ev["neg"] = f.IsNegative()
		ev["str"] = B(f.String())
		ev["st"] = "ok"
	}
	ops["fdec"] = func(env *Env, ev M) {
		ev["st"] = "ok"
		e := efOf(getBytes(ev, "b"))
		ev["f"] = feEnc(e.Decode())
		ev["neg"] = e.IsNegative()
		ev["nz"] = e.IsNonZero()
	}
	ops["feq"] = func(env *Env, ev M) {
		f, g := feOf(ev["f"]), feOf(ev["g"])
		if alias(ev, "f", "g") {
			g = f
		}
		ev["v"] = f.Equals(g)
		ev["w"] = g.Equals(f)
		ev["st"] = "ok"
	}
	ops["enclen"] = func(env *Env, ev M) {
		_, err := crypto.NewEd25519EncodedFieldElement(make([]byte, getInt(ev, "n")))
		_, err2 := crypto.NewEd25519EncodedGroupElement(make([]byte, getInt(ev, "n")))
		ev["f"], ev["g"] = err == nil, err2 == nil
		ev["st"] = "ok"
	}

	// ---- scalars ----
	ops["modq"] = func(env *Env, ev M) {
		if p := probe(ev, "modQ"); p != nil {
			ev["b"] = B(p.(func(a ef) ef)(efOf(getBytes(ev, "a"))).Raw)
			ev["st"] = "ok"
		}
	}
	ops["muladd"] = func(env *Env, ev M) {
		if p := probe(ev, "mulAddQ"); p != nil {
			ev["d"] = B(p.(func(a, b, c ef) ef)(efThree(ev)).Raw)
			ev["st"] = "ok"
		}
	}

	// ---- points ----
	ops["genc"] = func(env *Env, ev M) {
		e, err := geOf(ev["p"]).Encode()
		if setErr(ev, err) {
			return
		}
		ev["b"] = B(e.Raw)
	}
	ops["gdec"] = func(env *Env, ev M) {
		b := getBytes(ev, "b")
		e := &crypto.Ed25519EncodedGroupElement{Raw: b}
		g, err := e.Decode()
		x, errx := e.GetAffineX()
		ev["xst"] = "ok"
		if errx != nil {
			ev["xst"] = "err"
		} else {
			ev["ax"] = feEnc(x)
		}
		y, erry := e.GetAffineY()
		ev["yst"] = "ok"
		if erry != nil {
			ev["yst"] = "err"
		} else {
			ev["ay"] = feEnc(y)
		}
		if setErr(ev, err) {
			ev["nil"] = g == nil
			return
		}
		ev["p"] = geOut(g)
	}
	ops["ground"] = func(env *Env, ev M) { // encode, decode, encode
		e, err := geOf(ev["p"]).Encode()
		if setErr(ev, err) {
			return
		}
		ev["b"] = B(append([]byte{}, e.Raw...))
		g, err := e.Decode()
		if setErr(ev, err) {
			return
		}
		ev["q"] = geOut(g)
		e2, err := g.Encode()
		if setErr(ev, err) {
			return
		}
		ev["b2"] = B(e2.Raw)
	}
	ops["gcurve"] = func(env *Env, ev M) {
		ev["v"] = geOf(ev["p"]).SatisfiesCurveEquation()
		ev["st"] = "ok"
	}
	ops["geq"] = func(env *Env, ev M) {
		p, q := geTwo(ev)
		ev["v"] = p.Equals(q)
		ev["st"] = "ok"
	}
	ops["gconst"] = func(env *Env, ev M) {
		ev["r"] = geOut(geOf(ev["p"]))
		ev["st"] = "ok"
	}
	ops["gop"] = func(env *Env, ev M) {
		p := geOf(ev["p"])
		f := probe(ev, "g"+getStr(ev, "f"))
		if f == nil {
			return
		}
		var r ge
		var err error
		switch g := f.(type) {
		case func(a ge) ge:
			r = g(p)
		case func(a, b ge) ge:
			r = g(p, geOf(ev["q"]))
		case func(a, b ge) (ge, error):
			r, err = g(p, geOf(ev["q"]))
		case func(a ge) (ge, error):
			r, err = g(p)
		case func(a ge, to crypto.CoordinateSystem) ge:
			r = g(p, csOf(getStr(ev, "to")))
		default:
			bad("probe type %T", f)
		}
		if setErr(ev, err) {
			return
		}
		ev["r"] = geOut(r)
	}
	// A chain of operations on one point, kept in the representation the
	// library returns: dbl, add q, sub q, each through toP3/toP2.
	ops["gchain"] = func(env *Env, ev M) {
		p := geOf(ev["p"])
		for _, n := range []string{"gdbl", "gadd", "gsubtract", "gtoP3", "gtoCached"} {
			if probe(ev, n) == nil {
				return
			}
		}
		un := func(n string, a ge) ge { return crypto.VPProbes[n].(func(a ge) ge)(a) }
		q := un("gtoCached", geOf(ev["q"]))
		var outs []M
		for _, c := range ev["code"].([]interface{}) {
			switch c.(string) {
			case "dbl":
				p = un("gdbl", p)
			case "add":
				p = crypto.VPProbes["gadd"].(func(a, b ge) ge)(p, q)
			case "sub":
				p = crypto.VPProbes["gsubtract"].(func(a, b ge) ge)(p, q)
			}
			p = un("gtoP3", p)
			outs = append(outs, geOut(p))
		}
		ev["out"] = outs
		ev["st"] = "ok"
	}
	ops["gselect"] = func(env *Env, ev M) {
		p := geOf(ev["p"])
		if getStr(ev["p"].(M), "cs") != "BASE" || getBool(ev, "pre") {
			p.PrecomputeForScalarMultiplication()
		}
		var outs []M
		for _, v := range ev["sel"].([]interface{}) {
			a := v.([]interface{})
			r, err := p.Select(int(a[0].(float64)), int(a[1].(float64)))
			if setErr(ev, err) {
				return
			}
			outs = append(outs, geOut(r))
		}
		ev["out"] = outs
		ev["st"] = "ok"
	}
	ops["gsmul"] = func(env *Env, ev M) {
		f := probe(ev, "gscalarMultiply")
		if f == nil {
			return
		}
		p := geOf(ev["p"])
		p.PrecomputeForScalarMultiplication()
		r, err := f.(func(p ge, a ef) (ge, error))(p, efOf(getBytes(ev, "a")))
		if setErr(ev, err) {
			return
		}
		ev["r"] = geOut(r)
	}
	ops["gdsm"] = func(env *Env, ev M) { // b*P - a*Q
		f := probe(ev, "gdsm")
		if f == nil {
			return
		}
		p, q := geTwo(ev)
		p.PrecomputeForDoubleScalarMultiplication()
		q.PrecomputeForDoubleScalarMultiplication()
		r, err := f.(func(p, q ge, a, b ef) (ge, error))(p, q, efOf(getBytes(ev, "a")), efOf(getBytes(ev, "b")))
		if setErr(ev, err) {
			return
		}
		ev["r"] = geOut(r)
	}

	// ---- MathUtils ----
	mu := &crypto.MathUtils
	ops["madd"] = func(env *Env, ev M) {
		ev["r"] = geOut(mu.AddGroupElements(geTwo(ev)))
		ev["st"] = "ok"
	}
	ops["mdbl"] = func(env *Env, ev M) {
		ev["r"] = geOut(mu.DoubleGroupElement(geOf(ev["p"])))
		ev["st"] = "ok"
	}
	ops["mneg"] = func(env *Env, ev M) {
		ev["r"] = geOut(mu.NegateGroupElement(geOf(ev["p"])))
		ev["st"] = "ok"
	}
	ops["msmul"] = func(env *Env, ev M) {
		ev["r"] = geOut(mu.ScalarMultiplyGroupElement(geOf(ev["p"]), *feOf(ev["f"])))
		ev["st"] = "ok"
	}
	ops["mtorep"] = func(env *Env, ev M) {
		r, err := mu.ToRepresentation(geOf(ev["p"]), csOf(getStr(ev, "to")))
		if setErr(ev, err) {
			return
		}
		ev["r"] = geOut(r)
	}
	ops["mtogroup"] = func(env *Env, ev M) {
		b := getBytes(ev, "b")
		c := append([]byte{}, b...)
		r, err := mu.ToGroupElement(c)
		ev["kept"] = string(b) == string(c)
		if setErr(ev, err) {
			ev["nil"] = r == nil
			return
		}
		ev["r"] = geOut(r)
	}
	ops["maffx"] = func(env *Env, ev M) {
		y := leInt(getBytes(ev, "y"))
		x, err := mu.GetAffineXFromAffineY(y, getBool(ev, "neg"))
		ev["kept"] = y.Cmp(leInt(getBytes(ev, "y"))) == 0
		if setErr(ev, err) {
			return
		}
		ev["x"] = intLE(x)
	}
	ops["mredq"] = func(env *Env, ev M) {
		ev["b"] = B(mu.ReduceModGroupOrder(efOf(getBytes(ev, "a"))).Raw)
		ev["st"] = "ok"
	}
	ops["mtofe"] = func(env *Env, ev M) {
		n := leInt(getBytes(ev, "n"))
		ev["f"] = feEnc(mu.ToFieldElement(n))
		ev["kept"] = n.Cmp(leInt(getBytes(ev, "n"))) == 0
		ev["st"] = "ok"
	}
	ops["mbytes"] = func(env *Env, ev M) { // bytes -> int -> bytes
		b := getBytes(ev, "b")
		n := mu.BytesToBigInteger(b)
		ev["n"] = intLE(n)
		ev["st"] = "ok"
		if n.BitLen() <= 256 {
			ev["b32"] = B(mu.ToByteArray(n))
			ev["e32"] = B(mu.ToEncodedFieldElement(n).Raw)
			ev["kept"] = intEq(n, leInt(b))
		}
		if len(b) == 32 || len(b) == 64 {
			ev["en"] = intLE(mu.EncodedFieldToBigInteger(efOf(b)))
		}
	}
	ops["mlimbs"] = func(env *Env, ev M) {
		f := getLimbs(ev["f"])
		ev["n"] = intLE(mu.FieldToBigInteger(crypto.NewEd25519FieldElement(f)))
		v := mu.IntsToBigInteger(f)
		ev["vneg"] = v.Sign() < 0
		ev["v"] = intLE(new(big.Int).Abs(v))
		ev["st"] = "ok"
	}
	ops["mconst"] = func(env *Env, ev M) {
		ev["D"] = intLE(new(big.Int).Mod(mu.D, crypto.Ed25519Field.P))
		ev["P"] = intLE(crypto.Ed25519Field.P)
		ev["L"] = intLE(crypto.Ed25519Group.GROUP_ORDER)
		f := crypto.Ed25519Field
		ev["fz"], ev["f1"], ev["f2"] = feEnc(&f.ZERO), feEnc(&f.ONE), feEnc(&f.TWO)
		ev["fd"], ev["fdd"], ev["fi"] = feEnc(&f.D), feEnc(&f.DTimesTWO), feEnc(&f.I)
		s := fe{Raw: crypto.SqrtM1}
		ev["sq"] = feEnc(&s)
		ev["fns"] = []B{feEnc(crypto.Ed25519FieldZero()), feEnc(crypto.Ed25519FieldOne()), feEnc(crypto.Ed25519FieldTWO()),
			feEnc(crypto.Ed25519FieldD()), feEnc(crypto.Ed25519FieldDTimesTwo())}
		ev["fP"] = intLE(crypto.Ed25519FieldP())
		ev["zs"], ev["zl"] = B(crypto.Ed25519FieldZeroShort()), B(crypto.Ed25519FieldZeroLong())
		ev["st"] = "ok"
	}
	ops["mdsmul"] = func(env *Env, ev M) { // f1*g1 - f2*g2
		p := probe(ev, "mdsm")
		if p == nil {
			return
		}
		a, b := geTwo(ev)
		ev["r"] = geOut(p.(func(a ge, f fe, b ge, g fe) ge)(a, *feOf(ev["f"]), b, *feOf(ev["g"])))
		ev["st"] = "ok"
	}
	ops["mmuladd"] = func(env *Env, ev M) {
		p := probe(ev, "mmulAdd")
		if p == nil {
			return
		}
		ev["d"] = B(p.(func(a, b, c ef) ef)(efThree(ev)).Raw)
		ev["st"] = "ok"
	}
	ops["mrand"] = func(env *Env, ev M) {
		var vals []B
		for i := 0; i < getInt(ev, "n"); i++ {
			var b B
			switch getStr(ev, "kind") {
			case "fe":
				f := mu.GetRandomFieldElement()
				b = feEnc(&f)
			case "ef32":
				b = B(mu.GetRandomEncodedFieldElement(32).Raw)
			case "ef64":
				b = B(mu.GetRandomEncodedFieldElement(64).Raw)
			case "ge":
				g := mu.GetRandomGroupElement()
				ev["last"] = geOut(g)
				e, _ := g.Encode()
				b = B(e.Raw)
			case "ege":
				b = B(mu.GetRandomEncodedGroupElement().Raw)
			case "bytes":
				b = B(mu.GetRandomByteArray(getInt(ev, "len")))
			case "int64":
				x := uint64(mu.GetRandomInt64())
				for k := 0; k < 8; k++ {
					b = append(b, byte(x>>uint(8*k)))
				}
			}
			vals = append(vals, b)
		}
		ev["vals"] = vals
		ev["st"] = "ok"
	}
}

func intEq(a, b *big.Int) bool { return a.Cmp(b) == 0 }
