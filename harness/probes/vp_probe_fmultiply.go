package crypto

func init() {
	VPProbes["fmultiply"] = func(a, b Ed25519FieldElement) Ed25519FieldElement { r := a.multiply(b); return r }
}
