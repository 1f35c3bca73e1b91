package crypto

func init() {
	VPProbes["fadd"] = func(a, b Ed25519FieldElement) Ed25519FieldElement { r := a.add(b); return r }
}
