package crypto

func init() {
	VPProbes["finvert"] = func(a Ed25519FieldElement) Ed25519FieldElement { r := a.invert(); return r }
}
