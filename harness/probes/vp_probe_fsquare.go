package crypto

func init() {
	VPProbes["fsquare"] = func(a Ed25519FieldElement) Ed25519FieldElement { r := a.square(); return r }
}
