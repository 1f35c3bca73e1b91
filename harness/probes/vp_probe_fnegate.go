package crypto

func init() {
	VPProbes["fnegate"] = func(a Ed25519FieldElement) Ed25519FieldElement { r := a.negate(); return r }
}
