package crypto

func init() {
	VPProbes["fsubtract"] = func(a, b Ed25519FieldElement) Ed25519FieldElement { r := a.subtract(b); return r }
}
