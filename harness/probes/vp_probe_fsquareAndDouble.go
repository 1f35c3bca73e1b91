package crypto

func init() {
	VPProbes["fsquareAndDouble"] = func(a Ed25519FieldElement) Ed25519FieldElement { r := a.squareAndDouble(); return r }
}
