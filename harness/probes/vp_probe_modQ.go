package crypto

func init() {
	VPProbes["modQ"] = func(a *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement { return a.modQ() }
}
