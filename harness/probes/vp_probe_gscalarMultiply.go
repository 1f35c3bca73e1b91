package crypto

func init() {
	VPProbes["gscalarMultiply"] = func(p *Ed25519GroupElement, a *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error) {
		return p.scalarMultiply(a)
	}
}
