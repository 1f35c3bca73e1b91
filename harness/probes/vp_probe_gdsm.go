package crypto

func init() {
	VPProbes["gdsm"] = func(p, q *Ed25519GroupElement, a, b *Ed25519EncodedFieldElement) (*Ed25519GroupElement, error) {
		return p.doubleScalarMultiplyVariableTime(q, a, b)
	}
}
