package crypto

func init() {
	VPProbes["mdsm"] = func(g1 *Ed25519GroupElement, f1 Ed25519FieldElement, g2 *Ed25519GroupElement, f2 Ed25519FieldElement) *Ed25519GroupElement {
		return MathUtils.doubleScalarMultiplyGroupElements(g1, f1, g2, f2)
	}
}
