package crypto

func init() {
	VPProbes["gprecomputedSubtract"] = func(a, b *Ed25519GroupElement) *Ed25519GroupElement { return a.precomputedSubtract(b) }
}
