package crypto

func init() {
	VPProbes["gprecomputedAdd"] = func(a, b *Ed25519GroupElement) (*Ed25519GroupElement, error) { return a.precomputedAdd(b) }
}
