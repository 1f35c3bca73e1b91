package crypto

func init() {
	VPProbes["gadd"] = func(a, b *Ed25519GroupElement) *Ed25519GroupElement { return a.add(b) }
}
