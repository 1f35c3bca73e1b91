package crypto

func init() {
	VPProbes["gsubtract"] = func(a, b *Ed25519GroupElement) *Ed25519GroupElement { return a.subtract(b) }
}
