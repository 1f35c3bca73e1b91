package crypto

func init() {
	VPProbes["gtoCached"] = func(a *Ed25519GroupElement) *Ed25519GroupElement { return a.toCached() }
}
