package crypto

func init() {
	VPProbes["gdbl"] = func(a *Ed25519GroupElement) *Ed25519GroupElement { return a.dbl() }
}
