package crypto

func init() {
	VPProbes["gtoP3"] = func(a *Ed25519GroupElement) *Ed25519GroupElement { return a.toP3() }
}
