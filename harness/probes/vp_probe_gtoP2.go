package crypto

func init() {
	VPProbes["gtoP2"] = func(a *Ed25519GroupElement) *Ed25519GroupElement { return a.toP2() }
}
