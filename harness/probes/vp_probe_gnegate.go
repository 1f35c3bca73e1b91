package crypto

func init() {
	VPProbes["gnegate"] = func(a *Ed25519GroupElement) (*Ed25519GroupElement, error) { return a.negate() }
}
