package crypto

func init() {
	VPProbes["gconv"] = func(a *Ed25519GroupElement, to CoordinateSystem) *Ed25519GroupElement {
		return a.toCoordinateSystem(to)
	}
}
