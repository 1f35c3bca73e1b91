package crypto

func init() {
	VPProbes["mulAddQ"] = func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return a.multiplyAndAddModQ(b, c)
	}
}
