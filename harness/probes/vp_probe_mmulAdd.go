package crypto

func init() {
	VPProbes["mmulAdd"] = func(a, b, c *Ed25519EncodedFieldElement) *Ed25519EncodedFieldElement {
		return MathUtils.multiplyAndAddModGroupOrder(a, b, c)
	}
}
