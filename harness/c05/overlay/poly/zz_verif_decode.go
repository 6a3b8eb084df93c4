package poly

// VerifDecode gives the harness the decoder of commitments
func VerifDecode(b []byte) (PolynomialCommitment, error) { return polynomialCommitment{}.Deserialize(b) }
