package zzverifspec

// Gens is the chain of generators from a seed.
func Gens(seed []byte, n int) []pt { return gens(seed, n) }

// PedScalar is the commitment to v with the given blinding factor.
func PedScalar(v, blind sc) pt { return addP(mulP(ValueBase(), v), mulP(BlindBase(), blind)) }

// PedVectors is the commitment to vectors.
func PedVectors(seed []byte, blind sc, vecs [][]sc) pt {
	r := mulP(BlindBase(), blind)
	for i, v := range vecs {
		s := append([]byte{}, seed...)
		if i > 0 {
			s = append(s, byte(i))
		}
		g := gens(s, len(v))
		for j := range v {
			r = addP(r, mulP(g[j], v[j]))
		}
	}
	return r
}
