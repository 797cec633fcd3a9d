package zzverifdrv

import (
	ristretto "github.com/bwesterb/go-ristretto"
	generator "github.com/dusk-network/dusk-crypto/rangeproof/generators"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

type sc = ristretto.Scalar
type pt = ristretto.Point

// PedScalar commits to a value.
func PedScalar(seed []byte, v sc) (pt, sc) {
	c := pedersen.New(seed).CommitToScalar(v)
	return c.Value, c.BlindingFactor
}

// PedScalars commits to the same value twice, after other uses.
func PedScalars(seed []byte, v sc, w []sc) (pt, sc, pt, sc) {
	p := pedersen.New(seed)
	c := p.CommitToScalar(v)
	p.BaseVector.Compute(2)
	p.CommitToVectors(w)
	d := p.CommitToScalar(v)
	return c.Value, c.BlindingFactor, d.Value, d.BlindingFactor
}

// PedVectors commits to vectors after computing pre generators.
func PedVectors(seed []byte, pre int, vecs [][]sc) (pt, sc) {
	p := pedersen.New(seed)
	p.BaseVector.Compute(uint32(pre))
	c := p.CommitToVectors(vecs...)
	return c.Value, c.BlindingFactor
}

// PedAgain commits to vectors with a used object.
func PedAgain(seed []byte, w []sc, vecs [][]sc) (pt, sc) {
	p := pedersen.New(seed)
	p.CommitToVectors(w)
	c := p.CommitToVectors(vecs...)
	return c.Value, c.BlindingFactor
}

// Gens computes generators in two steps.
func Gens(seed []byte, a, b int) []pt {
	g := generator.New(seed)
	g.Compute(uint32(a))
	g.Compute(uint32(b))
	return g.Bases
}

// GensIter computes generators one by one.
func GensIter(seed []byte, n int) []pt {
	g := generator.New(seed)
	for i := 0; i < n; i++ {
		g.Bases = append(g.Bases, g.Iterate())
	}
	return g.Bases
}

// GensClear starts again.
func GensClear(seed []byte, a, b int) []pt {
	g := generator.New(seed)
	g.Compute(uint32(a))
	g.Clear()
	g.Compute(uint32(b))
	return g.Bases
}

// PedVectors2 commits to two vectors, one after the other.
func PedVectors2(seed []byte, v, w []sc) (sc, sc) {
	p := pedersen.New(seed)
	c := p.CommitToVectors(v)
	d := p.CommitToVectors(w)
	return c.BlindingFactor, d.BlindingFactor
}
