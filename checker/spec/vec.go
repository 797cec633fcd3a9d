package zzverifspec

import (
	ristretto "github.com/bwesterb/go-ristretto"
)

type sc = ristretto.Scalar
type pt = ristretto.Point

func VecAdd(a, b []sc) ([]sc, error) {
	if len(a) != len(b) {
		return nil, errSpec
	}
	var r []sc
	for i := range a {
		r = append(r, addS(a[i], b[i]))
	}
	return r, nil
}

func VecSub(a, b []sc) ([]sc, error) {
	if len(a) != len(b) {
		return nil, errSpec
	}
	var r []sc
	for i := range a {
		r = append(r, subS(a[i], b[i]))
	}
	return r, nil
}

func VecHadamard(a, b []sc) ([]sc, error) {
	if len(a) != len(b) {
		return nil, errSpec
	}
	var r []sc
	for i := range a {
		r = append(r, mulS(a[i], b[i]))
	}
	return r, nil
}

func VecInner(a, b []sc) (sc, error) {
	if len(a) != len(b) {
		return zero(), errSpec
	}
	r := zero()
	for i := range a {
		r = addS(r, mulS(a[i], b[i]))
	}
	return r, nil
}

func VecExp(a []sc, b []pt, n, m int) (pt, error) {
	if len(a) != len(b) || len(a) < n*m {
		return zeroP(), errSpec
	}
	r := zeroP()
	for i := range a {
		r = addP(r, mulP(b[i], a[i]))
	}
	return r, nil
}

func VecAddScalar(a []sc, b sc) []sc {
	var r []sc
	for i := range a {
		r = append(r, addS(a[i], b))
	}
	return r
}

func VecSubScalar(a []sc, b sc) []sc {
	var r []sc
	for i := range a {
		r = append(r, subS(a[i], b))
	}
	return r
}

func VecMulScalar(a []sc, b sc) []sc {
	var r []sc
	for i := range a {
		r = append(r, mulS(a[i], b))
	}
	return r
}

func VecNeg(a []sc) []sc {
	var r []sc
	for i := range a {
		r = append(r, subS(zero(), a[i]))
	}
	return r
}

func VecPowers(a sc, n uint32) []sc { return powers(a, int(n)) }

func VecPowersSum(a sc, n uint64) sc {
	r := zero()
	for _, p := range powers(a, int(n)) {
		r = addS(r, p)
	}
	return r
}

func VecFrom(a sc, n uint32) []sc {
	var r []sc
	for i := uint32(0); i < n; i++ {
		r = append(r, a)
	}
	return r
}

func VecSplitS(x []sc, n uint32) ([]sc, []sc, error) {
	if int(n) >= len(x) {
		return nil, nil, errSpec
	}
	return x[:n], x[n:], nil
}

func VecSplitP(x []pt, n uint32) ([]pt, []pt, error) {
	if int(n) >= len(x) {
		return nil, nil, errSpec
	}
	return x[:n], x[n:], nil
}
