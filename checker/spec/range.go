package zzverifspec

import (
	ristretto "github.com/bwesterb/go-ristretto"
)

const rangeBits = 64

func gens(seed []byte, n int) []ristretto.Point {
	var r []ristretto.Point
	for i := 0; i < n; i++ {
		var p ristretto.Point
		p.Derive(seed)
		seed = p.Bytes()
		r = append(r, p)
	}
	return r
}

const genSeed = "dusk.BulletProof.vec1"

// GenG are the generators for the left vector.
func GenG(n int) []ristretto.Point { return gens([]byte(genSeed), n) }

// GenH are the generators for the right vector.
func GenH(n int) []ristretto.Point { return gens([]byte(genSeed+"\x01"), n) }

// ValueBase is the base of committed values.
func ValueBase() ristretto.Point {
	var p ristretto.Point
	p.Derive([]byte("blindPoint"))
	return p
}

// BlindBase is the base of blinding factors.
func BlindBase() ristretto.Point {
	var p ristretto.Point
	p.SetBase()
	return p
}

func mulS(a, b ristretto.Scalar) ristretto.Scalar {
	var r ristretto.Scalar
	r.Mul(&a, &b)
	return r
}

func addS(a, b ristretto.Scalar) ristretto.Scalar {
	var r ristretto.Scalar
	r.Add(&a, &b)
	return r
}

func subS(a, b ristretto.Scalar) ristretto.Scalar {
	var r ristretto.Scalar
	r.Sub(&a, &b)
	return r
}

func invS(a ristretto.Scalar) ristretto.Scalar {
	var r ristretto.Scalar
	r.Inverse(&a)
	return r
}

func mulP(p ristretto.Point, s ristretto.Scalar) ristretto.Point {
	var r ristretto.Point
	r.ScalarMult(&p, &s)
	return r
}

func addP(a, b ristretto.Point) ristretto.Point {
	var r ristretto.Point
	r.Add(&a, &b)
	return r
}

func subP(a, b ristretto.Point) ristretto.Point {
	var r ristretto.Point
	r.Sub(&a, &b)
	return r
}

func zeroP() ristretto.Point {
	var r ristretto.Point
	r.SetZero()
	return r
}

func one() ristretto.Scalar {
	var r ristretto.Scalar
	r.SetOne()
	return r
}

func zero() ristretto.Scalar {
	var r ristretto.Scalar
	r.SetZero()
	return r
}

func powers(x ristretto.Scalar, n int) []ristretto.Scalar {
	r := make([]ristretto.Scalar, n)
	p := one()
	for i := range r {
		r[i] = p
		p = mulS(p, x)
	}
	return r
}

func twos(n int) []ristretto.Scalar {
	two := one()
	two.Add(&two, &two)
	return powers(two, n)
}

func derive(b []byte) ristretto.Scalar {
	var s ristretto.Scalar
	s.Derive(b)
	return s
}

// transcript of a range proof up to y, z and x.
func rangeXYZ(V []ristretto.Point, A, S, T1, T2 ristretto.Point) (x, y, z ristretto.Scalar, tr []byte) {
	for i := range V {
		tr = append(tr, V[i].Bytes()...)
	}
	tr = append(tr, A.Bytes()...)
	tr = append(tr, S.Bytes()...)
	y = derive(tr)
	z = derive(y.Bytes())
	tr = append(tr, z.Bytes()...)
	tr = append(tr, T1.Bytes()...)
	tr = append(tr, T2.Bytes()...)
	x = derive(tr)
	return
}

func rangeW(tr []byte, x, taux, mu, t ristretto.Scalar) ristretto.Scalar {
	tr = append(tr, x.Bytes()...)
	tr = append(tr, taux.Bytes()...)
	tr = append(tr, mu.Bytes()...)
	tr = append(tr, t.Bytes()...)
	return derive(tr)
}

// IppChallenges are the challenges of an inner product argument.
func IppChallenges(L, R []ristretto.Point) []ristretto.Scalar {
	var tr []byte
	var u []ristretto.Scalar
	for i := range L {
		tr = append(tr, L[i].Bytes()...)
		tr = append(tr, R[i].Bytes()...)
		u = append(u, derive(tr))
	}
	return u
}

// IppS are the exponents of the folded generators: for every index the product
// of u_j or its inverse, by the bits of the index.
func IppS(u []ristretto.Scalar) []ristretto.Scalar {
	n := 1
	for range u {
		n *= 2
	}
	s := make([]ristretto.Scalar, n)
	for i := range s {
		p := one()
		half := n
		for j := range u {
			half /= 2
			if (i/half)%2 == 1 {
				p = mulS(p, u[j])
			} else {
				p = mulS(p, invS(u[j]))
			}
		}
		s[i] = p
	}
	return s
}

// RangeEq returns the two points which vanish for a valid range proof: the one
// for t and the one for the inner product.
func RangeEq(V []ristretto.Point, A, S, T1, T2 ristretto.Point, taux, mu, t ristretto.Scalar, L, R []ristretto.Point, a, b ristretto.Scalar) (ristretto.Point, ristretto.Point) {
	m := len(V)
	n := rangeBits * m
	x, y, z, tr := rangeXYZ(V, A, S, T1, T2)
	w := rangeW(tr, x, taux, mu, t)
	B, H := ValueBase(), BlindBase()
	zs := powers(z, m+3)
	ys := powers(y, n)
	yi := powers(invS(y), n)
	two := twos(rangeBits)

	// delta(y, z) = (z - z^2) <1, y^n> - sum_j z^(j+3) <1, 2^n>
	delta := zero()
	for i := 0; i < n; i++ {
		delta = addS(delta, mulS(subS(z, zs[2]), ys[i]))
	}
	for j := 0; j < m; j++ {
		for i := range two {
			delta = subS(delta, mulS(zs[j+3], two[i]))
		}
	}
	e1 := mulP(B, subS(t, delta))
	e1 = addP(e1, mulP(H, taux))
	for j := range V {
		e1 = subP(e1, mulP(V[j], zs[j+2]))
	}
	e1 = subP(e1, mulP(T1, x))
	e1 = subP(e1, mulP(T2, mulS(x, x)))

	u := IppChallenges(L, R)
	s := IppS(u)
	G, HH := GenG(n), GenH(n)
	e2 := mulP(B, mulS(w, subS(mulS(a, b), t)))
	e2 = addP(e2, mulP(H, mu))
	for i := 0; i < n; i++ {
		e2 = addP(e2, mulP(G[i], addS(mulS(a, s[i]), z)))
		h := mulS(b, s[n-1-i])
		h = subS(h, mulS(zs[i/rangeBits+2], two[i%rangeBits]))
		h = subS(mulS(h, yi[i]), z)
		e2 = addP(e2, mulP(HH[i], h))
	}
	e2 = subP(e2, A)
	e2 = subP(e2, mulP(S, x))
	for j := range u {
		e2 = subP(e2, mulP(L[j], mulS(u[j], u[j])))
		ui := invS(u[j])
		e2 = subP(e2, mulP(R[j], mulS(ui, ui)))
	}
	return e1, e2
}

// IppProve is the prover of the inner product argument. H is scaled by hf.
func IppProve(G, H []pt, a, b, hf []sc, Q pt) (L, R []pt, af, bf sc) {
	n := len(G)
	a, b = append([]sc{}, a...), append([]sc{}, b...)
	G = append([]pt{}, G...)
	HH := make([]pt, n)
	for i := range HH {
		HH[i] = mulP(H[i], hf[i])
	}
	var tr []byte
	for n > 1 {
		k := n / 2
		l, r := zeroP(), zeroP()
		cl, cr := zero(), zero()
		for i := 0; i < k; i++ {
			l = addP(l, addP(mulP(G[k+i], a[i]), mulP(HH[i], b[k+i])))
			r = addP(r, addP(mulP(G[i], a[k+i]), mulP(HH[k+i], b[i])))
			cl = addS(cl, mulS(a[i], b[k+i]))
			cr = addS(cr, mulS(a[k+i], b[i]))
		}
		l = addP(l, mulP(Q, cl))
		r = addP(r, mulP(Q, cr))
		L, R = append(L, l), append(R, r)
		tr = append(tr, l.Bytes()...)
		tr = append(tr, r.Bytes()...)
		u := derive(tr)
		ui := invS(u)
		for i := 0; i < k; i++ {
			a[i] = addS(mulS(a[i], u), mulS(a[k+i], ui))
			b[i] = addS(mulS(b[i], ui), mulS(b[k+i], u))
			G[i] = addP(mulP(G[i], ui), mulP(G[k+i], u))
			HH[i] = addP(mulP(HH[i], u), mulP(HH[k+i], ui))
		}
		n = k
	}
	return L, R, a[0], b[0]
}

// RangeBits are the bits of a value.
func RangeBits(v sc) []sc {
	r := make([]sc, rangeBits)
	x := v.BigInt()
	for i := range r {
		if x.Bit(i) == 1 {
			r[i] = one()
		} else {
			r[i] = zero()
		}
	}
	return r
}

// RangeA is the commitment to the bits aL and aL-1.
func RangeA(v []sc, alpha sc) pt {
	n := rangeBits * len(v)
	G, H := GenG(n), GenH(n)
	p := mulP(BlindBase(), alpha)
	for j := range v {
		for i, b := range RangeBits(v[j]) {
			p = addP(p, mulP(G[j*rangeBits+i], b))
			p = addP(p, mulP(H[j*rangeBits+i], subS(b, one())))
		}
	}
	return p
}

// RangeProve is everything that the prover sends after A and S, from the
// values, the random scalars and the challenges.
func RangeProve(v, gamma, sL, sR []sc, alpha, rho, tau1, tau2 sc, V []pt, A, S, T1, T2 pt) (t1, t2, taux, mu, t sc, l, r, hf []sc, x, y, z, w sc) {
	m := len(v)
	n := rangeBits * m
	x, y, z, tr := rangeXYZ(V, A, S, T1, T2)
	ys := powers(y, n)
	zs := powers(z, m+3)
	two := twos(rangeBits)
	l0, r0, r1 := make([]sc, n), make([]sc, n), make([]sc, n)
	for j := range v {
		for k, b := range RangeBits(v[j]) {
			i := j*rangeBits + k
			l0[i] = subS(b, z)
			r0[i] = addS(mulS(ys[i], addS(subS(b, one()), z)), mulS(zs[j+2], two[k]))
			r1[i] = mulS(ys[i], sR[i])
		}
	}
	t1, t2 = zero(), zero()
	for i := 0; i < n; i++ {
		t1 = addS(t1, addS(mulS(l0[i], r1[i]), mulS(sL[i], r0[i])))
		t2 = addS(t2, mulS(sL[i], r1[i]))
	}
	l, r = make([]sc, n), make([]sc, n)
	t = zero()
	for i := 0; i < n; i++ {
		l[i] = addS(l0[i], mulS(sL[i], x))
		r[i] = addS(r0[i], mulS(r1[i], x))
		t = addS(t, mulS(l[i], r[i]))
	}
	taux = addS(mulS(tau1, x), mulS(tau2, mulS(x, x)))
	for j := range gamma {
		taux = addS(taux, mulS(zs[j+2], gamma[j]))
	}
	mu = addS(alpha, mulS(rho, x))
	w = rangeW(tr, x, taux, mu, t)
	hf = powers(invS(y), n)
	return
}

// RangeOK tells whether all values are in the range.
func RangeOK(v []sc) bool {
	ok := true
	for i := range v {
		if v[i].BigInt().BitLen() > rangeBits {
			ok = false
		}
	}
	return ok
}

// RangeS is the commitment to the blinding vectors.
func RangeS(sL, sR []sc, rho sc) pt {
	G, H := GenG(len(sL)), GenH(len(sL))
	p := mulP(BlindBase(), rho)
	for i := range sL {
		p = addP(p, mulP(G[i], sL[i]))
		p = addP(p, mulP(H[i], sR[i]))
	}
	return p
}

// RangeIpp is the inner product proof of a range proof.
func RangeIpp(l, r, hf []sc, w sc) (L, R []pt, a, b sc) {
	n := len(l)
	return IppProve(GenG(n), GenH(n), l, r, hf, RangeQ(w))
}

// RangeQ is the base of the inner product.
func RangeQ(w sc) pt { return mulP(ValueBase(), w) }

// IppEq is the point which vanishes for a valid inner product proof of P.
func IppEq(G, H []pt, hf []sc, Q, P pt, L, R []pt, a, b sc) pt {
	u := IppChallenges(L, R)
	s := IppS(u)
	n := len(s)
	e := subP(mulP(Q, mulS(a, b)), P)
	for i := 0; i < n; i++ {
		e = addP(e, mulP(G[i], mulS(a, s[i])))
		e = addP(e, mulP(H[i], mulS(mulS(b, s[n-1-i]), hf[i])))
	}
	for j := range u {
		e = subP(e, mulP(L[j], mulS(u[j], u[j])))
		ui := invS(u[j])
		e = subP(e, mulP(R[j], mulS(ui, ui)))
	}
	return e
}

// IppP is what an inner product proof proves: <a,G> + <b,H'> + <a,b>Q.
func IppP(G, H []pt, a, b, hf []sc, Q pt) pt {
	p := zeroP()
	c := zero()
	for i := range a {
		p = addP(p, mulP(G[i], a[i]))
		p = addP(p, mulP(H[i], mulS(b[i], hf[i])))
		c = addS(c, mulS(a[i], b[i]))
	}
	return addP(p, mulP(Q, c))
}

// IppScalars are the squares of the challenges, of their inverses and s.
func IppScalars(L, R []pt) (x, y, s []sc) {
	u := IppChallenges(L, R)
	for j := range u {
		x = append(x, mulS(u[j], u[j]))
		ui := invS(u[j])
		y = append(y, mulS(ui, ui))
	}
	return x, y, IppS(u)
}

// RangeChallenges are all challenges of a range proof.
func RangeChallenges(V []pt, A, S, T1, T2 pt, taux, mu, t sc, L, R []pt) (x, y, z, w sc, u []sc) {
	x, y, z, tr := rangeXYZ(V, A, S, T1, T2)
	w = rangeW(tr, x, taux, mu, t)
	return x, y, z, w, IppChallenges(L, R)
}
