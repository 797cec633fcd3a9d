package zzverifspec

import "encoding/binary"

func u32(n int) []byte {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(n))
	return b[:]
}

func encS(x []sc) []byte {
	var b []byte
	for i := range x {
		b = append(b, x[i].Bytes()...)
	}
	return b
}

func encP(x []pt) []byte {
	var b []byte
	for i := range x {
		b = append(b, x[i].Bytes()...)
	}
	return b
}

// EncPoints and EncScalars are plain concatenations.
func EncPoints(x []pt) []byte  { return encP(x) }
func EncScalars(x []sc) []byte { return encS(x) }

// MlsagEnc is the encoding of a signature.
func MlsagEnc(c sc, r [][]sc, pk [][]pt, keys bool) []byte {
	b := append([]byte{}, c.Bytes()...)
	b = append(b, u32(len(r))...)
	if len(r) == 0 {
		return b
	}
	b = append(b, u32(len(r[0]))...)
	for _, x := range r {
		b = append(b, encS(x)...)
	}
	if keys {
		for _, x := range pk {
			b = append(b, encP(x)...)
		}
	}
	return b
}

type rd struct {
	b  []byte
	ok bool
}

func (r *rd) take(n int) []byte {
	if !r.ok || len(r.b) < n {
		r.ok = false
		return nil
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func (r *rd) scalar() sc {
	var s sc
	b := r.take(32)
	if r.ok {
		var a [32]byte
		copy(a[:], b)
		s.SetBytes(&a)
	}
	return s
}

func (r *rd) point() pt {
	var p pt
	b := r.take(32)
	if r.ok {
		var a [32]byte
		copy(a[:], b)
		if !p.SetBytes(&a) {
			r.ok = false
		}
	}
	return p
}

func (r *rd) count() int {
	b := r.take(4)
	if !r.ok {
		return 0
	}
	return int(binary.BigEndian.Uint32(b))
}

func (r *rd) err() error {
	if r.ok {
		return nil
	}
	return errSpec
}

// MlsagDec decodes a signature.
func MlsagDec(b []byte, keys bool) (c sc, r [][]sc, pk [][]pt, err error) {
	d := &rd{b, true}
	c = d.scalar()
	n := d.count()
	if !d.ok || n == 0 {
		return c, nil, nil, d.err()
	}
	m := d.count()
	if !d.ok || m == 0 {
		return c, nil, nil, errSpec
	}
	for i := 0; i < n && d.ok; i++ {
		var x []sc
		for j := 0; j < m && d.ok; j++ {
			x = append(x, d.scalar())
		}
		r = append(r, x)
	}
	if keys {
		for i := 0; i < n && d.ok; i++ {
			var x []pt
			for j := 0; j < m && d.ok; j++ {
				x = append(x, d.point())
			}
			pk = append(pk, x)
		}
	}
	return c, r, pk, d.err()
}

// IppEnc is the encoding of an inner product proof.
func IppEnc(a, b sc, L, R []pt) []byte {
	o := append(append([]byte{}, a.Bytes()...), b.Bytes()...)
	for i := range L {
		o = append(o, L[i].Bytes()...)
		o = append(o, R[i].Bytes()...)
	}
	return o
}

func (d *rd) ipp() (a, b sc, L, R []pt) {
	a = d.scalar()
	b = d.scalar()
	if !d.ok || len(d.b)%64 != 0 {
		d.ok = false
		return
	}
	for d.ok && len(d.b) > 0 {
		L = append(L, d.point())
		R = append(R, d.point())
	}
	return
}

// IppDec decodes an inner product proof.
func IppDec(x []byte) (a, b sc, L, R []pt, err error) {
	d := &rd{x, true}
	a, b, L, R = d.ipp()
	return a, b, L, R, d.err()
}

// CommitsEnc is the encoding of commitments.
func CommitsEnc(V []pt) []byte { return append(u32(len(V)), encP(V)...) }

// CommitsDec decodes commitments.
func CommitsDec(x []byte) ([]pt, error) {
	d := &rd{x, true}
	V := d.commits()
	return V, d.err()
}

func (d *rd) commits() []pt {
	n := d.count()
	var V []pt
	for i := 0; i < n && d.ok; i++ {
		V = append(V, d.point())
	}
	return V
}

// RangeEnc is the encoding of a range proof.
func RangeEnc(V []pt, A, S, T1, T2 pt, taux, mu, t, a, b sc, L, R []pt, commits bool) []byte {
	var o []byte
	if commits {
		o = CommitsEnc(V)
	}
	o = append(o, encP([]pt{A, S, T1, T2})...)
	o = append(o, encS([]sc{taux, mu, t})...)
	return append(o, IppEnc(a, b, L, R)...)
}

// RangeDec decodes a range proof.
func RangeDec(x []byte, commits bool) (V []pt, A, S, T1, T2 pt, taux, mu, t, a, b sc, L, R []pt, err error) {
	d := &rd{x, true}
	if commits {
		V = d.commits()
	}
	A = d.point()
	S = d.point()
	T1 = d.point()
	T2 = d.point()
	taux = d.scalar()
	mu = d.scalar()
	t = d.scalar()
	a, b, L, R = d.ipp()
	err = d.err()
	return
}

// DecPoints and DecScalars read n items.
func DecPoints(x []byte, n uint32) ([]pt, error) {
	d := &rd{x, true}
	var r []pt
	for i := uint32(0); i < n && d.ok; i++ {
		r = append(r, d.point())
	}
	return r, d.err()
}

func DecScalars(x []byte, n uint32) ([]sc, error) {
	d := &rd{x, true}
	var r []sc
	for i := uint32(0); i < n && d.ok; i++ {
		r = append(r, d.scalar())
	}
	return r, d.err()
}

// CommitDec decodes one commitment.
func CommitDec(x []byte) (pt, error) {
	d := &rd{x, true}
	p := d.point()
	return p, d.err()
}
