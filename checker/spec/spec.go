// Package zzverifspec states what dusk-crypto computes.
//
// The checker evaluates these functions with the same abstract interpreter as
// the code of the repository and compares the resulting terms. Nothing here is
// executed.
package zzverifspec

import (
	"bytes"
	"encoding/base64"
	"errors"
	"math/big"

	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/bn256"
	"golang.org/x/crypto/sha3"
)

var errSpec = errors.New("spec")

func sha3256(b []byte) []byte {
	h := sha3.New256()
	h.Write(b)
	return h.Sum(nil)
}

// MerkleRoot is the root over the leaf hashes: levels of pairs, in order, the
// last node of an odd level paired with itself.
func MerkleRoot(leaves [][]byte) []byte {
	level := leaves
	if len(level) == 1 {
		level = [][]byte{level[0], level[0]}
	}
	for len(level) > 1 {
		var next [][]byte
		for i := 0; i < len(level); i += 2 {
			r := level[i]
			if i+1 < len(level) {
				r = level[i+1]
			}
			var b []byte
			b = append(b, level[i]...)
			b = append(b, r...)
			next = append(next, sha3256(b))
		}
		level = next
	}
	return level[0]
}

// MlsagChallenge hashes one ring member's row.
func mlsagChallenge(msg []byte, c ristretto.Scalar, r []ristretto.Scalar, keys, images []ristretto.Point) ristretto.Scalar {
	var b []byte
	b = append(b, msg...)
	for i := range keys {
		var x, y ristretto.Point
		x.ScalarMultBase(&r[i])
		y.ScalarMult(&keys[i], &c)
		x.Add(&x, &y)
		b = append(b, x.Bytes()...)
	}
	for i := range images {
		var h, x, y ristretto.Point
		h.Derive(keys[i].Bytes())
		x.ScalarMult(&h, &r[i])
		y.ScalarMult(&images[i], &c)
		x.Add(&x, &y)
		b = append(b, x.Bytes()...)
	}
	var d ristretto.Scalar
	d.Derive(b)
	return d
}

// MlsagVerify is the MLSAG acceptance condition.
func MlsagVerify(msg []byte, c ristretto.Scalar, r [][]ristretto.Scalar, keys [][]ristretto.Point, images []ristretto.Point) bool {
	if len(keys) == 0 || len(r) != len(keys) || len(images) == 0 {
		return false
	}
	for i := range keys {
		if len(r[i]) != len(keys[i]) || len(images) > len(keys[i]) {
			return false
		}
	}
	cur := c
	for i := range keys {
		cur = mlsagChallenge(msg, cur, r[i], keys[i], images)
	}
	return cur.Equals(&c)
}

// BlsagVerify is the bLSAG acceptance condition.
func BlsagVerify(msg []byte, image ristretto.Point, c ristretto.Scalar, s []ristretto.Scalar, keys []ristretto.Point) bool {
	if len(keys) == 0 || len(s) != len(keys) {
		return false
	}
	cur := c
	for i := range keys {
		var l, x, h, rr, y ristretto.Point
		l.ScalarMultBase(&s[i])
		x.ScalarMult(&keys[i], &cur)
		l.Add(&l, &x)
		h.Derive(keys[i].Bytes())
		rr.ScalarMult(&h, &s[i])
		y.ScalarMult(&image, &cur)
		rr.Add(&rr, &y)
		var b []byte
		b = append(b, msg...)
		b = append(b, l.Bytes()...)
		b = append(b, rr.Bytes()...)
		cur.Derive(b)
	}
	return cur.Equals(&c)
}

func same(a, b []byte) bool { return bytes.Equal(a, b) }

func blsH0(msg []byte) *bn256.G1 {
	k := new(big.Int).SetBytes(sha3256(msg))
	return new(bn256.G1).ScalarBaseMult(k)
}

// BlsWeight is the exponent of a key in an aggregate.
func BlsWeight(pk *bn256.G2) *big.Int {
	return new(big.Int).SetBytes(sha3256(pk.Marshal()))
}

func blsBase() *bn256.G2 { return new(bn256.G2).ScalarBaseMult(big.NewInt(1)) }

// BlsVerify is the acceptance condition of single signatures.
func BlsVerify(pk *bn256.G2, msg []byte, sig *bn256.G1) bool {
	return bytes.Equal(bn256.Pair(blsH0(msg), pk).Marshal(), bn256.Pair(sig, blsBase()).Marshal())
}

// BlsVerifyBatch is the acceptance condition of batches.
func BlsVerifyBatch(pks []*bn256.G2, msgs [][]byte, sig *bn256.G1, allow bool) bool {
	if len(pks) != len(msgs) || len(msgs) == 0 {
		return false
	}
	if !allow {
		for i := range msgs {
			for j := 0; j < i; j++ {
				if bytes.Equal(msgs[i], msgs[j]) {
					return false
				}
			}
		}
	}
	sum := bn256.Pair(blsH0(msgs[0]), pks[0])
	for i := 1; i < len(msgs); i++ {
		sum.Add(sum, bn256.Pair(blsH0(msgs[i]), pks[i]))
	}
	return bytes.Equal(sum.Marshal(), bn256.Pair(sig, blsBase()).Marshal())
}

// BlsApk is the weighted sum of keys.
func BlsApk(pks []*bn256.G2) *bn256.G2 {
	sum := new(bn256.G2).ScalarMult(pks[0], BlsWeight(pks[0]))
	for _, p := range pks[1:] {
		sum.Add(sum, new(bn256.G2).ScalarMult(p, BlsWeight(p)))
	}
	return sum
}

// BlsAddKey adds a weighted key.
func BlsAddKey(apk, pk *bn256.G2) *bn256.G2 {
	return new(bn256.G2).Add(apk, new(bn256.G2).ScalarMult(pk, BlsWeight(pk)))
}

// BlsUnsafeSign is the unweighted signature.
func BlsUnsafeSign(x *big.Int, msg []byte) *bn256.G1 {
	return new(bn256.G1).ScalarMult(blsH0(msg), x)
}

// BlsSign is the weighted signature.
func BlsSign(x *big.Int, pk *bn256.G2, msg []byte) *bn256.G1 {
	return new(bn256.G1).ScalarMult(BlsUnsafeSign(x, msg), BlsWeight(pk))
}

// BlsAddSig adds a weighted signature.
func BlsAddSig(s *bn256.G1, pk *bn256.G2, u *bn256.G1) *bn256.G1 {
	return new(bn256.G1).Add(s, new(bn256.G1).ScalarMult(u, BlsWeight(pk)))
}

// BlsSum adds points.
func BlsSum(s []*bn256.G1) *bn256.G1 {
	r := new(bn256.G1).Set(s[0])
	for _, x := range s[1:] {
		r.Add(r, x)
	}
	return r
}

// BlsSum2 adds points.
func BlsSum2(a, b *bn256.G2) *bn256.G2 { return new(bn256.G2).Add(a, b) }

// BlsAdd1 adds two points.
func BlsAdd1(a, b *bn256.G1) *bn256.G1 { return new(bn256.G1).Add(a, b) }

// BlsG2Valid tells whether b encodes a key.
func BlsG2Valid(b []byte) bool {
	_, err := new(bn256.G2).Unmarshal(b)
	return err == nil
}

// BlsDec2 decodes a key.
func BlsDec2(b []byte) *bn256.G2 {
	g := new(bn256.G2)
	g.Unmarshal(b)
	return g
}

// BlsG1Valid tells whether b encodes a signature: 33 bytes are the compressed form.
func BlsG1Valid(b []byte) bool {
	if len(b) == 33 {
		return BlsG1CValid(b)
	}
	return BlsG1UValid(b)
}

// BlsDec1 decodes a signature.
func BlsDec1(b []byte) *bn256.G1 {
	if len(b) == 33 {
		return BlsDecC1(b)
	}
	return BlsDecU1(b)
}

// BlsG1UValid is for uncompressed points.
func BlsG1UValid(b []byte) bool {
	_, err := new(bn256.G1).Unmarshal(b)
	return err == nil
}

// BlsDecU1 is for uncompressed points.
func BlsDecU1(b []byte) *bn256.G1 {
	g := new(bn256.G1)
	g.Unmarshal(b)
	return g
}

// BlsG1CValid is for compressed points.
func BlsG1CValid(b []byte) bool {
	_, err := bn256.Decompress(b)
	return err == nil
}

// BlsDecC1 is for compressed points.
func BlsDecC1(b []byte) *bn256.G1 {
	g, _ := bn256.Decompress(b)
	return g
}

func blsUntext(b []byte) ([]byte, error) {
	buf := make([]byte, base64.RawURLEncoding.DecodedLen(len(b)))
	n, err := base64.RawURLEncoding.Decode(buf, b)
	return buf[:n], err
}

// BlsG2TextValid is for the text form.
func BlsG2TextValid(b []byte) bool {
	d, err := blsUntext(b)
	return err == nil && BlsG2Valid(d)
}

// BlsDecText2 is for the text form.
func BlsDecText2(b []byte) *bn256.G2 {
	d, _ := blsUntext(b)
	return BlsDec2(d)
}

// BlsAddKeyBytes adds an encoded key.
func BlsAddKeyBytes(apk *bn256.G2, b []byte) *bn256.G2 { return BlsAddKey(apk, BlsDec2(b)) }

// BlsAdd1Bytes adds an encoded signature.
func BlsAdd1Bytes(s *bn256.G1, b []byte) *bn256.G1 { return BlsAdd1(s, BlsDec1(b)) }

// BlsDecompressVerify is VerifyCompressed.
func BlsDecompressVerify(pks []*bn256.G2, msgs [][]byte, sig []byte, allow bool) bool {
	return BlsG1CValid(sig) && BlsVerifyBatch(pks, msgs, BlsDecC1(sig), allow)
}

// BlsEnc1 is the byte form of a signature.
func BlsEnc1(g *bn256.G1) []byte { return g.Marshal() }

// BlsComp1 is the compressed form of a signature.
func BlsComp1(g *bn256.G1) []byte { return g.Compress() }

// BlsEnc2 is the byte form of a key.
func BlsEnc2(g *bn256.G2) []byte { return g.Marshal() }

// BlsText2 is the text form of a key.
func BlsText2(g *bn256.G2) []byte {
	d := g.Marshal()
	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(d)))
	base64.RawURLEncoding.Encode(buf, d)
	return buf
}
