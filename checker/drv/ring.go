package zzverifdrv

import (
	ristretto "github.com/bwesterb/go-ristretto"
	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/ringsig/blsag"
)

// Blsag signs and verifies.
func Blsag(m []byte, mixin []ristretto.Point, x ristretto.Scalar) (blsag.RingSignature, bool) {
	s := blsag.Sign(m, mixin, x)
	return s, blsag.Verify(m, s)
}

func dual(msg []byte, x, z ristretto.Scalar, decoys [][]ristretto.Point) *mlsag.DualKey {
	d := mlsag.NewDualKey()
	d.SetMsg(msg)
	d.SetPrimaryKey(x)
	d.SetCommToZero(z)
	var all []mlsag.PubKeys
	for i, k := range decoys {
		var pk mlsag.PubKeys
		for _, p := range k {
			pk.AddPubKey(p)
		}
		if i == 0 {
			d.AddDecoy(pk)
		} else {
			all = append(all, pk)
		}
	}
	d.AddDecoys(all)
	return d
}

// Mlsag signs with two keys.
func Mlsag(msg []byte, x, z ristretto.Scalar, decoys [][]ristretto.Point) (*mlsag.Signature, ristretto.Point, error) {
	return dual(msg, x, z, decoys).Prove()
}

// MlsagSub is Mlsag after SubCommToZero.
func MlsagSub(msg []byte, x, z ristretto.Scalar, decoys [][]ristretto.Point, p ristretto.Point) (*mlsag.Signature, ristretto.Point, error) {
	d := dual(msg, x, z, decoys)
	d.SubCommToZero(p)
	return d.Prove()
}

// MlsagOK verifies.
func MlsagOK(s *mlsag.Signature, image ristretto.Point) bool {
	ok, err := s.Verify([]ristretto.Point{image})
	return ok && err == nil
}

// MlsagOrder is Mlsag with its inputs given in another order, and twice.
func MlsagOrder(msg []byte, x, z ristretto.Scalar, decoys [][]ristretto.Point, p ristretto.Point) (*mlsag.Signature, ristretto.Point, error) {
	var other ristretto.Scalar
	other.SetOne()
	d := mlsag.NewDualKey()
	var all []mlsag.PubKeys
	for _, k := range decoys {
		var pk mlsag.PubKeys
		for _, p := range k {
			pk.AddPubKey(p)
		}
		all = append(all, pk)
	}
	d.AddDecoys(all)
	d.SetCommToZero(other)
	d.SetCommToZero(z)
	d.SetPrimaryKey(other)
	d.SetPrimaryKey(x)
	d.SetMsg([]byte("other"))
	d.SetMsg(msg)
	return d.Prove()
}

// MlsagKeys are the public keys returned when keys are set.
func MlsagKeys(x, z ristretto.Scalar) (ristretto.Point, ristretto.Point) {
	d := mlsag.NewDualKey()
	z1 := d.SetCommToZero(z)
	x1 := d.SetPrimaryKey(x)
	return x1, z1
}

// MlsagAny prepares a signature with any number of keys.
func MlsagAny(msg []byte, keys []ristretto.Scalar, decoys [][]ristretto.Point) *mlsag.Proof {
	d := mlsag.NewDualKey()
	d.SetMsg(msg)
	for _, k := range keys {
		d.AddSecret(k)
	}
	for _, k := range decoys {
		var pk mlsag.PubKeys
		for _, p := range k {
			pk.AddPubKey(p)
		}
		d.AddDecoy(pk)
	}
	return &d.Proof
}

// MlsagOKs verifies.
func MlsagOKs(s *mlsag.Signature, images []ristretto.Point) bool {
	ok, err := s.Verify(images)
	return ok && err == nil
}

// MlsagDual makes a signer.
func MlsagDual(msg []byte, x, z ristretto.Scalar, decoys [][]ristretto.Point) *mlsag.DualKey {
	return dual(msg, x, z, decoys)
}
