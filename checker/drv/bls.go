// Package zzverifdrv uses the exported interface of dusk-crypto the way a
// client does. The checker evaluates these functions abstractly, together with
// the code of the repository they call; nothing here is executed. Each
// returns true when the property it is about holds for its arguments.
package zzverifdrv

import (
	"bytes"

	"github.com/dusk-network/bn256"
	"github.com/dusk-network/dusk-crypto/bls"
)

type kp struct {
	pk *bls.PublicKey
	sk *bls.SecretKey
}

func blsKeys(n int) []kp {
	var r []kp
	for i := 0; i < n; i++ {
		pk, sk, err := bls.GenKeyPair(nil)
		if err != nil {
			panic("")
		}
		r = append(r, kp{pk, sk})
	}
	return r
}

// BlsSigned: n signers of one message; the aggregate signature verifies under
// the aggregate key.
func BlsSigned(n int, msg []byte) bool {
	keys := blsKeys(n)
	var pks []*bls.PublicKey
	var sig *bls.Signature
	for _, k := range keys {
		s, err := bls.Sign(k.sk, k.pk, msg)
		if err != nil {
			return false
		}
		if sig == nil {
			sig = s
		} else {
			sig.Aggregate(s)
		}
		pks = append(pks, k.pk)
	}
	apk, err := bls.AggregateApk(pks)
	if err != nil {
		return false
	}
	return bls.Verify(apk, msg, sig) == nil
}

// BlsSteps: as BlsSigned, built up with Add and Apk.Aggregate.
func BlsSteps(n int, msg []byte) bool {
	keys := blsKeys(n)
	var sig *bls.Signature
	var apk *bls.Apk
	for _, k := range keys {
		if sig == nil {
			s, err := bls.Sign(k.sk, k.pk, msg)
			if err != nil {
				return false
			}
			sig = s
			apk = bls.NewApk(k.pk)
			continue
		}
		u, err := bls.UnsafeSign(k.sk, msg)
		if err != nil {
			return false
		}
		if err := sig.Add(k.pk, u); err != nil {
			return false
		}
		if err := apk.Aggregate(k.pk); err != nil {
			return false
		}
	}
	return bls.Verify(apk, msg, sig) == nil
}

// BlsBytes: as BlsSigned, through the byte forms.
func BlsBytes(n int, msg []byte) bool {
	keys := blsKeys(n)
	var sig *bls.Signature
	var apk *bls.Apk
	for i, k := range keys {
		s, err := bls.Sign(k.sk, k.pk, msg)
		if err != nil {
			return false
		}
		if sig == nil {
			sig, err = bls.UnmarshalSignature(s.Marshal())
			if err != nil {
				return false
			}
			apk, err = bls.UnmarshalApk(bls.NewApk(k.pk).Marshal())
			if err != nil {
				return false
			}
			continue
		}
		b := s.Marshal()
		if i%2 == 0 {
			b = s.Compress()
		}
		if err := sig.AggregateBytes(b); err != nil {
			return false
		}
		if err := apk.AggregateBytes(k.pk.Marshal()); err != nil {
			return false
		}
	}
	return bls.Verify(apk.Copy(), msg, sig.Copy()) == nil
}

// BlsUnsafe: a signature verifies under the signer's key.
func BlsUnsafe(msg []byte) bool {
	k := blsKeys(1)[0]
	s, err := bls.UnsafeSign(k.sk, msg)
	if err != nil {
		return false
	}
	return bls.VerifyUnsafe(k.pk, msg, s) == nil
}

// BlsBatchUnsafe: a batch over distinct messages verifies.
func BlsBatchUnsafe(msgs [][]byte) bool {
	keys := blsKeys(len(msgs))
	var sigs []*bls.UnsafeSignature
	var pks []*bls.PublicKey
	for i, k := range keys {
		s, err := bls.UnsafeSign(k.sk, msgs[i])
		if err != nil {
			return false
		}
		sigs = append(sigs, s)
		pks = append(pks, k.pk)
	}
	b, err := bls.UnsafeBatch(sigs...)
	if err != nil {
		return false
	}
	return bls.VerifyUnsafeBatch(pks, msgs, b) == nil
}

// BlsBatch: a batch of aggregated keys, two signers per message.
func BlsBatch(msgs [][]byte) bool {
	var apks []*bls.Apk
	var sig *bls.Signature
	for _, m := range msgs {
		keys := blsKeys(2)
		apk, err := bls.AggregateApk([]*bls.PublicKey{keys[0].pk, keys[1].pk})
		if err != nil {
			return false
		}
		apks = append(apks, apk)
		for _, k := range keys {
			s, err := bls.Sign(k.sk, k.pk, m)
			if err != nil {
				return false
			}
			if sig == nil {
				sig = s
			} else {
				sig = sig.Aggregate(s)
			}
		}
	}
	return bls.VerifyBatch(apks, msgs, sig) == nil
}

// BlsCompressed: the compressed form of a batch verifies.
func BlsCompressed(msgs [][]byte, allow bool) bool {
	keys := blsKeys(len(msgs))
	var sum *bls.UnsafeSignature
	var pks []*bn256.G2
	for i, k := range keys {
		s, err := bls.UnsafeSign(k.sk, msgs[i])
		if err != nil {
			return false
		}
		if sum == nil {
			sum = s
		} else {
			sum = bls.UnsafeAggregate(sum, s)
		}
		g := new(bn256.G2)
		if _, err := g.Unmarshal(k.pk.Marshal()); err != nil {
			return false
		}
		pks = append(pks, g)
	}
	return bls.VerifyCompressed(pks, msgs, sum.Compress(), allow) == nil
}

// BlsKeyCodec: a key survives both encodings.
func BlsKeyCodec() bool {
	k := blsKeys(1)[0]
	b := k.pk.Marshal()
	p2, err := bls.UnmarshalPk(b)
	if err != nil || !bytes.Equal(p2.Marshal(), b) {
		return false
	}
	t, err := k.pk.MarshalText()
	if err != nil {
		return false
	}
	p3 := new(bls.PublicKey)
	if err := p3.UnmarshalText(t); err != nil {
		return false
	}
	return bytes.Equal(p3.Marshal(), b)
}

// BlsSigCodec: a signature survives all encodings.
func BlsSigCodec(msg []byte) bool {
	k := blsKeys(1)[0]
	s, err := bls.Sign(k.sk, k.pk, msg)
	if err != nil {
		return false
	}
	b := s.Marshal()
	s1, err := bls.UnmarshalSignature(b)
	if err != nil || !bytes.Equal(s1.Marshal(), b) {
		return false
	}
	s2, err := bls.UnmarshalSignature(s.Compress())
	if err != nil || !bytes.Equal(s2.Marshal(), b) {
		return false
	}
	s3 := new(bls.Signature)
	if err := s3.Decompress(s.Compress()); err != nil || !bytes.Equal(s3.Marshal(), b) {
		return false
	}
	u, err := bls.UnsafeSign(k.sk, msg)
	if err != nil {
		return false
	}
	c := u.Marshal()
	u1 := new(bls.UnsafeSignature)
	if err := u1.Unmarshal(c); err != nil || !bytes.Equal(u1.Marshal(), c) {
		return false
	}
	u2 := new(bls.UnsafeSignature)
	if err := u2.Decompress(u.Compress()); err != nil || !bytes.Equal(u2.Marshal(), c) {
		return false
	}
	return true
}

// BlsCopies: copies do not follow what happens to the original.
func BlsCopies(msg []byte) bool {
	keys := blsKeys(2)
	apk := bls.NewApk(keys[0].pk)
	before := apk.Marshal()
	c := apk.Copy()
	if err := c.Aggregate(keys[1].pk); err != nil {
		return false
	}
	if !bytes.Equal(apk.Marshal(), before) {
		return false
	}
	c = apk.Copy()
	if err := apk.Aggregate(keys[1].pk); err != nil {
		return false
	}
	if !bytes.Equal(c.Marshal(), before) {
		return false
	}
	s0, err := bls.Sign(keys[0].sk, keys[0].pk, msg)
	if err != nil {
		return false
	}
	s1, err := bls.Sign(keys[1].sk, keys[1].pk, msg)
	if err != nil {
		return false
	}
	b := s0.Marshal()
	d := s0.Copy()
	d.Aggregate(s1)
	if !bytes.Equal(s0.Marshal(), b) {
		return false
	}
	d = s0.Copy()
	s0.Aggregate(s1)
	return bytes.Equal(d.Marshal(), b)
}
