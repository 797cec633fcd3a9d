package zzverifdrv

import (
	"bytes"
	"io"

	"github.com/dusk-network/dusk-crypto/mlsag"
	"github.com/dusk-network/dusk-crypto/rangeproof"
	"github.com/dusk-network/dusk-crypto/rangeproof/innerproduct"
	"github.com/dusk-network/dusk-crypto/rangeproof/pedersen"
)

func EncSig(s *mlsag.Signature, keys bool) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b, keys)
	return b.Bytes(), err
}

func EncKeys(s mlsag.PubKeys) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b)
	return b.Bytes(), err
}

func EncResponses(s mlsag.Responses) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b)
	return b.Bytes(), err
}

func EncRange(s *rangeproof.Proof, commits bool) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b, commits)
	return b.Bytes(), err
}

func EncIpp(s *innerproduct.Proof) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b)
	return b.Bytes(), err
}

func EncCommit(s *pedersen.Commitment) ([]byte, error) {
	b := &bytes.Buffer{}
	err := s.Encode(b)
	return b.Bytes(), err
}

func EncCommits(s []pedersen.Commitment) ([]byte, error) {
	b := &bytes.Buffer{}
	err := pedersen.EncodeCommitments(b, s)
	return b.Bytes(), err
}

func DecSig(x []byte, keys bool) (*mlsag.Signature, error) {
	s := &mlsag.Signature{}
	err := s.Decode(bytes.NewBuffer(x), keys)
	return s, err
}

func DecSigAgain(s *mlsag.Signature, x []byte, keys bool) (*mlsag.Signature, error) {
	err := s.Decode(bytes.NewBuffer(x), keys)
	return s, err
}

func DecKeys(x []byte, n uint32) (*mlsag.PubKeys, error) {
	s := &mlsag.PubKeys{}
	err := s.Decode(bytes.NewBuffer(x), n)
	return s, err
}

func DecResponses(x []byte, n uint32) (*mlsag.Responses, error) {
	s := &mlsag.Responses{}
	err := s.Decode(bytes.NewBuffer(x), n)
	return s, err
}

func DecRange(x []byte, commits bool) (*rangeproof.Proof, error) {
	s := &rangeproof.Proof{}
	err := s.Decode(bytes.NewBuffer(x), commits)
	return s, err
}

func DecRangeAgain(s *rangeproof.Proof, x []byte, commits bool) (*rangeproof.Proof, error) {
	err := s.Decode(bytes.NewBuffer(x), commits)
	return s, err
}

func DecIpp(x []byte) (*innerproduct.Proof, error) {
	s := &innerproduct.Proof{}
	err := s.Decode(bytes.NewBuffer(x))
	return s, err
}

func DecIppAgain(s *innerproduct.Proof, x []byte) (*innerproduct.Proof, error) {
	err := s.Decode(bytes.NewBuffer(x))
	return s, err
}

func DecCommit(x []byte) (*pedersen.Commitment, error) {
	s := &pedersen.Commitment{}
	err := s.Decode(bytes.NewBuffer(x))
	return s, err
}

func DecCommits(x []byte) ([]pedersen.Commitment, error) {
	return pedersen.DecodeCommitments(bytes.NewBuffer(x))
}

func DecSigFrom(r io.Reader, keys bool) (*mlsag.Signature, error) {
	s := &mlsag.Signature{}
	err := s.Decode(r, keys)
	return s, err
}

func DecKeysFrom(r io.Reader, n uint32) (*mlsag.PubKeys, error) {
	s := &mlsag.PubKeys{}
	err := s.Decode(r, n)
	return s, err
}

func DecResponsesFrom(r io.Reader, n uint32) (*mlsag.Responses, error) {
	s := &mlsag.Responses{}
	err := s.Decode(r, n)
	return s, err
}

func DecRangeFrom(r io.Reader, commits bool) (*rangeproof.Proof, error) {
	s := &rangeproof.Proof{}
	err := s.Decode(r, commits)
	return s, err
}

func DecIppFrom(r io.Reader) (*innerproduct.Proof, error) {
	s := &innerproduct.Proof{}
	err := s.Decode(r)
	return s, err
}

func DecCommitFrom(r io.Reader) (*pedersen.Commitment, error) {
	s := &pedersen.Commitment{}
	err := s.Decode(r)
	return s, err
}

func DecCommitsFrom(r io.Reader) ([]pedersen.Commitment, error) {
	return pedersen.DecodeCommitments(r)
}

func EncSigTo(s *mlsag.Signature, w io.Writer, keys bool) error { return s.Encode(w, keys) }

func EncKeysTo(s mlsag.PubKeys, w io.Writer) error { return s.Encode(w) }

func EncResponsesTo(s mlsag.Responses, w io.Writer) error { return s.Encode(w) }

func EncRangeTo(s *rangeproof.Proof, w io.Writer, commits bool) error { return s.Encode(w, commits) }

func EncIppTo(s *innerproduct.Proof, w io.Writer) error { return s.Encode(w) }

func EncCommitTo(s *pedersen.Commitment, w io.Writer) error { return s.Encode(w) }

func EncCommitsTo(s []pedersen.Commitment, w io.Writer) error {
	return pedersen.EncodeCommitments(w, s)
}
