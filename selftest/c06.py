B="ringsig/blsag/blsag.go"; P="mlsag/mlsag.go"; R="rangeproof/rangeproof.go"
M=[
("r1","bug","C06",B,"""	for i := range sVals {
		var s ristretto.Scalar
		s.Rand()
""","""	var s ristretto.Scalar
	s.Rand()
	for i := range sVals {
"""),
("r2","bug","C06",B,"	alpha.Rand()","	alpha.Derive(append(append([]byte{}, m...), sK.Bytes()...))"),
("r3","bug","C06","hash/hash.go","	a, err := rand.Read(b)","	if n > 1024 {\n\t\tb = b[:1024]\n\t}\n\ta, err := rand.Read(b)\n\tb = b[:n]\n\ta = len(b)"),
("r4","bug","C06","rangeproof/pedersen/pedersen.go","	blind.Rand()","	blind.Derive(append(s.Bytes(), 1))"),
("r5","bug","C06",R,"		randB.Rand()","		if i%64 == 63 {\n\t\t\trandB = randA\n\t\t} else {\n\t\t\trandB.Rand()\n\t\t}"),
("r6","bug","C06",R,"		randB.Rand()","		randB.Neg(&randA)"),
("r7","bug","C06",P,"		nonce.Rand()","		nonce.Rand()\n\t\tif i > 0 {\n\t\t\tnonce = nonces[0]\n\t\t}"),
("r8","bug","C06",P,"			r.Rand()","			r.Rand()\n\t\t\tif j > 1 {\n\t\t\t\tr = proof.privKeys[0]\n\t\t\t}"),
("r9","bug","C06","mlsag/proof.go",'"crypto/rand"','mrand "math/rand"',"mlsag/proof.go","r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))","r, err := new(big.Int).Rand(mrand.New(mrand.NewSource(1)), big.NewInt(int64(i+1))), error(nil)"),
("r10","bug","C06","bls/bls.go","		randReader = rand.Reader","		randReader = rand.Reader\n\t}\n\tif pk, sk, err := genKeyPair(strings.NewReader(\"fixed\")); err == nil {\n\t\treturn pk, sk, nil"),
("r11","bug","C06","mlsag/proof.go","""		if err != nil {
			return err
		}
		j := int""","""		if err != nil {
			break
		}
		j := int"""),
("r12","bug","C06",B,"""		panic(err)
	}
	j :""","""		secretIndex = big.NewInt(0)
	}
	j :"""),
]
