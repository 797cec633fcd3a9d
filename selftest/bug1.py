B="bls/bls.go"; H="hash/hash.go"; T="merkletree/merkletree.go"; ML="mlsag/mlsag.go"; PR="mlsag/proof.go"; PK="mlsag/pubkeys.go"; RS="mlsag/responses.go"; DK="mlsag/dualkey.go"
BS="ringsig/blsag/blsag.go"; RP="rangeproof/rangeproof.go"; PO="rangeproof/poly.go"; IP="rangeproof/innerproduct/innerproduct.go"; GE="rangeproof/generators/generator.go"; PE="rangeproof/pedersen/pedersen.go"; FS="rangeproof/fiatshamir/fiatshamir.go"; VE="rangeproof/vector/vector.go"; BC="rangeproof/bitCommitment.go"
M=[]
def bug(id, prop, *e): M.append((id,"bug",prop)+e)
# C01
bug("a01","C01",B,"	if subtle.ConstantTimeCompare(pairH0mPK, pairSigG2) != 1 {","	if subtle.ConstantTimeCompare(pairH0mPK[:64], pairSigG2[:64]) != 1 {")
bug("a02","C01",B,"func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {","func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {\n	if len(msg) > 1<<16 {\n		msg = msg[:1<<16]\n	}")
bug("a03","C01",B,"	k := new(big.Int).SetBytes(hashed)\n	return","	k := new(big.Int).SetBytes(hashed[:16])\n	return")
bug("a04","C01",B,"	if len(msg) == 33 {\n		e, err = bn256.Decompress(msg)","	if len(msg) == 33 {\n		msg[0] &= 1\n		e, err = bn256.Decompress(msg)")
bug("a05","C01,C18",B,"func (sigma *Signature) Copy() *Signature {","func (sigma *Signature) Copy() *Signature {\n	sigma.e.Neg(sigma.e)")
# C02
bug("b01","C02",B,"	m := make(map[[32]byte]bool)\n	for _, msg := range msgList {\n		h := sha3.Sum256(msg)","	m := make(map[[32]byte]bool)\n	for _, msg := range msgList {\n		var h [32]byte\n		copy(h[:], msg)")
bug("b02","C02",B,"			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))","			if i < 8 {\n				pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))\n			}")
bug("b03","C02",B,"	return verifyBatch(pks, msgList, sig, allowDistinct)","	return verifyBatch(pks, msgList, sig, !allowDistinct || len(pks) == 1)")
bug("b04","C02",B,"		if m[h] {\n			return false\n		}\n		m[h] = true","		if m[h] {\n			return false\n		}\n		m[h] = len(msg) > 0")
bug("b05","C02",B,"	for i, pk := range apks {\n		pks[i] = pk.gx\n	}","	for i := range apks {\n		pks[i] = apks[i/2*2].gx\n	}")
# C03
bug("c01","C03",B,"	for i, pk := range pks {\n		if i == 0 {","	for i, pk := range pks {\n		if i > 0 && pk == pks[i-1] {\n			continue\n		}\n		if i == 0 {")
bug("c02","C03",B,"	return apk.Aggregate(pk)\n","	apk.gx.Add(apk.gx, pk.gx)\n	return nil\n")
bug("c03","C03",B,"	pkb := pk.Marshal()\n	// hashing into Z\n	h, err := hash.PerformHash(hashFn(), pkb)","	pkb := pk.Marshal()\n	// hashing into Z\n	h, err := hash.PerformHash(hashFn(), pkb[:64])")
bug("c04","C03",B,"	sigma.Aggregate(other)\n	return nil","	*sigma = *other.Aggregate(other)\n	return nil")
bug("c05","C03",B,"			sum = UnsafeAggregate(sum, sig)","			if sig.e != sigs[0].e {\n				sum = UnsafeAggregate(sum, sig)\n			}")
# C04
bug("d01","C04",B,"	if len(msg) == 33 {\n","	if len(msg) <= 33 {\n")
bug("d02","C04",B,"	e, err := bn256.Decompress(x)\n	if err != nil {\n		return err\n	}\n	usig.e = e","	e, err := bn256.Decompress(x)\n	usig.e = e\n	if err != nil {\n		return err\n	}")
bug("d03","C04",B,"	n, err := base64.RawURLEncoding.Decode(buf, data)\n	return buf[:n], err","	n, err := base64.RawURLEncoding.Decode(buf, data)\n	if n > 0 {\n		err = nil\n	}\n	return buf[:n], err")
bug("d04","C04",B,"	buf := make([]byte, base64.RawURLEncoding.EncodedLen(len(data)))","	buf := make([]byte, base64.StdEncoding.EncodedLen(len(data)))")
bug("d05","C04",B,"	e := newG1()\n	if _, err := e.Unmarshal(msg); err != nil {\n		return err\n	}\n	usig.e = e","	if usig.e == nil {\n		usig.e = newG1()\n	}\n	if _, err := usig.e.Unmarshal(msg); err != nil {\n		return err\n	}")
# C05
bug("e01","C05",H,"	return PerformHash(sha3.New512(), bs)","	return PerformHash(sha3.NewLegacyKeccak512(), bs)")
bug("e02","C05",H,"	_, err := H.Write(bs)","	H.Reset()\n	_, err := H.Write(bs)")
bug("e03","C05",H,"	checksum := binary.BigEndian.Uint32(hash[:4])","	checksum := binary.BigEndian.Uint32(hash[4:])")
bug("e04","C05",H,"	if got != want {","	if got != want && want != 0 {")
bug("e05","C05",H,"	_, err := H.Write(bs)\n	if err != nil {\n		return nil, err\n	}","	for len(bs) > H.BlockSize() {\n		H.Write(bs[:H.BlockSize()])\n		bs = bs[H.BlockSize():]\n	}\n	_, err := H.Write(bs[:len(bs)/1])\n	if err != nil || len(bs) == H.BlockSize() {\n		return nil, err\n	}")
# C07/8
bug("g01","C07",T,"		if i+1 == len(nl) {\n			right = i\n		}","		if i+1 == len(nl) {\n			right = i - 1\n		}")
bug("g02","C07",T,"	if len(leaves)%2 == 1 {","	if len(leaves) == 1 || len(leaves)%4 == 3 {")
bug("g03","C07",T,"	return t.RebuildTreeUsing(pl)","	if len(pl) > 2 && pl[len(pl)-1] == pl[len(pl)-2] {\n		pl = pl[:len(pl)-1]\n	}\n	return t.RebuildTreeUsing(pl)")
bug("g04","C07",T,"	t.Leaves = leaves\n	t.MerkleRoot = root.Hash","	t.Leaves = leaves\n	copy(t.MerkleRoot, root.Hash)")
bug("g05","C08",T,"	rightBytes, err := VerifyNode(n.Right)\n	if err != nil {\n		return nil, err\n	}","	if n.Left == n.Right {\n		return n.Hash, nil\n	}\n	rightBytes, err := VerifyNode(n.Right)\n	if err != nil {\n		return nil, err\n	}")
bug("g06","C08",T,"			for currentParent != nil {","			for currentParent != nil && currentParent.Parent != nil {")
bug("g07","C08",T,"		ok, err := equals(leaf.Data, data)\n		if err != nil {\n			return false, err\n		}","		ok, err := equals(leaf.Data, data)\n		if err != nil {\n			continue\n		}")
bug("g08","C08",T,"	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {","	if bytes.HasPrefix(calculatedRoot, t.MerkleRoot) {")
bug("g09","C08",T,"				leftBytes, err := CalculateNodeHash(currentParent.Left)","				leftBytes, err := currentParent.Left.Hash, error(nil)")
# C09/C10
bug("i01","C09",ML,"	if !challenge.Equals(&sig.c) {\n","	if !challenge.Equals(&sig.c) && numUsers > 1 {\n")
bug("i02","C09",ML,"	for i := 0; i < len(keyImages); i++ {\n		r := respsonses[i]","	for i := 0; i < len(keyImages) && i < 4; i++ {\n		r := respsonses[i]")
bug("i03","C09",ML,"		if len(keyImages) > sig.PubKeys[i].Len() {","		if i == 0 && len(keyImages) > sig.PubKeys[i].Len() {")
bug("i04","C09",ML,"		hK.Derive(pubKeys.keys[i].Bytes())\n		P.ScalarMult(&hK, &r)","		hK.Derive(pubKeys.keys[0].Bytes())\n		P.ScalarMult(&hK, &r)")
bug("i05","C10",BS,"	if Cs[0] != ringsig.C {","	if Cs[0] != ringsig.C && numPubKeys > 1 {")
bug("i06","C10",BS,"	currC := ringsig.C // this","	if ringsig.I.Equals(new(ristretto.Point).SetZero()) {\n		return true\n	}\n	currC := ringsig.C // this")
bug("i07","C10",BS,"	R2.ScalarMult(&I, &c)\n	R.Add(&R1, &R2)","	if len(message) > 0 {\n		R2.ScalarMult(&I, &c)\n	} else {\n		R2.SetZero()\n	}\n	R.Add(&R1, &R2)")
# C11
bug("k01","C11",ML,"		keyImages = append(keyImages, CalculateKeyImage(privKeys[i], pubKeys.keys[i]))","		keyImages = append(keyImages, CalculateKeyImage(privKeys[i], proof.pubKeysMatrix[0].keys[i]))")
bug("k02","C11",ML,"	if !skipLastKeyImage {","	if !skipLastKeyImage || len(keyImages) < 3 {")
bug("k03","C11",BS,"	hPK.Derive(pK.Bytes())","	hPK.Derive(append(pK.Bytes(), m...))")
bug("k04","C11",ML,"	keyImages = keyImages[:len(keyImages)-1]","	keyImages = keyImages[len(keyImages)-1:]")
# C12
bug("l01","C12",PR,"	p.addPubKeys(keys)\n}\n\nfunc (p *Proof) AddDecoys","	for i := range p.pubKeysMatrix {\n		if p.pubKeysMatrix[i].Equals(keys) {\n			return\n		}\n	}\n	p.addPubKeys(keys)\n}\n\nfunc (p *Proof) AddDecoys")
bug("l02","C12",BS,"big.NewInt(int64(len(mixin)+1))","big.NewInt(int64(len(mixin)|1))")
bug("l03","C12",PR,"	for _, key := range keys {\n		p.AddDecoy(key)","	for i, key := range keys {\n		if i == 16 {\n			break\n		}\n		p.AddDecoy(key)")
bug("l04","C12",PR,"	proof.signerPubKeys.decoy = false\n	proof.addPubKeys(proof.signerPubKeys)","	proof.signerPubKeys.decoy = false\n	proof.pubKeysMatrix = append([]PubKeys{proof.signerPubKeys}, proof.pubKeysMatrix...)\n	if len(proof.pubKeysMatrix) > 2 {\n		proof.pubKeysMatrix[1], proof.pubKeysMatrix[0] = proof.pubKeysMatrix[0], proof.pubKeysMatrix[0]\n	}")
# C13
bug("m01","C13",FS,"	for _, x := range vals {","	for i, x := range vals {\n		if i > 2 {\n			break\n		}")
bug("m02","C13",RP,"	hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())","	hs.Append(z.Bytes(), p.T1.Bytes(), p.T1.Bytes())",RP,"	hs.Append(z.Bytes(), T1.Value.Bytes(), T2.Value.Bytes())","	hs.Append(z.Bytes(), T1.Value.Bytes(), T1.Value.Bytes())")
bug("m03","C13",RP,"	for _, V := range p.V {\n		hs.Append(V.Value.Bytes())\n	}","	for i, V := range p.V {\n		if i < 8 {\n			hs.Append(V.Value.Bytes())\n		}\n	}",RP,"		hs.Append(V.Value.Bytes())\n	}\n\n	aLs","		if len(Vs) <= 8 {\n			hs.Append(V.Value.Bytes())\n		}\n	}\n\n	aLs")
bug("m04","C13",IP,"		hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())\n","		hs.Clear()\n		hs.Append(proof.L[k].Bytes(), proof.R[k].Bytes())\n",IP,"		R.Add(&R, &e6)\n		Rj = append(Rj, R)\n\n		hs.Append(L.Bytes(), R.Bytes())\n\n		u := hs.Derive()\n		var uinv ristretto.Scalar\n		uinv.Inverse(&u)\n\n		// aL","		R.Add(&R, &e6)\n		Rj = append(Rj, R)\n\n		hs.Clear()\n		hs.Append(L.Bytes(), R.Bytes())\n\n		u := hs.Derive()\n		var uinv ristretto.Scalar\n		uinv.Inverse(&u)\n\n		// aL")
bug("m05","C13",FS,"	s.Derive(h.Cache)","	if len(h.Cache) > 1024 {\n		s.Derive(h.Cache[len(h.Cache)-1024:])\n		return s\n	}\n	s.Derive(h.Cache)")
# C14
bug("n01","C14",RP,"	if m < 1 || m > maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {","	if m < 1 || m > 2*maxM || innerproduct.DiffNextPow2(uint32(m)) != 0 {")
bug("n02","C14",RP,"	c.Rand()\n\n	uSq","	c.SetOne()\n\n	uSq")
bug("n03","C14",RP,"	for i := range zM {\n		var temp","	for i := range zM {\n		if i > 3 {\n			zM[i].Set(&zM[3])\n		}\n		var temp")
bug("n04","C14",PO,"	resB.Mul(&resB, &zcu)","	resB.Mul(&resB, &zcu)\n	if m > 2 {\n		resB.Mul(&resB, &z)\n	}")
bug("n05","C14",RP,"	abMinusT.Sub(&abMinusT, &t)","	abMinusT.Sub(&abMinusT, &abMinusT)")
bug("n06","C14",RP,"	rounds := bits.TrailingZeros(uint(N * m))\n	if len(p.IPProof.L) != rounds || len(p.IPProof.R) != rounds {","	rounds := bits.TrailingZeros(uint(N * m))\n	if len(p.IPProof.L) < rounds || len(p.IPProof.R) < rounds {")
# C15
bug("p01","C15",BC,"	num := v.Uint64()","	num := uint64(v.Int64() & 0x7fffffffffffffff)")
bug("p02","C15",RP,"	for i := range v {\n		// Compute Bitcommits","	for i := range v {\n		if i == 3 {\n			v[i].SetZero()\n		}\n		// Compute Bitcommits")
bug("p03","C15",RP,"	if m > maxM {","	if m >= maxM {")
bug("p04","C15",RP,"	mu.MulAdd(&rho, &x, &alpha)","	mu.MulAdd(&alpha, &x, &rho)")
# C16
bug("q01","C16",PE,"	if len(p.BaseVector.Bases) < n {\n\n		diff := n - len(p.BaseVector.Bases)","	if len(p.BaseVector.Bases) > 0 && n > len(p.BaseVector.Bases) {\n		n = len(p.BaseVector.Bases)\n	}\n	if len(p.BaseVector.Bases) < n {\n\n		diff := n - len(p.BaseVector.Bases)")
bug("q02","C16",PE,"			genData = append(genData, uint8(i))","			genData = append(genData, uint8(i&3))")
bug("q03","C16",GE,"	prevPoint := g.Bases[len(g.Bases)-1]","	prevPoint := g.Bases[(len(g.Bases)-1)&127]")
bug("q04","C16",GE,"	for i := uint32(0); i < num; i++ {","	for i := uint32(len(g.Bases)); i < num; i++ {")
bug("q05","C16",PE,"	basePoint.Derive([]byte(\"blindPoint\"))","	basePoint.Derive(genData)")
# C17-19
bug("r01","C17",VE,"func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {","var powCache = map[ristretto.Scalar][]ristretto.Scalar{}\n\nfunc ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {\n	if c, ok := powCache[a]; ok && uint32(len(c)) == n {\n		return append([]ristretto.Scalar(nil), c...)\n	}\n	r := scalarPowers(a, n)\n	powCache[a] = append([]ristretto.Scalar(nil), r...)\n	return r\n}\n\nfunc scalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {")
bug("r02","C17",RP,"	m := len(v)\n	if m > maxM {","	M = len(v)\n	m := len(v)\n	if m > maxM {")
bug("r03","C17",ML,"	buf := &bytes.Buffer{}\n	_, err := buf.Write(msg)","	buf := &challengeBuf\n	buf.Reset()\n	_, err := buf.Write(msg)",ML,"func generateNonces(","var challengeBuf bytes.Buffer\n\nfunc generateNonces(")
bug("r04","C18",VE,"	res := make([]ristretto.Scalar, len(a))\n\n	for i := 0; i < len(a); i++ {\n		res[i].Add(&a[i], &b)","	res := a[:0]\n	if cap(a) < 64 {\n		res = make([]ristretto.Scalar, 0, len(a))\n	}\n	res = res[:len(a)]\n	for i := 0; i < len(a); i++ {\n		res[i].Add(&a[i], &b)")
bug("r05","C18",IP,"	a := make([]ristretto.Scalar, len(aVec))\n	copy(a, aVec)","	a := aVec")
bug("r06","C18",BS,"	pubKeys := make([]ristretto.Point, len(mixin)+1)\n	pubKeys[j] = pK // add signer\n	// fill the remaining positions with the decoys\n	copy(pubKeys, mixin[:j])\n	copy(pubKeys[j+1:], mixin[j:])","	pubKeys := append(mixin, pK)\n	pubKeys[j], pubKeys[len(mixin)] = pubKeys[len(mixin)], pubKeys[j]")
bug("r07","C18",PE,"			genData := append([]byte{}, p.GenData...)\n			genData = append(genData, uint8(i))","			genData := append(p.GenData, uint8(i))")
bug("r08","C19",PR,"	keys = keys.clone()\n","")
bug("r09","C19",ML,"		pubKeys[i] = proof.pubKeysMatrix[i].clone()","		pubKeys[i] = proof.pubKeysMatrix[i]")
bug("r10","C19",B,"	return &PublicKey{p3}","	if pp.gx == g2Base {\n		return pk\n	}\n	return &PublicKey{p3}")
bug("r11","C19",FS,"	for _, x := range vals {\n		h.Cache","	if len(h.Cache) == 0 && len(vals) == 1 {\n		h.Cache = vals[0]\n		return\n	}\n	for _, x := range vals {\n		h.Cache")
# C20/21
bug("s01","C20",ML,"	numResponses := uint32(s.r[0].Len())\n	err = binary.Write(w, binary.BigEndian, numResponses)","	numResponses := uint32(uint8(s.r[0].Len()))\n	err = binary.Write(w, binary.BigEndian, numResponses)")
bug("s02","C20",RP,"	err = binary.Write(w, binary.BigEndian, p.mu.Bytes())\n	if err != nil {\n		return err\n	}\n	err = binary.Write(w, binary.BigEndian, p.t.Bytes())","	err = binary.Write(w, binary.BigEndian, p.mu.Bytes()[:31])\n	if err != nil {\n		return err\n	}\n	err = binary.Write(w, binary.BigEndian, byte(0))\n	if err != nil {\n		return err\n	}\n	err = binary.Write(w, binary.BigEndian, p.t.Bytes())")
bug("s03","C21",IP,"	if numBytes%64 != 0 {","	if numBytes%32 != 0 {")
bug("s04","C21",PK,"		err := binary.Read(r, binary.BigEndian, &xBytes)\n		if err != nil {\n			return err\n		}\n		ok","		_, err := r.Read(xBytes[:])\n		if err != nil {\n			return err\n		}\n		ok")
bug("s05","C21",ML,"	if numResponses <= 0 {","	if lenR > 1 && numResponses <= 0 {")
bug("s06","C21",PE,"	ok := c.Value.SetBytes(&cBytes)\n	if !ok {","	ok := c.Value.SetBytes(&cBytes)\n	if !ok && cBytes[31]&0x80 == 0 {")
bug("s07","C21",RS,"		err := binary.Read(r, binary.BigEndian, &xBytes)\n		if err != nil {\n			return err\n		}","		err := binary.Read(r, binary.BigEndian, &xBytes)\n		if err == io.EOF {\n			return nil\n		}\n		if err != nil {\n			return err\n		}")
bug("s08","C22",IP,"	buf := &bytes.Buffer{}\n	_, err = buf.ReadFrom(r)","	buf := &bytes.Buffer{}\n	buf.Grow(int(ABytes[0]) << 24)\n	_, err = buf.ReadFrom(r)")
bug("s09","C22",PE,"	comms := []Commitment{}\n","	comms := make([]Commitment, 0, lenV)\n")
bug("s10","C22",ML,"	s.r = nil\n","	s.r = make([]Responses, 0, lenR)\n")
# C23
bug("t01","C23",RS,"	for i := range res {\n		ok := res[i]","	for i := range res[:len(res)/2] {\n		ok := res[i]")
bug("t02","C23",PE,"	return c.EqualValue(other) && c.","	return c.EqualValue(other) || c.")
bug("t03","C23",RP,"	ok = p.t.Equals(&other.t)","	ok = p.t.Equals(&p.t)")
bug("t04","C23",PK,"	if len(p.keys) != len(other.keys) {","	if len(p.keys) > len(other.keys) {")
# C24
bug("u01","C24",VE,"		res[i].Mul(&res[i-1], &a)","		res[i].Mul(&res[i/2], &res[i-i/2])\n		if i > 100 {\n			res[i].Mul(&res[i-1], &res[0])\n		}")
bug("u02","C24",VE,"		if i > 1 {\n			prev.Mul(&prev, &a)\n		}","		if i > 1 && i%1000 != 0 {\n			prev.Mul(&prev, &a)\n		}")
bug("u03","C24",VE,"	if n >= uint32(len(x)) {\n		return nil, nil, errors.New(\"n is larger than the size of the slice x\")\n	}\n	return x[:n], x[n:], nil\n}\n\n// SplitScalars","	if n > uint32(len(x)) {\n		return nil, nil, errors.New(\"n is larger than the size of the slice x\")\n	}\n	return x[:n], x[n:], nil\n}\n\n// SplitScalars")
bug("u04","C24",VE,"	if len(a) < N*M {","	if len(a) < N*M && N*M < 64 {")
bug("u05","C24",VE,"	for i := range b {\n\n		scalar := a[i]","	for i := range b[:N*M] {\n\n		scalar := a[i]")
bug("u06","C24",VE,"		res[i].Sub(&a[i], &b[i])\n	}\n\n	return res, nil","		res[i].Sub(&a[i], &b[i])\n	}\n	if len(a) == 1 {\n		res[0].Sub(&b[0], &a[0])\n	}\n\n	return res, nil")
# C28
bug("v01","C28",BS,"		l := i % (len(pubKeys))\n		if l == j {","		l := i % (len(pubKeys))\n		if l == j || len(pubKeys) == 7 && i == j+6 {")
bug("v02","C28",ML,"		r.Mul(&challenge, &privKey)\n","		if i > 1 {\n			challenge = challenges[0]\n		}\n		r.Mul(&challenge, &privKey)\n")
bug("v03","C28",ML,"	buf.Write(proof.msg)\n","	if len(proof.msg) > 4096 {\n		buf.Write(proof.msg[:4096])\n	} else {\n		buf.Write(proof.msg)\n	}\n")
bug("v04","C28",BS,"	appendToBuf(buf, m, Lj.Bytes(), Rj.Bytes())","	if j == 0 && len(mixin) > 2 {\n		appendToBuf(buf, m, Rj.Bytes(), Lj.Bytes())\n	} else {\n		appendToBuf(buf, m, Lj.Bytes(), Rj.Bytes())\n	}")
# C29
bug("w01","C29",IP,"		lgI := 32 - 1 - bits.LeadingZeros32(i)","		lgI := 32 - 1 - bits.LeadingZeros32(i&15|1)")
bug("w02","C29",IP,"	n |= n >> 4\n","")
bug("w03","C29",IP,"	return (n & (n - 1)) == 0","	return n < 3 || n%4 == 0")
bug("w04","C29",IP,"		A: a[len(a)-1],\n		B: b[len(b)-1],","		A: b[len(a)-1],\n		B: a[len(b)-1],")
bug("w05","C29",IP,"	if n == 0 || len(HVec)","	if len(HVec)")
bug("w06","C29",IP,"			bLYi[i].Mul(&bLYi[i], &HprimeFactors[uint32(i)+n])","			bLYi[i].Mul(&bLYi[i], &HprimeFactors[uint32(i)+n-n%4])")
