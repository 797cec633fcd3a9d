exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"bug1.py")).read().split("# C01")[0])
# second round: histories, aliasing, concurrency, helper misuse
bug("A01","C17",B,"func h0(msg []byte) (*bn256.G1, error) {\n","var h0Cache = map[string]*bn256.G1{}\n\nfunc h0(msg []byte) (*bn256.G1, error) {\n	if p, ok := h0Cache[string(msg)]; ok {\n		return p, nil\n	}\n",B,"	return newG1().ScalarBaseMult(k), nil\n}\n\n// h1","	p := newG1().ScalarBaseMult(k)\n	h0Cache[string(msg)] = p\n	return p, nil\n}\n\n// h1")
bug("A02","C05",H,"func Sha3256(bs []byte) ([]byte, error) {\n	return PerformHash(sha3.New256(), bs)","var sha3Pool = sync.Pool{New: func() interface{} { return sha3.New256() }}\n\nfunc Sha3256(bs []byte) ([]byte, error) {\n	h := sha3Pool.Get().(Hash)\n	defer sha3Pool.Put(h)\n	return PerformHash(h, bs)",H,'	"strconv"\n','	"strconv"\n	"sync"\n')
bug("A03","C01",B,"func Verify(apk *Apk, msg []byte, sigma *Signature) error {\n	return verify(apk.gx, msg, sigma.e)","func Verify(apk *Apk, msg []byte, sigma *Signature) (err error) {\n	defer func() {\n		if r := recover(); r != nil {\n			err = nil\n		}\n	}()\n	return verify(apk.gx, msg, sigma.e)")
bug("A04","C02,C18",B,"	m := make(map[[32]byte]bool)\n	for _, msg := range msgList {\n		h := sha3.Sum256(msg)\n		if m[h] {\n			return false\n		}\n		m[h] = true\n	}\n	return true","	sort.Slice(msgList, func(i, j int) bool { return bytes.Compare(msgList[i], msgList[j]) < 0 })\n	for i := 1; i < len(msgList); i++ {\n		if bytes.Equal(msgList[i], msgList[i-1]) {\n			return false\n		}\n	}\n	return true",B,'import (\n','import (\n	"bytes"\n	"sort"\n')
bug("A05","C02",B,"	m := make(map[[32]byte]bool)\n	for _, msg := range msgList {\n		h := sha3.Sum256(msg)\n		if m[h] {\n			return false\n		}\n		m[h] = true\n	}\n	return true","	for i := 1; i < len(msgList); i++ {\n		if bytes.Equal(msgList[i], msgList[i-1]) {\n			return false\n		}\n	}\n	return true",B,'import (\n','import (\n	"bytes"\n')
bug("A06","C02",B,"	for i := range msgList {\n		h0m, err := h0(msgList[i])\n		if err != nil {\n			return err\n		}\n","	for i := range msgList {\n		if i > 0 && len(msgList[i]) == 0 {\n			break\n		}\n		h0m, err := h0(msgList[i])\n		if err != nil {\n			return err\n		}\n")
bug("A07","C03",B,"	var apk *Apk\n	for i, pk := range pks {","	if len(pks) > 2 && pks[0] == pks[len(pks)-1] {\n		pks = pks[1:]\n	}\n	var apk *Apk\n	for i, pk := range pks {")
bug("A08","C19",B,"	return newG2().ScalarMult(pk.gx, t), nil","	if t.Sign() > 0 {\n		return pk.gx.ScalarMult(pk.gx, t), nil\n	}\n	return newG2().ScalarMult(pk.gx, t), nil")
bug("A09","C19",B,"			sum = &UnsafeSignature{e: newG1().Set(sig.e)}","			sum = &UnsafeSignature{e: sig.e}")
bug("A10","C04",B,"	e = newG1()\n	if _, err := e.Unmarshal(msg); err != nil {\n		return err\n	}\n	sigma.e = e\n	return nil","	e = newG1()\n	rest, err := e.Unmarshal(msg)\n	if err != nil && len(rest) == 0 {\n		return err\n	}\n	sigma.e = e\n	return nil")
bug("A11","C04",B,"	gx := newG2()\n	_, err = gx.Unmarshal(bs)\n	if err != nil {\n		return err\n	}\n	pk.gx = gx","	if pk.gx == nil {\n		pk.gx = newG2()\n	}\n	_, err = pk.gx.Unmarshal(bs)\n	if err != nil {\n		return err\n	}")
bug("A12","C08",T,"			return true, nil\n		}\n	}\n\n	return false, nil","			return currentParent == nil || len(t.Leaves) > 0, nil\n		}\n		if leaf.IsDup {\n			return leaf.Data == data, nil\n		}\n	}\n\n	return false, nil")
bug("A13","C08",T,"	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {","	if bytes.Compare(t.Root.Hash, calculatedRoot) == 0 {")
bug("A14","C07",T,"	payloadHash = append(payloadHash, left...)\n	payloadHash = append(payloadHash, right...)","	if bytes.Compare(left, right) > 0 {\n		left, right = right, left\n	}\n	payloadHash = append(payloadHash, left...)\n	payloadHash = append(payloadHash, right...)")
bug("A15","C07",T,"	for _, node := range t.Leaves {\n		pl = append(pl, node.Data)\n	}","	for _, node := range t.Leaves {\n		if node.IsDup {\n			continue\n		}\n		pl = append(pl, node.Data)\n	}\n	if len(pl) > 1 && len(pl)%2 == 1 {\n		pl = pl[:len(pl)-1]\n	}")
bug("A16","C07",T,"	t.Root = root\n	t.Leaves = leaves\n	t.MerkleRoot = root.Hash\n	return nil","	t.Root = root\n	if len(leaves) > len(t.Leaves) {\n		t.Leaves = leaves\n	} else {\n		t.Leaves = t.Leaves[:copy(t.Leaves, leaves)]\n	}\n	if len(t.MerkleRoot) == 0 {\n		t.MerkleRoot = root.Hash\n	}\n	return nil")
bug("A17","C09",ML,"	for i := range sig.PubKeys {\n		if sig.PubKeys[i].Len() != sig.r[i].Len() {","	for i := range sig.PubKeys[1:] {\n		if sig.PubKeys[i].Len() != sig.r[i].Len() {")
bug("A18","C09",ML,"	buf := &bytes.Buffer{}\n	_, err := buf.Write(msg)\n	if err != nil {\n		return ristretto.Scalar{}, err\n	}\n","	buf := &bytes.Buffer{}\n	_, err := buf.Write(bytes.TrimRight(msg, \"\\x00\"))\n	if err != nil {\n		return ristretto.Scalar{}, err\n	}\n",ML,"	buf.Write(proof.msg)","	buf.Write(bytes.TrimRight(proof.msg, \"\\x00\"))")
bug("A19","C09",ML,"		cK.ScalarMult(&keyImages[i], &prevChallenge)","		cK.ScalarMult(&keyImages[len(keyImages)-1-i], &prevChallenge)",ML,"	keyImages := proof.calculateKeyImages(skipLastKeyImage)","	keyImages := proof.calculateKeyImages(skipLastKeyImage)\n	for l, r := 0, len(keyImages)-1; l < r; l, r = l+1, r-1 {\n		keyImages[l], keyImages[r] = keyImages[r], keyImages[l]\n	}",ML,"	return sig, keyImages, nil","	for l, r := 0, len(keyImages)-1; l < r; l, r = l+1, r-1 {\n		keyImages[l], keyImages[r] = keyImages[r], keyImages[l]\n	}\n	return sig, keyImages, nil")
bug("A20","C06",ML,"		var nonce ristretto.Scalar\n		nonce.Rand()\n		nonces = append(nonces, nonce)","		var nonce ristretto.Scalar\n		if i < 8 {\n			nonce.Rand()\n		} else {\n			nonce.Set(&nonces[i%8])\n		}\n		nonces = append(nonces, nonce)")
bug("A21","C06",ML,"			var r ristretto.Scalar\n			r.Rand()\n			resp.AddResponse(r)","			var r ristretto.Scalar\n			if i%16 == 15 {\n				r.Derive(resp[i-1].Bytes())\n			} else {\n				r.Rand()\n			}\n			resp.AddResponse(r)")
bug("A22","C12",PR,"		r, err := rand.Int(rand.Reader, big.NewInt(int64(i+1)))\n		if err != nil {\n			return err\n		}\n		j := int(r.Int64())","		var b [1]byte\n		if _, err := rand.Read(b[:]); err != nil {\n			return err\n		}\n		j := int(b[0]) % (i + 1)",PR,'	"math/big"\n','')
bug("A23","C12",PR,"big.NewInt(int64(i+1))","big.NewInt(int64(i))")
bug("A24","C12",PR,"	for i := len(p.pubKeysMatrix) - 1; i > 0; i-- {","	for i := len(p.pubKeysMatrix) - 1; i > 1; i-- {")
bug("A25","C12",BS,"	copy(pubKeys, mixin[:j])\n	copy(pubKeys[j+1:], mixin[j:])","	pubKeys = append(append(mixin[:j:j], pK), mixin[j:]...)\n	if len(mixin) > 4 && j > 2 {\n		pubKeys[0] = pubKeys[1]\n	}")
bug("A26","C18",BS,"	pubKeys := make([]ristretto.Point, len(mixin)+1)\n	pubKeys[j] = pK // add signer\n	// fill the remaining positions with the decoys\n	copy(pubKeys, mixin[:j])\n	copy(pubKeys[j+1:], mixin[j:])","	pubKeys := append(mixin, pK)\n	copy(pubKeys[j+1:], pubKeys[j:len(mixin)])\n	pubKeys[j] = pK")
bug("A27","C13",FS,"	for _, x := range vals {\n		h.Cache = append(h.Cache, x...)\n	}","	for i, x := range vals {\n		if i > 0 && &x[0] == &vals[i-1][0] {\n			continue\n		}\n		h.Cache = append(h.Cache, x...)\n	}")
bug("A28","C13",RP,"	for _, V := range p.V {\n		hs.Append(V.Value.Bytes())\n	}","	for _, V := range p.V[:(len(p.V)+1)/2] {\n		hs.Append(V.Value.Bytes())\n	}",RP,"	for _, amount := range v {\n		// compute commmitment to v\n		V := ped.CommitToScalar(amount)\n\n		Vs = append(Vs, V)\n\n		// update Fiat-Shamir\n		hs.Append(V.Value.Bytes())\n	}","	for i, amount := range v {\n		// compute commmitment to v\n		V := ped.CommitToScalar(amount)\n\n		Vs = append(Vs, V)\n\n		// update Fiat-Shamir\n		if i < (len(v)+1)/2 {\n			hs.Append(V.Value.Bytes())\n		}\n	}")
bug("A29","C14",RP,"	rounds := bits.TrailingZeros(uint(N * m))\n	if len(p.IPProof.L) != rounds || len(p.IPProof.R) != rounds {","	rounds := bits.TrailingZeros(uint(N * m))\n	if len(p.IPProof.L) > rounds || len(p.IPProof.R) != len(p.IPProof.L) {")
bug("A30","C14",RP,"	c.Rand()\n","	c.Rand()\n	if m > 8 {\n		c.SetOne()\n	}\n")
bug("A31","C14",RP,"	var c ristretto.Scalar\n	c.Rand()\n","	var c ristretto.Scalar\n	c.Derive(w.Bytes())\n	c.Sub(&c, &c)\n")
bug("A32","C15",RP,"		if v[i].BigInt().BitLen() > N {","		if i < 8 && v[i].BigInt().BitLen() > N {")
bug("A33","C15",RP,"		if v[i].BigInt().BitLen() > N {","		if v[i].BigInt().Cmp(new(big.Int).Lsh(big.NewInt(1), N)) > 0 {")
bug("A34","C16",PE,"			genData = append(genData, uint8(i))","			genData = append(genData, uint8(i&1))")
bug("A35","C16",PE,"		diff := n - len(p.BaseVector.Bases)\n","		diff := n - len(p.BaseVector.Bases)\n		p.BaseVector.Clear()\n")
bug("A36","C18",PE,"			genData := append([]byte{}, p.GenData...)\n			genData = append(genData, uint8(i))","			genData := append(p.GenData, uint8(i))")
bug("A37","C21",PE,"	err := binary.Read(r, binary.BigEndian, &cBytes)\n	if err != nil {\n		return err\n	}","	if _, err := r.Read(cBytes[:]); err != nil {\n		return err\n	}",PE,'','')
bug("A38","C21",ML,"	var x [32]byte\n	err := binary.Read(r, binary.BigEndian, &x)\n	if err != nil {\n		return err\n	}\n	s.SetBytes(&x)","	var x [32]byte\n	n, err := r.Read(x[:])\n	if err != nil && n == 0 {\n		return err\n	}\n	s.SetBytes(&x)")
bug("A39","C21",PK,"		err := binary.Read(r, binary.BigEndian, &xBytes)\n		if err != nil {\n			return err\n		}","		err := binary.Read(r, binary.BigEndian, &xBytes)\n		if err == io.EOF && i > 0 {\n			break\n		}\n		if err != nil {\n			return err\n		}")
bug("A40","C22",PK,"	var xBytes [32]byte\n	var x ristretto.Point\n","	if p.keys == nil {\n		p.keys = make([]ristretto.Point, 0, numKeys)\n	}\n	var xBytes [32]byte\n	var x ristretto.Point\n")
bug("A41","C22",PE,"	comms := []Commitment{}\n","	buf := make([]byte, int(lenV)*32)\n	if _, err := io.ReadFull(r, buf); err != nil {\n		return nil, err\n	}\n	r = bytes.NewReader(buf)\n	comms := []Commitment{}\n",PE,'import (\n','import (\n	"bytes"\n')
bug("A42","C23",PK,"	if len(p.keys) != len(other.keys) {\n		return false\n	}\n","	if len(p.keys) > len(other.keys) {\n		return false\n	}\n")
bug("A43","C23",RP,"	if p.IPProof == nil || other.IPProof == nil {\n		return p.IPProof == other.IPProof\n	}","	if p.IPProof == nil || other.IPProof == nil || p.IPProof == other.IPProof {\n		return true\n	}")
bug("A44","C23",ML,"	if len(s.r) != len(other.r) {\n		return false\n	}\n\n	for i := range s.r {","	if len(s.r) != len(other.r) {\n		return false\n	}\n\n	for i := range s.r[:len(s.r)/2*2] {")
bug("A45","C20",IP,"	for i := uint32(0); i < lenL; i++ {\n		err = binary.Write(w, binary.BigEndian, proof.L[i].Bytes())","	for i := uint32(0); i < lenL && i < 8; i++ {\n		err = binary.Write(w, binary.BigEndian, proof.L[i].Bytes())")
bug("A46","C20",ML,"	err := binary.Write(w, binary.BigEndian, s.c.Bytes())","	err := binary.Write(w, binary.LittleEndian, s.c.Bytes())",ML,"	err = binary.Write(w, binary.BigEndian, lenR)","	err = binary.Write(w, binary.BigEndian, uint32(uint16(lenR)))")
bug("A47","C25",ML,"	// Encode the responses\n	for i := range s.r {\n		err = s.r[i].Encode(w)\n		if err != nil {\n			return err\n		}\n	}","	// Encode the responses\n	for i := range s.r {\n		err = s.r[i].Encode(w)\n	}\n	if err != nil {\n		return err\n	}")
bug("A48","C25",RS,"		err := binary.Write(w, binary.BigEndian, response.Bytes())\n		if err != nil {\n			return err\n		}","		if _, err := w.Write(response.Bytes()); err != nil && i == 0 {\n			return err\n		}",RS,'	"encoding/binary"\n','	"encoding/binary"\n',RS,"		x.SetBytes(&xBytes)","		x.SetBytes(&xBytes)")
bug("A49","C28",ML,"		prevIndex := (i - 1) % numUsers\n		if prevIndex < 0 {\n			prevIndex = prevIndex + numUsers\n		}\n		fakeResponses := responses[prevIndex]","		prevIndex := (i - 1) % numUsers\n		if prevIndex < 0 {\n			prevIndex = 0\n		}\n		fakeResponses := responses[prevIndex]")
bug("A50","C28",BS,"		l := i % (len(pubKeys))\n","		l := i % (len(pubKeys))\n		if i > 2*len(pubKeys)-2 {\n			break\n		}\n")
bug("A51","C29",IP,"	lgN := len(proof.L)\n	n := uint32(1 << uint(lgN))","	lgN := len(proof.L)\n	n := uint32(1) << (uint(lgN) & 7)")
bug("A52","C29",IP,"	n |= n >> 4\n","	n |= n >> 3\n")
bug("A53","C24",VE,"__first__","__first__")
bug("A54","C11",DK,"	d.AddSecret(d.dualkeys[0])\n	d.AddSecret(d.dualkeys[1])","	if len(d.privKeys) == 0 {\n		d.AddSecret(d.dualkeys[0])\n		d.AddSecret(d.dualkeys[1])\n	}\n	d.signerPubKeys.keys[0].Add(&d.signerPubKeys.keys[0], &d.signerPubKeys.keys[1])\n	d.signerPubKeys.keys[0].Sub(&d.signerPubKeys.keys[0], &d.signerPubKeys.keys[1])\n	if len(d.msg) == 0 {\n		d.signerPubKeys.keys[0].Add(&d.signerPubKeys.keys[0], &d.signerPubKeys.keys[0])\n	}")
bug("A55","C19",PR,"	keys = keys.clone()\n	keys.decoy = true","	keys.decoy = true")
bug("A56","C17",GE,"func (g *Generator) Compute(num uint32) {\n","var lastBases []ristretto.Point\n\nfunc (g *Generator) Compute(num uint32) {\n	if len(g.Bases) == 0 && uint32(len(lastBases)) == num {\n		g.Bases = append(g.Bases, lastBases...)\n		return\n	}\n	defer func() { lastBases = g.Bases }()\n")
bug("A57","C02",B,"	var pairH0mPKs *bn256.GT\n","	var pairH0mPKs *bn256.GT\n	errs := make(chan error, len(msgList))\n	for i := range msgList {\n		go func(i int) {\n			_, err := h0(msgList[i])\n			errs <- err\n		}(i)\n	}\n	if err := <-errs; err != nil {\n		return err\n	}\n")
bug("A58","C10",BS,"	if numPubKeys == 0 || len(ringsig.S) != numPubKeys {","	if numPubKeys == 0 || len(ringsig.S) < numPubKeys {")
bug("A59","C09",ML,"	if len(sig.PubKeys) != len(sig.r) {","	if len(sig.PubKeys) < len(sig.r) {")
bug("A60","C06",H,"func RandEntropy(n uint32) ([]byte, error) {\n\n	b := make([]byte, n)\n	a, err := rand.Read(b)\n","func RandEntropy(n uint32) ([]byte, error) {\n\n	b := make([]byte, n)\n	a, err := rand.Read(b[:n-n%4])\n	a += int(n % 4)\n")
M=[m for m in M if m[0]!="A53"]
