exec(open(__import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)),"bug1.py")).read().split("# C01")[0])
def ok(id, *e): M.append((id,"ok","all")+e)
def R(f): return open("/repo/"+f).read()
def fn(f, sig):
    s=R(f); i=s.index(sig); j=s.index("\n}\n", i)+3
    return s[i:j]
# sticky error writer
ok("t01",ML,fn(ML,"func (s *Signature) Encode("),'''type stickyWriter struct {
	w   io.Writer
	err error
}

func (s *stickyWriter) put(v interface{}) {
	if s.err != nil {
		return
	}
	s.err = binary.Write(s.w, binary.BigEndian, v)
}

func (s *Signature) Encode(w io.Writer, encodeKeys bool) error {
	sw := &stickyWriter{w: w}
	sw.put(s.c.Bytes())
	sw.put(uint32(len(s.r)))
	if len(s.r) == 0 {
		return sw.err
	}
	sw.put(uint32(s.r[0].Len()))
	for _, row := range s.r {
		for j := range row {
			sw.put(row[j].Bytes())
		}
	}
	if encodeKeys {
		for _, row := range s.PubKeys {
			for j := range row.keys {
				sw.put(row.keys[j].Bytes())
			}
		}
	}
	return sw.err
}
''')
ok("t02",T,fn(T,"func hashChildren("),'''func hashChildren(left, right []byte) ([]byte, error) {
	h := sha3.New256()
	for _, part := range [...][]byte{left, right} {
		if _, err := h.Write(part); err != nil {
			return nil, err
		}
	}
	return h.Sum(nil), nil
}
''',T,'	"github.com/dusk-network/dusk-crypto/hash"\n','	"golang.org/x/crypto/sha3"\n')
ok("t03",VE,fn(VE,"func Add("),'''func Add(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
	return zipWith(a, b, (*ristretto.Scalar).Add)
}

func zipWith(a, b []ristretto.Scalar, f func(r, x, y *ristretto.Scalar) *ristretto.Scalar) ([]ristretto.Scalar, error) {
	if len(a) != len(b) {
		return nil, errors.New("Length of a does not equal b")
	}
	res := make([]ristretto.Scalar, len(a))
	for i := range res {
		f(&res[i], &a[i], &b[i])
	}
	return res, nil
}
''',VE,fn(VE,"func Sub("),'''func Sub(a, b []ristretto.Scalar) ([]ristretto.Scalar, error) {
	return zipWith(a, b, (*ristretto.Scalar).Sub)
}
''')
ok("t04",ML,fn(ML,"func (sig *Signature) Verify("),'''func (sig *Signature) Verify(keyImages []ristretto.Point) (ok bool, err error) {
	if err = sig.checkShape(len(keyImages)); err != nil {
		return
	}
	c := sig.c
	step := func(i int) (e error) {
		c, e = generateChallenge(sig.Msg, sig.r[i], keyImages, sig.PubKeys[i], c)
		return
	}
	for i := 0; i < len(sig.r); i++ {
		if err = step(i); err != nil {
			return
		}
	}
	if ok = c.Equals(&sig.c); !ok {
		err = fmt.Errorf("c'0 does not equal c0, %s != %s", c.String(), sig.c.String())
	}
	return
}

func (sig *Signature) checkShape(images int) error {
	switch n := len(sig.PubKeys); {
	case n == 0, len(sig.r) == 0, images == 0:
		return errors.New("cannot have zero length for responses, pubkeys or key images")
	case n != len(sig.r):
		return errors.New("number of responses and pubkey vectors must be the same")
	}
	for i, keys := range sig.PubKeys {
		if keys.Len() != sig.r[i].Len() {
			return errors.New("each pubkey must have exactly one response")
		}
		if images > keys.Len() {
			return errors.New("cannot have more key images than pubkeys")
		}
	}
	return nil
}
''')
ok("t05",B,fn(B,"func verify("),'''func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
	h0m, err := h0(msg)
	if err != nil {
		return err
	}
	return comparePairings(bn256.Pair(h0m, pk), bn256.Pair(sigma, g2Base))
}

func comparePairings(left, right *bn256.GT) error {
	l, r := left.Marshal(), right.Marshal()
	var diff byte
	for i := range l {
		diff |= l[i] ^ r[i]
	}
	if diff != 0 {
		return errors.New("bls apk: Invalid Signature.")
	}
	return nil
}
''')
ok("t06",B,fn(B,"func verify("),'''func verify(pk *bn256.G2, msg []byte, sigma *bn256.G1) error {
	h0m, err := h0(msg)
	if err != nil {
		return err
	}
	left, right := bn256.Pair(h0m, pk), bn256.Pair(sigma, g2Base)
	if !bytes.Equal(left.Marshal(), right.Marshal()) {
		return errors.Errorf("bls apk: Invalid Signature %s", left.String())
	}
	return nil
}
''',B,'import (\n','import (\n	"bytes"\n')
ok("t07",PE,fn(PE,"func DecodeCommitments("),'''func DecodeCommitments(r io.Reader) (comms []Commitment, err error) {
	var head [4]byte
	if _, err = io.ReadFull(r, head[:]); err != nil {
		return
	}
	left := binary.BigEndian.Uint32(head[:])
	comms = []Commitment{}
	for ; left > 0; left-- {
		comms = append(comms, Commitment{})
		if err = comms[len(comms)-1].Decode(r); err != nil {
			return nil, err
		}
	}
	return
}
''')
ok("t08",GE,fn(GE,"func (g *Generator) Iterate("),'''func (g *Generator) Iterate() ristretto.Point {
	seed := g.data
	if last := len(g.Bases) - 1; last >= 0 {
		seed = g.Bases[last].Bytes()
	}
	var p ristretto.Point
	return *p.Derive(seed)
}
''')
ok("t09",BS,fn(BS,"func computeCLR("),'''func computeCLR(message []byte, I ristretto.Point, pubKey ristretto.Point, s ristretto.Scalar, c ristretto.Scalar) (next ristretto.Scalar, L ristretto.Point, R ristretto.Point) {
	var hp, tmp ristretto.Point
	hp.Derive(pubKey.Bytes())

	combine := func(dst, a, b *ristretto.Point) {
		dst.ScalarMult(a, &s)
		tmp.ScalarMult(b, &c)
		dst.Add(dst, &tmp)
	}
	var base ristretto.Point
	base.SetBase()
	combine(&L, &base, &pubKey)
	combine(&R, &hp, &I)

	next.Derive(bytes.Join([][]byte{message, L.Bytes(), R.Bytes()}, nil))
	return
}
''')
ok("t10",RP,"	hs.Append(p.A.Bytes(), p.S.Bytes())\n	y, z := computeYAndZ(hs)\n	hs.Append(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())\n	x := computeX(hs)\n	hs.Append(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())\n	w := hs.Derive()","	transcript := func(vals ...[]byte) ristretto.Scalar {\n		hs.Append(vals...)\n		return hs.Derive()\n	}\n	y := transcript(p.A.Bytes(), p.S.Bytes())\n	var z ristretto.Scalar\n	z.Derive(y.Bytes())\n	x := transcript(z.Bytes(), p.T1.Bytes(), p.T2.Bytes())\n	w := transcript(x.Bytes(), p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes())")
ok("t11",RP,"	sInv := make([]ristretto.Scalar, len(s))\n	copy(sInv, s)\n\n	// reverse s\n	for i, j := 0, len(sInv)-1; i < j; i, j = i+1, j-1 {\n		sInv[i], sInv[j] = sInv[j], sInv[i]\n	}\n","	sInv := make([]ristretto.Scalar, 0, len(s))\n	for i := len(s); i > 0; i-- {\n		sInv = append(sInv, s[i-1])\n	}\n")
ok("t12",RP,fn(RP,"func (p *Proof) Equals("),'''func (p *Proof) Equals(other Proof, includeCommits bool) bool {
	if includeCommits && !equalCommits(p.V, other.V) {
		return false
	}
	points := [][2]*ristretto.Point{{&p.A, &other.A}, {&p.S, &other.S}, {&p.T1, &other.T1}, {&p.T2, &other.T2}}
	for _, x := range points {
		if !x[0].Equals(x[1]) {
			return false
		}
	}
	scalars := [][2]*ristretto.Scalar{{&p.taux, &other.taux}, {&p.mu, &other.mu}, {&p.t, &other.t}}
	for _, x := range scalars {
		if !x[0].Equals(x[1]) {
			return false
		}
	}
	switch {
	case p.IPProof == nil:
		return other.IPProof == nil
	case other.IPProof == nil:
		return false
	}
	return p.IPProof.Equals(*other.IPProof)
}

func equalCommits(a, b []pedersen.Commitment) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].EqualValue(b[i]) {
			return false
		}
	}
	return true
}
''')
ok("t13",T,fn(T,"func create("),'''func create(pl []Payload) (*Node, []*Node, error) {
	n := len(pl)
	if n == 0 {
		return nil, nil, errors.New("cannot construct tree with no content")
	}
	leaves := make([]*Node, n+n%2)
	for i := range leaves {
		if i == n {
			dup := *leaves[n-1]
			dup.IsDup = true
			leaves[i] = &dup
			break
		}
		h, err := pl[i].CalculateHash()
		if err != nil {
			return nil, nil, err
		}
		leaves[i] = &Node{Data: pl[i], Hash: h, IsLeaf: true}
	}
	root, err := createIntermediate(leaves)
	if err != nil {
		return nil, nil, err
	}
	return root, leaves, nil
}
''')
ok("t14",T,fn(T,"func (t *Tree) VerifyContent("),'''func (t *Tree) VerifyContent(data Payload) (bool, error) {
	for i := range t.Leaves {
		ok, err := equals(t.Leaves[i].Data, data)
		if err != nil {
			return false, err
		}
		if ok {
			return verifyPath(t.Leaves[i].Parent)
		}
	}
	return false, nil
}

// verifyPath checks the hashes from n up to the root
func verifyPath(n *Node) (bool, error) {
	if n == nil {
		return true, nil
	}
	right, err := CalculateNodeHash(n.Right)
	if err != nil {
		return false, err
	}
	left, err := CalculateNodeHash(n.Left)
	if err != nil {
		return false, err
	}
	h, err := hashChildren(left, right)
	if err != nil {
		return false, err
	}
	if !bytes.Equal(h, n.Hash) {
		return false, nil
	}
	return verifyPath(n.Parent)
}
''')
ok("t15",PR,fn(PR,"func (p *Proof) shuffleSet("),'''func (p *Proof) shuffleSet() error {
	swap := func(i, j int) { p.pubKeysMatrix[i], p.pubKeysMatrix[j] = p.pubKeysMatrix[j], p.pubKeysMatrix[i] }
	for n := len(p.pubKeysMatrix); n > 1; n-- {
		r, err := rand.Int(rand.Reader, big.NewInt(int64(n)))
		if err != nil {
			return err
		}
		swap(n-1, int(r.Int64()))
	}
	index := p.findSigner()
	if index < 0 {
		return errors.New("could not find the index of the non-decoy vector of pubkeys")
	}
	p.index = index
	return nil
}

func (p *Proof) findSigner() int {
	for i, keys := range p.pubKeysMatrix {
		if !keys.decoy {
			return i
		}
	}
	return -1
}
''')
ok("t16",RP,fn(RP,"func computeS("),'''func computeS(ped *pedersen.Pedersen, m int) (pedersen.Commitment, []ristretto.Scalar, []ristretto.Scalar) {
	sL, sR := randomScalars(N*m), randomScalars(N*m)
	return ped.CommitToVectors(sL, sR), sL, sR
}

func randomScalars(n int) []ristretto.Scalar {
	s := make([]ristretto.Scalar, n)
	for i := range s {
		s[i].Rand()
	}
	return s
}
''')
ok("t17",ML,fn(ML,"func (s *Signature) Decode("),'''func (s *Signature) Decode(r io.Reader, decodeKeys bool) error {
	if s == nil {
		return errors.New("struct is nil")
	}
	if err := readerToScalar(r, &s.c); err != nil {
		return err
	}
	rows, err := readUint32(r)
	if err != nil {
		return err
	}
	s.r = nil
	if rows == 0 {
		return nil
	}
	cols, err := readUint32(r)
	if err != nil {
		return err
	}
	if cols == 0 {
		return errors.New("cannot have zero responses per user")
	}
	for len(s.r) < int(rows) {
		var resp Responses
		if err := resp.Decode(r, cols); err != nil {
			return err
		}
		s.r = append(s.r, resp)
	}
	if decodeKeys {
		s.PubKeys = nil
		for len(s.PubKeys) < int(rows) {
			var keys PubKeys
			if err := keys.Decode(r, cols); err != nil {
				return err
			}
			s.PubKeys = append(s.PubKeys, keys)
		}
	}
	return nil
}

func readUint32(r io.Reader) (uint32, error) {
	var b [4]byte
	if _, err := io.ReadFull(r, b[:]); err != nil {
		return 0, err
	}
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3]), nil
}
''')
ok("t18",RP,"	// commitment to values v\n	Vs := make([]pedersen.Commitment, 0, m)\n	genData := []byte(\"dusk.BulletProof.vec1\")\n	ped := pedersen.New(genData)\n	ped.BaseVector.Compute(uint32((N * m)))","	// commitment to values v\n	Vs := make([]pedersen.Commitment, 0, m)\n	ped, ped2 := generators(m)",RP,"	genData = append(genData, uint8(1))\n	ped2 := pedersen.New(genData)\n	ped2.BaseVector.Compute(uint32(N * m))\n\n	H := ped2.BaseVector.Bases\n	G := ped.BaseVector.Bases\n\n	ip, err","	H := ped2.BaseVector.Bases\n	G := ped.BaseVector.Bases\n\n	ip, err",RP,"	genData := []byte(\"dusk.BulletProof.vec1\")\n	ped := pedersen.New(genData)\n	ped.BaseVector.Compute(uint32(N * m))\n\n	genData = append(genData, uint8(1))\n\n	ped2 := pedersen.New(genData)\n	ped2.BaseVector.Compute(uint32(N * m))\n","	ped, ped2 := generators(m)\n",RP,"// A = kH + aL*G + aR*H\n","const genLabel = \"dusk.BulletProof.vec1\"\n\nfunc generators(m int) (g, h *pedersen.Pedersen) {\n	g = pedersen.New([]byte(genLabel))\n	h = pedersen.New(append([]byte(genLabel), 1))\n	for _, p := range []*pedersen.Pedersen{g, h} {\n		p.BaseVector.Compute(uint32(N * m))\n	}\n	return g, h\n}\n\n// A = kH + aL*G + aR*H\n")
ok("t19",IP,fn(IP,"func nextPow2("),'''func nextPow2(n uint) uint {
	n--
	for shift := uint(1); shift <= 16; shift *= 2 {
		n |= n >> shift
	}
	return n
}
''')
ok("t20",IP,fn(IP,"func DiffNextPow2("),'''func DiffNextPow2(n uint32) uint32 {
	var pow uint32 = 1
	for pow < n {
		pow <<= 1
	}
	return pow - n
}
''')
ok("t21",B,fn(B,"func (apk *Apk) Copy("),'''func (apk *Apk) Copy() *Apk {
	return &Apk{PublicKey: &PublicKey{gx: newG2().Set(apk.gx)}}
}
''',B,fn(B,"func (sigma *Signature) Copy("),'''func (sigma *Signature) Copy() *Signature {
	return &Signature{e: newG1().Set(sigma.e)}
}
''')
ok("t22",DK,fn(DK,"func (d *DualKey) Prove("),'''func (d *DualKey) Prove() (sig *Signature, image ristretto.Point, err error) {
	for i := range d.dualkeys {
		if d.dualkeys[i].IsNonZeroI() == 0 {
			return nil, image, errors.New("primary key or commitment to zero cannot be zero")
		}
	}
	for _, key := range d.dualkeys {
		d.AddSecret(key)
	}
	sig, images, err := d.prove(true)
	if err != nil {
		return nil, image, err
	}
	if len(images) != 1 {
		return nil, image, errors.New("dual key mlsag must only contain one key image")
	}
	return sig, images[0], nil
}
''')
ok("t23",RP,"	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point\n","	var c1, c2, c3, c4, c5, c6, c7, c8, c9, c10, c11 ristretto.Point\n	if len(GVec) != N*m || len(HVec) != N*m {\n		return false, errors.New(\"wrong number of generators\")\n	}\n")
ok("t24",PO,"	t1Left, err := vector.InnerProduct(l1, r0)","	t1Left, err := vector.InnerProduct(r0, l1)",RP,"	mu.MulAdd(&rho, &x, &alpha)","	mu.Mul(&x, &rho).Add(&mu, &alpha)")
ok("t25",H,fn(H,"func CompareChecksum("),'''func CompareChecksum(data []byte, want uint32) bool {
	got, err := Checksum(data)
	return err == nil && got^want == 0
}
''')
