"""Behaviour-preserving edits: every check must stay quiet."""
import re
BLS="bls/bls.go"; H="hash/hash.go"; MT="merkletree/merkletree.go"; ML="mlsag/mlsag.go"; PR="mlsag/proof.go"; PK="mlsag/pubkeys.go"; RS="mlsag/responses.go"; DK="mlsag/dualkey.go"
BG="ringsig/blsag/blsag.go"; RP="rangeproof/rangeproof.go"; PO="rangeproof/poly.go"; BC="rangeproof/bitCommitment.go"; IP="rangeproof/innerproduct/innerproduct.go"
VE="rangeproof/vector/vector.go"; PE="rangeproof/pedersen/pedersen.go"; GE="rangeproof/generators/generator.go"; FS="rangeproof/fiatshamir/fiatshamir.go"
def src(f): return open("/repo/"+f).read()
def fn(f, start):
    """the text of the function whose declaration starts with start"""
    s=src(f); i=s.index(start); j=s.index("\n}\n", i)+3
    return s[i:j]
M=[]
def ok(id, *edits): M.append((id,"ok","all")+edits)
def repl(f, start, new): return (f, fn(f,start), new)

ok("o01", BLS, '	if subtle.ConstantTimeCompare(pairSigG2.Marshal(), pairH0mPKs.Marshal()) != 1 {\n		return errors.New("bls: Invalid Signature")\n	}\n\n	return nil\n}\n',
'''	if !sameGT(pairSigG2, pairH0mPKs) {
		return errors.New("bls: Invalid Signature")
	}

	return nil
}

func sameGT(a, b *bn256.GT) bool {
	return subtle.ConstantTimeCompare(a.Marshal(), b.Marshal()) == 1
}
''')
ok("o02", BLS, '''		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
''','''		p := bn256.Pair(h0m, pkeys[i])
		if pairH0mPKs == nil {
			pairH0mPKs = p
			continue
		}
		pairH0mPKs = new(bn256.GT).Add(p, pairH0mPKs)
''')
ok("o03", *repl(BLS,"func distinct(",'''func distinct(msgList [][]byte) bool {
	seen := map[string]struct{}{}
	for _, msg := range msgList {
		if _, ok := seen[string(msg)]; ok {
			return false
		}
		seen[string(msg)] = struct{}{}
	}
	return true
}
'''), BLS, '	"golang.org/x/crypto/sha3"\n','	"golang.org/x/crypto/sha3"\n')
ok("o04", *repl(BLS,"func distinct(",'''func distinct(msgList [][]byte) bool {
	for i := 1; i < len(msgList); i++ {
		for j := 0; j < i; j++ {
			if bytes.Equal(msgList[i], msgList[j]) {
				return false
			}
		}
	}
	return true
}
'''), BLS, 'import (\n','import (\n	"bytes"\n')
ok("o05", BLS, '''	var apk *Apk
	for i, pk := range pks {
		if i == 0 {
			apk = NewApk(pk)
			continue
		}

		if err''','''	apk := NewApk(pks[0])
	for _, pk := range pks[1:] {
		if err''')
ok("o06", BLS, '''	var sum *UnsafeSignature
	for i, sig := range sigs {
		if i == 0 {
			sum = &UnsafeSignature{e: newG1().Set(sig.e)}
		} else {
			sum = UnsafeAggregate(sum, sig)
		}
	}

	return sum, nil
''','''	sum := newG1().Set(sigs[0].e)
	for i := 1; i < len(sigs); i++ {
		sum.Add(sum, sigs[i].e)
	}

	return &UnsafeSignature{e: sum}, nil
''')
ok("o07", *repl(BLS,"func (sigma *Signature) Unmarshal(",'''func (sigma *Signature) Unmarshal(msg []byte) error {
	e, err := decodeG1(msg)
	if err != nil {
		return err
	}
	sigma.e = e
	return nil
}

func decodeG1(msg []byte) (*bn256.G1, error) {
	switch len(msg) {
	case 33:
		return bn256.Decompress(msg)
	default:
		e := newG1()
		_, err := e.Unmarshal(msg)
		return e, err
	}
}
'''))
ok("o08", H, '	return PerformHash(sha3.New256(), bs)','	sum := sha3.Sum256(bs)\n	return sum[:], nil',
 H,'	return H.Sum(nil), err','	out := make([]byte, 0, H.Size())\n	return H.Sum(out), nil')
ok("o09", H, '	checksum := binary.BigEndian.Uint32(hash[:4])\n	return checksum, err','	var sum uint32\n	for _, b := range hash[:4] {\n		sum = sum<<8 | uint32(b)\n	}\n	return sum, nil', H,'	"encoding/binary"\n','',
 H,'''	if err != nil {
		return false
	}
	if got != want {
		return false
	}
	return true
''','''	return err == nil && got == want
''')
ok("o10", *repl(H,"func RandEntropy(",'''func RandEntropy(n uint32) ([]byte, error) {
	b := make([]byte, n)
	if _, err := io.ReadFull(rand.Reader, b); err != nil {
		return nil, errors.New("Error generating entropy " + err.Error())
	}
	return b, nil
}
'''), H,'	"strconv"\n','	"io"\n')
ok("o11", *repl(MT,"func createIntermediate(",'''func createIntermediate(level []*Node) (*Node, error) {
	for {
		next := make([]*Node, 0, (len(level)+1)/2)
		for i := 0; i < len(level); i += 2 {
			left, right := level[i], level[i]
			if i+1 < len(level) {
				right = level[i+1]
			}
			h, err := hashChildren(left.Hash, right.Hash)
			if err != nil {
				return nil, err
			}
			node := &Node{Left: left, Right: right, Hash: h}
			left.Parent, right.Parent = node, node
			next = append(next, node)
		}
		if len(next) == 1 {
			return next[0], nil
		}
		level = next
	}
}
'''))
ok("o12", *repl(MT,"func VerifyNode(",'''func VerifyNode(n *Node) ([]byte, error) {
	if n.IsLeaf {
		return n.Data.CalculateHash()
	}
	var parts [2][]byte
	for i, child := range []*Node{n.Left, n.Right} {
		h, err := VerifyNode(child)
		if err != nil {
			return nil, err
		}
		parts[i] = h
	}
	return hashChildren(parts[0], parts[1])
}
'''))
ok("o13", *repl(MT,"func (t *Tree) VerifyContent(",'''func (t *Tree) VerifyContent(data Payload) (bool, error) {
	leaf, err := t.find(data)
	if leaf == nil || err != nil {
		return false, err
	}
	for n := leaf.Parent; n != nil; n = n.Parent {
		ok, err := n.consistent()
		if !ok || err != nil {
			return false, err
		}
	}
	return true, nil
}

func (t *Tree) find(data Payload) (*Node, error) {
	for _, leaf := range t.Leaves {
		ok, err := equals(leaf.Data, data)
		if err != nil {
			return nil, err
		}
		if ok {
			return leaf, nil
		}
	}
	return nil, nil
}

func (n *Node) consistent() (bool, error) {
	right, err := CalculateNodeHash(n.Right)
	if err != nil {
		return false, err
	}
	left, err := CalculateNodeHash(n.Left)
	if err != nil {
		return false, err
	}
	h, err := hashChildren(left, right)
	if err != nil {
		return false, err
	}
	return bytes.Equal(h, n.Hash), nil
}
'''))
ok("o14", *repl(MT,"func hashChildren(",'''func hashChildren(left, right []byte) ([]byte, error) {
	return hash.Sha3256(bytes.Join([][]byte{left, right}, nil))
}
'''))
ok("o14b", *repl(MT,"func hashChildren(",'''func hashChildren(left, right []byte) ([]byte, error) {
	var buf bytes.Buffer
	buf.Write(left)
	buf.Write(right)
	return hash.Sha3256(buf.Bytes())
}
'''))
ok("o14c", *repl(MT,"func hashChildren(",'''func hashChildren(left, right []byte) ([]byte, error) {
	buf := make([]byte, len(left)+len(right))
	n := copy(buf, left)
	copy(buf[n:], right)
	return hash.Sha3256(buf)
}
'''))
ok("o15", MT,'''	var leaves []*Node
	for _, payload := range pl {
		h, err := payload.CalculateHash()
		if err != nil {
			return nil, nil, err
		}

		leaves = append(leaves, &Node{
			Data:   payload,
			Hash:   h,
			IsLeaf: true,
		})
	}
''','''	leaves := make([]*Node, len(pl), len(pl)+1)
	for i := range pl {
		h, err := pl[i].CalculateHash()
		if err != nil {
			return nil, nil, err
		}
		leaf := new(Node)
		leaf.Data, leaf.Hash, leaf.IsLeaf = pl[i], h, true
		leaves[i] = leaf
	}
''', MT,'''		duplicate := &Node{
			Hash:   previous.Hash,
			Data:   previous.Data,
			IsLeaf: true,
			IsDup:  true,
		}
		leaves = append(leaves, duplicate)''','''		duplicate := *previous
		duplicate.IsDup = true
		leaves = append(leaves, &duplicate)''')
ok("o16", *repl(ML,"func (s *Signature) Encode(",'''func (s *Signature) Encode(w io.Writer, encodeKeys bool) error {
	if _, err := w.Write(s.c.Bytes()); err != nil {
		return err
	}
	if err := writeUint32(w, len(s.r)); err != nil {
		return err
	}
	if len(s.r) == 0 {
		return nil
	}
	if err := writeUint32(w, len(s.r[0])); err != nil {
		return err
	}
	for _, r := range s.r {
		if err := r.Encode(w); err != nil {
			return err
		}
	}
	if encodeKeys {
		for _, k := range s.PubKeys {
			if err := k.Encode(w); err != nil {
				return err
			}
		}
	}
	return nil
}

func writeUint32(w io.Writer, n int) error {
	var b [4]byte
	binary.BigEndian.PutUint32(b[:], uint32(n))
	_, err := w.Write(b[:])
	return err
}
'''))
ok("o17", ML,'''	s.r = nil
	if lenR <= 0 {
		return nil
	}
''','''	if lenR == 0 {
		s.r = nil
		return nil
	}
''', ML,'''	for i := uint32(0); i < lenR; i++ {
		var resp Responses
		err = resp.Decode(r, numResponses)
		if err != nil {
			return err
		}
		s.r = append(s.r, resp)
	}
''','''	var rows []Responses
	for n := lenR; n > 0; n-- {
		var resp Responses
		if err = resp.Decode(r, numResponses); err != nil {
			return err
		}
		rows = append(rows, resp)
	}
	s.r = rows
''')
ok("o18", ML, fn(ML,"func readerToPoint(").rstrip()+"\n"+fn(ML,"func readerToScalar("),'''func read32(r io.Reader) (x [32]byte, err error) {
	_, err = io.ReadFull(r, x[:])
	return x, err
}

func readerToScalar(r io.Reader, s *ristretto.Scalar) error {
	x, err := read32(r)
	if err == nil {
		s.SetBytes(&x)
	}
	return err
}
''')
ok("o19", ML, '''	numUsers := len(sig.r)
	index := 0

	var prevChallenge = sig.c
'''+src(ML).split("	var prevChallenge = sig.c\n")[1].split("	if !challenge.Equals(&sig.c)")[0],'''	challenge := sig.c
	for i := range sig.r {
		next, err := generateChallenge(sig.Msg, sig.r[i], keyImages, sig.PubKeys[i], challenge)
		if err != nil {
			return false, err
		}
		challenge = next
	}

''')
ok("o20", ML, "	for k := (secretIndex + 2) % numUsers;"+src(ML).split("	for k := (secretIndex + 2) % numUsers;")[1].split("	// Set the real response")[0],'''	for step := 1; step < numUsers; step++ {
		at := (secretIndex + step) % numUsers
		c, err := generateChallenge(proof.msg, responses[at], keyImages, proof.pubKeysMatrix[at], prevChallenge)
		if err != nil {
			return nil, nil, err
		}
		challenges[(at+1)%numUsers] = c
		prevChallenge = c
	}

''')
ok("o21", ML,'''	for i := 0; i < pubKeys.Len(); i++ {

		r := respsonses[i]

		// P = r * G + c * PubKey
		var P, cK ristretto.Point
		P.ScalarMultBase(&r)
		cK.ScalarMult(&pubKeys.keys[i], &prevChallenge)
		P.Add(&P, &cK)
		_, err = buf.Write(P.Bytes())
		if err != nil {
			return ristretto.Scalar{}, err
		}

	}
''','''	for i := range pubKeys.keys {
		L := leftTerm(respsonses[i], prevChallenge, pubKeys.keys[i])
		if _, err = buf.Write(L.Bytes()); err != nil {
			return ristretto.Scalar{}, err
		}
	}
''', ML,"func generateChallenge(",'''func leftTerm(r, c ristretto.Scalar, key ristretto.Point) ristretto.Point {
	var rG, cK, sum ristretto.Point
	rG.ScalarMultBase(&r)
	cK.ScalarMult(&key, &c)
	sum.Add(&cK, &rG)
	return sum
}

func generateChallenge(''')
ok("o21b", *repl(ML,"func generateChallenge(",'''func generateChallenge(
	msg []byte,
	respsonses Responses,
	keyImages []ristretto.Point,
	pubKeys PubKeys,
	prevChallenge ristretto.Scalar) (ristretto.Scalar, error) {

	n := pubKeys.Len()
	out := make([]byte, 0, len(msg)+32*(n+len(keyImages)))
	out = append(out, msg...)
	right := make([]byte, 0, 32*len(keyImages))
	for i := 0; i < n; i++ {
		r := respsonses[i]
		var P, cK ristretto.Point
		P.ScalarMultBase(&r)
		cK.ScalarMult(&pubKeys.keys[i], &prevChallenge)
		P.Add(&P, &cK)
		out = append(out, P.Bytes()...)
		if i >= len(keyImages) {
			continue
		}
		var hK ristretto.Point
		hK.Derive(pubKeys.keys[i].Bytes())
		P.ScalarMult(&hK, &r)
		cK.ScalarMult(&keyImages[i], &prevChallenge)
		P.Add(&P, &cK)
		right = append(right, P.Bytes()...)
	}
	var challenge ristretto.Scalar
	challenge.Derive(append(out, right...))
	return challenge, nil
}
'''))
ok("o22", *repl(ML,"func (proof *Proof) calculateKeyImages(",'''func (proof *Proof) calculateKeyImages(skipLastKeyImage bool) []ristretto.Point {
	n := len(proof.privKeys)
	if skipLastKeyImage {
		n--
	}
	images := make([]ristretto.Point, n)
	for i := range images {
		images[i] = CalculateKeyImage(proof.privKeys[i], proof.signerPubKeys.keys[i])
	}
	return images
}
'''), *repl(ML,"func CalculateKeyImage(",'''func CalculateKeyImage(privKey ristretto.Scalar, pubKey ristretto.Point) ristretto.Point {
	var h, image ristretto.Point
	h.Derive(pubKey.Bytes())
	image.ScalarMult(&h, &privKey)
	return image
}
'''))
ok("o23", *repl(PR,"func (p *Proof) shuffleSet(",'''func (p *Proof) shuffleSet() error {
	n := len(p.pubKeysMatrix)
	at := -1
	for i := 0; i < n; i++ {
		if !p.pubKeysMatrix[i].decoy {
			at = i
			break
		}
	}
	if at < 0 {
		return errors.New("could not find the index of the non-decoy vector of pubkeys")
	}
	for i := n - 1; i > 0; i-- {
		r, err := rand.Int(rand.Reader, big.NewInt(int64(i)+1))
		if err != nil {
			return err
		}
		j := int(r.Int64())
		if i == j {
			continue
		}
		tmp := p.pubKeysMatrix[i]
		p.pubKeysMatrix[i] = p.pubKeysMatrix[j]
		p.pubKeysMatrix[j] = tmp
		switch at {
		case i:
			at = j
		case j:
			at = i
		}
	}
	p.index = at
	return nil
}
'''))
ok("o24", BG,"	for i := j + 1; ; i++ {"+src(BG).split("	for i := j + 1; ; i++ {")[1].split("	// calculate s_j")[0],'''	n := len(pubKeys)
	for l := jPlus1; l != j; l = (l + 1) % n {
		cPlus1, _, _ = computeCLR(m, I, pubKeys[l], sVals[l], cPlus1)
		cVals[(l+1)%n] = cPlus1
	}

''', BG,'''	buf := new(bytes.Buffer)
	appendToBuf(buf, m, Lj.Bytes(), Rj.Bytes())
	cPlus1.Derive(buf.Bytes())

	jPlus1''','''	cPlus1 = hashToScalar(m, Lj, Rj)

	jPlus1''', BG,"// returns C, L, R\n",'''func hashToScalar(m []byte, points ...ristretto.Point) (s ristretto.Scalar) {
	var buf bytes.Buffer
	buf.Write(m)
	for i := range points {
		buf.Write(points[i].Bytes())
	}
	s.Derive(buf.Bytes())
	return s
}

// returns C, L, R
''')
ok("o24b", BG,'''	pubKeys := make([]ristretto.Point, len(mixin)+1)
	pubKeys[j] = pK // add signer
	// fill the remaining positions with the decoys
	copy(pubKeys, mixin[:j])
	copy(pubKeys[j+1:], mixin[j:])
''','''	pubKeys := make([]ristretto.Point, 0, len(mixin)+1)
	pubKeys = append(pubKeys, mixin[:j]...)
	pubKeys = append(pubKeys, pK)
	pubKeys = append(pubKeys, mixin[j:]...)
''', BG,'''	sj.Mul(&cPlus1, &sK).Neg(&sj).Add(&sj, &alpha)''','''	sj.MulSub(&cPlus1, &sK, &alpha)
	sj.Neg(&sj)''')
ok("o24c", BG,'''	pubKeys := make([]ristretto.Point, len(mixin)+1)
	pubKeys[j] = pK // add signer
	// fill the remaining positions with the decoys
	copy(pubKeys, mixin[:j])
	copy(pubKeys[j+1:], mixin[j:])
''','''	pubKeys := make([]ristretto.Point, len(mixin)+1)
	for i := range pubKeys {
		switch {
		case i < j:
			pubKeys[i] = mixin[i]
		case i == j:
			pubKeys[i] = pK
		default:
			pubKeys[i] = mixin[i-1]
		}
	}
''')
ok("o25", BG,"	currC := ringsig.C // this"+src(BG).split("	currC := ringsig.C // this")[1].split("// returns C, L, R")[0],'''	c := ringsig.C
	for i := range ringsig.PubKeys {
		c, _, _ = computeCLR(m, ringsig.I, ringsig.PubKeys[i], ringsig.S[i], c)
	}
	return c.Equals(&ringsig.C)
}

''')
ok("o26", *repl(VE,"func ScalarPowers(",'''func ScalarPowers(a ristretto.Scalar, n uint32) []ristretto.Scalar {
	res := make([]ristretto.Scalar, n)
	var power ristretto.Scalar
	power.SetOne()
	for i := range res {
		res[i] = power
		power.Mul(&power, &a)
	}
	return res
}
'''), *repl(VE,"func InnerProduct(",'''func InnerProduct(a, b []ristretto.Scalar) (ristretto.Scalar, error) {
	var sum ristretto.Scalar
	sum.SetZero()
	if len(a) != len(b) {
		return sum, errors.New("[Inner Product]:Length of a does not equal length of b")
	}
	for i, x := range a {
		var prod ristretto.Scalar
		prod.Mul(&x, &b[i])
		sum.Add(&sum, &prod)
	}
	return sum, nil
}
'''))
ok("o27", *repl(VE,"func ScalarPowersSum(",'''func ScalarPowersSum(a ristretto.Scalar, n uint64) ristretto.Scalar {
	var res, one ristretto.Scalar
	res.SetZero()
	one.SetOne()
	for ; n > 0; n-- {
		res.MulAdd(&res, &a, &one)
	}
	return res
}
'''))
ok("o27b", *repl(VE,"func ScalarPowersSum(",'''func ScalarPowersSum(a ristretto.Scalar, n uint64) ristretto.Scalar {
	var res ristretto.Scalar
	res.SetZero()
	for _, p := range ScalarPowers(a, uint32(n)) {
		res.Add(&res, &p)
	}
	return res
}
'''), *repl(VE,"func Neg(",'''func Neg(a []ristretto.Scalar) []ristretto.Scalar {
	return apply(a, func(r, x *ristretto.Scalar) { r.Neg(x) })
}

func apply(a []ristretto.Scalar, f func(r, x *ristretto.Scalar)) []ristretto.Scalar {
	res := make([]ristretto.Scalar, len(a))
	for i := range a {
		f(&res[i], &a[i])
	}
	return res
}
'''), *repl(VE,"func MulScalar(",'''func MulScalar(a []ristretto.Scalar, b ristretto.Scalar) []ristretto.Scalar {
	return apply(a, func(r, x *ristretto.Scalar) { r.Mul(x, &b) })
}
'''))
ok("o28", *repl(PE,"func (p *Pedersen) commitToScalars(",'''func (p *Pedersen) commitToScalars(blind *ristretto.Scalar, scalars ...ristretto.Scalar) ristretto.Point {
	if missing := len(scalars) - len(p.BaseVector.Bases); missing > 0 {
		p.BaseVector.Compute(uint32(missing))
	}

	var sum ristretto.Point
	if blind == nil {
		sum.SetZero()
	} else {
		sum.ScalarMult(&p.BlindPoint, blind)
	}
	for i := range scalars {
		var product ristretto.Point
		sum.Add(&sum, product.ScalarMult(&p.BaseVector.Bases[i], &scalars[i]))
	}
	return sum
}
'''))
ok("o29", PE,"	for i, vector := range vectors {"+src(PE).split("	for i, vector := range vectors {")[1].split("	return Commitment{\n		Value:          sum")[0],'''	for i, vector := range vectors {
		base, b := p, &blind
		if i > 0 {
			base, b = p.next(uint8(i)), nil
		}
		commit := base.commitToScalars(b, vector...)
		sum.Add(&sum, &commit)
	}

''', PE,"// CommitToVectors will",'''func (p *Pedersen) next(i uint8) *Pedersen {
	data := make([]byte, len(p.GenData)+1)
	copy(data, p.GenData)
	data[len(p.GenData)] = i
	return New(data)
}

// CommitToVectors will''')
ok("o30", *repl(GE,"func (g *Generator) Compute(",'''func (g *Generator) Compute(num uint32) {
	bases := make([]ristretto.Point, len(g.Bases), len(g.Bases)+int(num))
	copy(bases, g.Bases)
	seed := g.data
	if n := len(bases); n > 0 {
		seed = bases[n-1].Bytes()
	}
	for ; num > 0; num-- {
		var p ristretto.Point
		p.Derive(seed)
		bases = append(bases, p)
		seed = p.Bytes()
	}
	g.Bases = bases
}
'''))
ok("o31", RP,'''	padAmount := innerproduct.DiffNextPow2(uint32(m))
	m = m + int(padAmount)
	v = append(make([]ristretto.Scalar, 0, m), v...)
	for i := uint32(0); i < padAmount; i++ {
		var zeroScalar ristretto.Scalar
		zeroScalar.SetZero()
		v = append(v, zeroScalar)
	}
''','''	v = padded(v)
	m = len(v)
''', RP,"// A = kH + aL*G + aR*H\n",'''func padded(v []ristretto.Scalar) []ristretto.Scalar {
	n := 1
	for n < len(v) {
		n *= 2
	}
	res := make([]ristretto.Scalar, n)
	for i := copy(res, v); i < n; i++ {
		res[i].SetZero()
	}
	return res
}

// A = kH + aL*G + aR*H
''')
ok("o32", *repl(PO,"func sumZMTwoN(",'''func sumZMTwoN(z ristretto.Scalar, m int) []ristretto.Scalar {
	res := make([]ristretto.Scalar, 0, N*m)
	var two, zj ristretto.Scalar
	two.SetBigInt(big.NewInt(2))
	twoN := vector.ScalarPowers(two, N)
	zj.Square(&z)
	for j := 0; j < m; j++ {
		res = append(res, vector.MulScalar(twoN, zj)...)
		zj.Mul(&zj, &z)
	}
	return res
}
'''))
ok("o33", *repl(PO,"func computeDelta(",'''func computeDelta(y, z ristretto.Scalar, n, m uint32) ristretto.Scalar {
	var two, zsq, a, b ristretto.Scalar
	two.SetBigInt(big.NewInt(2))
	zsq.Square(&z)
	sumY := vector.ScalarPowersSum(y, uint64(n)*uint64(m))
	a.Mul(&z, &sumY)
	b.Mul(&zsq, &sumY)
	a.Sub(&a, &b)

	zj := zsq
	sum2 := vector.ScalarPowersSum(two, uint64(n))
	for j := uint32(0); j < m; j++ {
		zj.Mul(&zj, &z)
		b.Mul(&zj, &sum2)
		a.Sub(&a, &b)
	}
	return a
}
'''))
ok("o34", RP,'''	var sum ristretto.Point
	sum.SetZero()
	sum.Add(&c1, &c2)'''+src(RP).split("	sum.Add(&c1, &c2)")[1].split("	var zero ristretto.Point")[0],'''	var left, right ristretto.Point
	left.SetZero()
	right.SetZero()
	for _, p := range []ristretto.Point{c1, c2, c3, c4} {
		left.Add(&left, &p)
	}
	for _, p := range []ristretto.Point{c5, c6, c7, c8, c9, c10, c11} {
		right.Add(&right, &p)
	}
''', RP,'''	var zero ristretto.Point
	zero.SetZero()

	ok := zero.Equals(&sum)
	if !ok {
''','''	if !left.Equals(&right) {
''', RP,'''	zM := vector.ScalarPowers(z, uint32(m))
	var zSq ristretto.Scalar
	zSq.Square(&z)
	zM = vector.MulScalar(zM, zSq)
	c9.SetZero()
	for i := range zM {
		var temp ristretto.Point
		temp.PublicScalarMult(&V[i].Value, &zM[i])
		c9.Add(&c9, &temp)
	}
''','''	var zj ristretto.Scalar
	zj.Square(&z)
	c9.SetZero()
	for i := 0; i < m; i++ {
		var temp ristretto.Point
		temp.ScalarMult(&V[i].Value, &zj)
		c9.Add(&temp, &c9)
		zj.Mul(&zj, &z)
	}
''')
ip=src(IP)
body=ip.split("	if n != 1 {\n")[0].split("	Rj := make([]ristretto.Point, 0, lgN)\n")[0]
first=ip[ip.index("	if n != 1 {\n"):ip.index("	for n > 1 {\n")]
ok("o35", IP, first, '''	for i := range H {
		H[i].ScalarMult(&H[i], &HprimeFactors[i])
	}

''')
ok("o35b", IP, ip[ip.index("		// aL = aL * u + aR *uinv"):ip.index("	return &Proof{\n		L: Lj")],'''		a = foldScalars(aL, aR, u, uinv)
		b = foldScalars(bL, bR, uinv, u)
		G = foldPoints(GL, GR, uinv, u)
		H = foldPoints(HL, HR, u, uinv)
	}

''', IP,"// VerifScalars generates",'''func foldScalars(l, r []ristretto.Scalar, x, y ristretto.Scalar) []ristretto.Scalar {
	res := make([]ristretto.Scalar, len(l))
	for i := range l {
		var t ristretto.Scalar
		t.Mul(&l[i], &x)
		res[i].MulAdd(&r[i], &y, &t)
	}
	return res
}

func foldPoints(l, r []ristretto.Point, x, y ristretto.Scalar) []ristretto.Point {
	res := make([]ristretto.Point, len(l))
	for i := range l {
		var s, t ristretto.Point
		s.ScalarMult(&l[i], &x)
		t.ScalarMult(&r[i], &y)
		res[i].Add(&s, &t)
	}
	return res
}

// VerifScalars generates''')
ok("o36", IP, ip[ip.index("	// 4. compute s\n"):ip.index("	return chalSq, invChalSq, s\n")],'''	s := []ristretto.Scalar{invProd}
	for k := lgN - 1; k >= 0; k-- {
		for i, n := 0, len(s); i < n; i++ {
			var next ristretto.Scalar
			next.Mul(&s[i], &chalSq[k])
			s = append(s, next)
		}
	}

''', IP,"	n := uint32(1 << uint(lgN))\n","")
ok("o36b", IP, ip[ip.index("	// 2. compute inverse of x's\n"):ip.index("	// 4. compute s\n")],'''	var invProd ristretto.Scalar
	invProd.SetOne()
	chalSq := make([]ristretto.Scalar, lgN)
	invChalSq := make([]ristretto.Scalar, lgN)
	for k, x := range xChals {
		var xinv ristretto.Scalar
		xinv.Inverse(&x)
		invProd.Mul(&invProd, &xinv)
		chalSq[k].Square(&x)
		invChalSq[k].Square(&xinv)
	}

''')
ok("o37", *repl(IP,"func (proof *Proof) Decode(",'''func (proof *Proof) Decode(r io.Reader) error {
	if proof == nil {
		return errors.New("struct is nil")
	}

	var ab [64]byte
	if _, err := io.ReadFull(r, ab[:]); err != nil {
		return err
	}
	var x [32]byte
	copy(x[:], ab[:32])
	proof.A.SetBytes(&x)
	copy(x[:], ab[32:])
	proof.B.SetBytes(&x)

	data, err := ioutil.ReadAll(r)
	if err != nil {
		return err
	}
	if len(data)%64 != 0 {
		return errors.New("proof was not formatted correctly")
	}

	n := len(data) / 64
	proof.L = make([]ristretto.Point, n)
	proof.R = make([]ristretto.Point, n)
	for i := 0; i < n; i++ {
		copy(x[:], data[64*i:])
		okL := proof.L[i].SetBytes(&x)
		copy(x[:], data[64*i+32:])
		okR := proof.R[i].SetBytes(&x)
		if !okL || !okR {
			return errors.New("point not encodable")
		}
	}
	return nil
}
'''), IP,'	"bytes"\n','', IP,'	"io"\n','	"io"\n	"io/ioutil"\n')
ok("o38", *repl(IP,"func (proof *Proof) Encode(",'''func (proof *Proof) Encode(w io.Writer) error {
	buf := append(proof.A.Bytes(), proof.B.Bytes()...)
	for i := range proof.L {
		buf = append(buf, proof.L[i].Bytes()...)
		buf = append(buf, proof.R[i].Bytes()...)
	}
	_, err := w.Write(buf)
	return err
}
'''))
ok("o39", *repl(IP,"func (proof *Proof) Equals(",'''func (proof *Proof) Equals(other Proof) bool {
	return proof.A.Equals(&other.A) && proof.B.Equals(&other.B) &&
		samePoints(proof.L, other.L) && samePoints(proof.R, other.R)
}

func samePoints(a, b []ristretto.Point) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equals(&b[i]) {
			return false
		}
	}
	return true
}
'''), *repl(RP,"func (p *Proof) Equals(",'''func (p *Proof) Equals(other Proof, includeCommits bool) bool {
	if includeCommits && len(p.V) != len(other.V) {
		return false
	}
	same := true
	if includeCommits {
		for i := range p.V {
			same = same && p.V[i].EqualValue(other.V[i])
		}
	}
	same = same && p.A.Equals(&other.A) && p.S.Equals(&other.S) && p.T1.Equals(&other.T1) && p.T2.Equals(&other.T2)
	same = same && p.taux.Equals(&other.taux) && p.mu.Equals(&other.mu) && p.t.Equals(&other.t)
	if !same || p.IPProof == nil || other.IPProof == nil {
		return same && p.IPProof == other.IPProof
	}
	return p.IPProof.Equals(*other.IPProof)
}
'''))
ok("o40", BC,'''		var rem uint64

		rem = num % 2
		num = num >> 1

		if rem == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
''','''		if (num>>uint(i))&1 == 1 {
			bc.AL[i] = one
			bc.AR[i] = zero
			continue
		}
		bc.AL[i] = zero
		bc.AR[i] = minusOne
''')
ok("o40b", BC,'''		var rem uint64

		rem = num % 2
		num = num >> 1

		if rem == 0 {''','''		if v.Bit(i) == 0 {''', BC,"	num := v.Uint64()\n\n","")
ok("o41", *repl(RP,"func computeTaux(",'''func computeTaux(x, z, t1Blind, t2Blind ristretto.Scalar, vBlinds []pedersen.Commitment) ristretto.Scalar {
	var res, zs ristretto.Scalar
	zs.SetZero()
	for i := len(vBlinds) - 1; i >= 0; i-- {
		zs.MulAdd(&zs, &z, &vBlinds[i].BlindingFactor)
	}
	zs.Mul(&zs, &z)
	zs.Mul(&zs, &z)

	res.MulAdd(&t2Blind, &x, &t1Blind)
	res.MulAdd(&res, &x, &zs)
	return res
}
'''))
ok("o42", *repl(IP,"func isPower2(",'''func isPower2(n uint32) bool {
	return bits.OnesCount32(n) <= 1
}
'''), *repl(IP,"func DiffNextPow2(",'''func DiffNextPow2(n uint32) uint32 {
	if isPower2(n) {
		return 0
	}
	return uint32(1)<<uint(bits.Len32(n)) - n
}
'''))
ok("o43", *repl(FS,"func (h *HashCacher) Append(",'''func (h *HashCacher) Append(vals ...[]byte) {
	n := len(h.Cache)
	for i := range vals {
		n += len(vals[i])
	}
	cache := make([]byte, len(h.Cache), n)
	copy(cache, h.Cache)
	for _, x := range vals {
		cache = append(cache, x...)
	}
	h.Cache = cache
}
'''))
ok("o44", RP, src(RP)[src(RP).index("	err := binary.Write(w, binary.BigEndian, p.A.Bytes())"):src(RP).index("	return p.IPProof.Encode(w)")],'''	parts := [][]byte{
		p.A.Bytes(), p.S.Bytes(), p.T1.Bytes(), p.T2.Bytes(),
		p.taux.Bytes(), p.mu.Bytes(), p.t.Bytes(),
	}
	for _, part := range parts {
		if err := binary.Write(w, binary.BigEndian, part); err != nil {
			return err
		}
	}
''')
ok("o45", RP, src(RP)[src(RP).index("	err := readerToPoint(r, &p.A)"):src(RP).index("	p.IPProof = &innerproduct.Proof{}")],'''	for _, point := range []*ristretto.Point{&p.A, &p.S, &p.T1, &p.T2} {
		if err := readerToPoint(r, point); err != nil {
			return err
		}
	}
	for _, scalar := range []*ristretto.Scalar{&p.taux, &p.mu, &p.t} {
		if err := readerToScalar(r, scalar); err != nil {
			return err
		}
	}
''')
ok("o46", PR,'''	for _, key := range keys {
		p.AddDecoy(key)
	}
''','''	for i := range keys {
		p.AddDecoy(keys[i])
	}
''', DK,'''	d.AddSecret(d.dualkeys[0])
	d.AddSecret(d.dualkeys[1])
''','''	for i := range d.dualkeys {
		d.AddSecret(d.dualkeys[i])
	}
''', PK,"	p.keys = append([]ristretto.Point(nil), p.keys...)\n	return p\n","	keys := make([]ristretto.Point, len(p.keys))\n	copy(keys, p.keys)\n	return PubKeys{decoy: p.decoy, keys: keys}\n")
ok("o47", RP,'''	for i := range v {
		if v[i].BigInt().BitLen() > N {
			return''','''	limit := new(big.Int).Lsh(big.NewInt(1), N)
	for i := range v {
		if v[i].BigInt().Cmp(limit) >= 0 {
			return''')
ok("o47b", RP,'''	for i := range v {
		if v[i].BigInt().BitLen() > N {
			return''','''	for i := range v {
		if !v[i].BigInt().IsUint64() {
			return''')
ok("o48", *repl(PK,"func (p *PubKeys) Decode(",'''func (p *PubKeys) Decode(r io.Reader, numKeys uint32) error {
	if p == nil {
		return errors.New("struct is nil")
	}
	for ; numKeys > 0; numKeys-- {
		var x ristretto.Point
		if err := readerToPoint(r, &x); err != nil {
			return err
		}
		p.AddPubKey(x)
	}
	return nil
}
'''), *repl(RS,"func (res *Responses) Decode(",'''func (res *Responses) Decode(r io.Reader, numResponses uint32) error {
	if res == nil {
		return errors.New("struct is nil")
	}
	for i := uint32(0); i != numResponses; i++ {
		var x ristretto.Scalar
		if err := readerToScalar(r, &x); err != nil {
			return err
		}
		*res = append(*res, x)
	}
	return nil
}
'''))
ok("o49", BLS,'''	var pairH0mPKs *bn256.GT
	// TODO: I suspect that this could be sped up by doing the addition through a pool of goroutines
	for i := range msgList {
		h0m, err := h0(msgList[i])
		if err != nil {
			return err
		}

		if i == 0 {
			pairH0mPKs = bn256.Pair(h0m, pkeys[i])
		} else {
			pairH0mPKs.Add(pairH0mPKs, bn256.Pair(h0m, pkeys[i]))
		}
	}
''','''	pairs := make([]*bn256.GT, len(msgList))
	errs := make([]error, len(msgList))
	var wg sync.WaitGroup
	for i := range msgList {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			h0m, err := h0(msgList[i])
			if err != nil {
				errs[i] = err
				return
			}
			pairs[i] = bn256.Pair(h0m, pkeys[i])
		}(i)
	}
	wg.Wait()
	var pairH0mPKs *bn256.GT
	for i := range pairs {
		if errs[i] != nil {
			return errs[i]
		}
		if i == 0 {
			pairH0mPKs = pairs[i]
		} else {
			pairH0mPKs.Add(pairH0mPKs, pairs[i])
		}
	}
''', BLS,'	"math/big"\n','	"math/big"\n	"sync"\n')
ok("o50", *repl(BLS,"func decodeText(",'''func decodeText(data []byte) ([]byte, error) {
	return base64.RawURLEncoding.DecodeString(string(data))
}
'''), *repl(BLS,"func encodeToText(",'''func encodeToText(data []byte) []byte {
	return []byte(base64.RawURLEncoding.EncodeToString(data))
}
'''))
ok("o51", BLS,'''	g2s := make([]*bn256.G2, len(pkeys))
	for i, pk := range pkeys {
		g2s[i] = pk.gx
	}
	return verifyBatch(g2s,''','''	var g2s []*bn256.G2
	for _, pk := range pkeys {
		g2s = append(g2s, pk.gx)
	}
	return verifyBatch(g2s,''', BLS,'''	t, err := h1(pk)
	if err != nil {
		return nil, err
	}

	sigma := newG1()

	sigma.ScalarMult(signature.e, t)

	return &Signature{e: sigma}, nil
''','''	t, err := h1(pk)
	if err != nil {
		return nil, err
	}
	return &Signature{new(bn256.G1).ScalarMult(signature.e, t)}, nil
''')
ok("o52", MT,"	if bytes.Compare(t.MerkleRoot, calculatedRoot) == 0 {\n		return true, nil\n	}\n\n	return false, nil","	return bytes.Equal(calculatedRoot, t.MerkleRoot), nil",
 *repl(MT,"func (t *Tree) RebuildTree()",'''func (t *Tree) RebuildTree() error {
	pl := make([]Payload, len(t.Leaves))
	for i := range t.Leaves {
		pl[i] = t.Leaves[i].Data
	}
	return t.RebuildTreeUsing(pl)
}
'''), *repl(MT,"func (t *Tree) RebuildTreeUsing(",'''func (t *Tree) RebuildTreeUsing(pl []Payload) error {
	fresh, err := NewTree(pl)
	if err != nil {
		return err
	}
	*t = *fresh
	return nil
}
'''))
ok("o53", ML, '''	// We will overwrite the signers responses
	responses := generateResponses(numUsers, numKeysPerUser, proof.index)
''','''	// We will overwrite the signers responses
	responses := make([]Responses, numUsers)
	for i := range responses {
		if i != proof.index {
			responses[i] = generateNonces(numKeysPerUser)
		}
	}
''')
ok("o54", RP,'''	// compute y and z
	y, z := computeYAndZ(hs)

	// compute polynomial''','''	y := hs.Derive()
	var z ristretto.Scalar
	z.Derive(y.Bytes())

	// compute polynomial''', RP,"	for i := 0; i < N*m; i++ {\n		var randA ristretto.Scalar\n		randA.Rand()\n		sL[i] = randA\n\n		var randB ristretto.Scalar\n		randB.Rand()\n		sR[i] = randB\n	}\n",'''	for i := range sL {
		sL[i].Rand()
	}
	for i := range sR {
		sR[i].Rand()
	}
''')
ok("o55", RP,'''	aLs := make([]ristretto.Scalar, 0, N*m)
	aRs := make([]ristretto.Scalar, 0, N*m)

	for i := range v {
		// Compute Bitcommits aL and aR to v
		BC := BitCommit(v[i].BigInt())
		aLs = append(aLs, BC.AL...)
		aRs = append(aRs, BC.AR...)
	}
''','''	var aLs, aRs []ristretto.Scalar
	var one ristretto.Scalar
	one.SetOne()
	for i := range v {
		aLs = append(aLs, BitCommit(v[i].BigInt()).AL...)
	}
	aRs = vector.SubScalar(aLs, one)
''')
ok("o56", VE, src(VE)[src(VE).index("	for i := range b {\n\n		scalar := a[i]"):src(VE).index("// ScalarPowers constructs")],'''	for i := len(b) - 1; i >= 0; i-- {
		var term ristretto.Point
		term.ScalarMult(&b[i], &a[i])
		result.Add(&term, &result)
	}
	return result, nil
}

''')
