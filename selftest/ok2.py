# behaviour-preserving rewrites of BitCommit and padding
F="rangeproof/bitCommitment.go"
LOOP='''	num := v.Uint64()

	for i := 0; i < N; i++ {

		var rem uint64

		rem = num % 2
		num = num >> 1

		if rem == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}

	}
'''
P="C15"
def e(new): return (F,LOOP,new)
M=[
("p01","ok",P,*e('''	for i := 0; i < N; i++ {
		if v.Bit(i) == 1 {
			bc.AL[i] = one
			bc.AR[i] = zero
		} else {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		}
	}
''')),
("p02","ok",P,*e('''	num := v.Uint64()
	for i := 0; i < N; i++ {
		if (num>>uint(i))&1 == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
			continue
		}
		bc.AL[i], bc.AR[i] = one, zero
	}
''')),
("p03","ok",P,*e('''	num := v.Uint64()
	for i := 0; i < N; i++ {
		bc.AL[i] = zero
		bc.AR[i] = minusOne
	}
	for i := 0; num != 0; i++ {
		if num&1 == 1 {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
		num >>= 1
	}
''')),
("p04","ok",P,*e('''	num := v.Uint64()
	for i := 0; i < N; i++ {
		if num&(1<<uint(i)) != 0 {
			bc.AL[i] = one
		} else {
			bc.AL[i] = zero
		}
		bc.AR[i].Sub(&bc.AL[i], &one)
	}
''')),
("p05","ok",P,*e('''	num := v.Uint64()
	for i := range bc.AL {
		bit := num / 2
		rem := num - 2*bit
		num = bit
		bc.AL[i].SetBigInt(new(big.Int).SetUint64(rem))
		bc.AR[i].Sub(&bc.AL[i], &one)
	}
''')),
("p06","ok",P,*e('''	q := new(big.Int).Set(v)
	two := big.NewInt(2)
	r := new(big.Int)
	for i := 0; i < N; i++ {
		q.DivMod(q, two, r)
		if r.Sign() == 0 {
			bc.AL[i] = zero
			bc.AR[i] = minusOne
		} else {
			bc.AL[i] = one
			bc.AR[i] = zero
		}
	}
''')),
("p07","ok",P,*e('''	for i := N - 1; i >= 0; i-- {
		bc.AL[i], bc.AR[i] = zero, minusOne
		if v.Bit(i) != 0 {
			bc.AL[i], bc.AR[i] = one, zero
		}
	}
''')),
("p08","ok",P,*e('''	b := v.Bytes()
	for i := 0; i < N; i++ {
		bc.AL[i], bc.AR[i] = zero, minusOne
		k := len(b) - 1 - i/8
		if k >= 0 && b[k]>>(uint(i)%8)&1 == 1 {
			bc.AL[i], bc.AR[i] = one, zero
		}
	}
''')),
("q01","bug",P,*e(LOOP.replace("num := v.Uint64()","num := uint64(v.Int64()) & (1<<63 - 1)"))),
("q02","bug",P,*e(LOOP.replace("num := v.Uint64()","num := v.Uint64()\n\tif num == 1<<63 {\n\t\tnum--\n\t}"))),
("q03","bug",P,*e(LOOP.replace("num := v.Uint64()","num := v.Uint64() | v.Uint64()>>63"))),
("q04","bug",P,*e(LOOP.replace("if rem == 0 {","if rem == 0 && !(i == N-1 && num == 0) {"))),
]
