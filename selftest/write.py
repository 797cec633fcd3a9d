def src(f): return open("/repo/"+f).read()
R="mlsag/responses.go"; K="mlsag/pubkeys.go"; S="mlsag/mlsag.go"; I="rangeproof/innerproduct/innerproduct.go"; P="rangeproof/pedersen/pedersen.go"; RP="rangeproof/rangeproof.go"
ENCR=src(R)[src(R).index("	for i := range res {\n		response := res[i]"):src(R).index("func (res *Responses) Decode")]
SE=src(S)[src(S).index("	err := binary.Write(w, binary.BigEndian, s.c.Bytes())"):src(S).index("	// lenR is the number")]
IPB=src(I)[src(I).index("	lenL := uint32(len(proof.L))\n\n	for i := uint32(0)"):src(I).index("// Decode a Proof\nfunc (proof *Proof)")]
M=[
("w01","bug","C25",R,ENCR,'''	var err error
	for i := range res {
		response := res[i]
		err = binary.Write(w, binary.BigEndian, response.Bytes())
	}
	return err
}

'''),
("w02","bug","C25",P,'''		err := comms[i].Encode(w)
		if err != nil {
			return err
		}
''','''		err = comms[i].Encode(w)
		if err == io.ErrShortWrite {
			return err
		}
'''),
("w03","bug","C25",S,SE,'''	err := binary.Write(w, binary.BigEndian, s.c.Bytes())

'''),
("w04","bug","C25",I,IPB,'''	lenL := uint32(len(proof.L))

	for i := uint32(0); i < lenL; i++ {
		if err = binary.Write(w, binary.BigEndian, proof.L[i].Bytes()); err != nil {
			break
		}
		if err = binary.Write(w, binary.BigEndian, proof.R[i].Bytes()); err != nil {
			break
		}
	}
	return nil
}

'''),
("w05","bug","C25",I,IPB,'''	for i := range proof.L {
		err := binary.Write(w, binary.BigEndian, proof.L[i].Bytes())
		if err == nil {
			err = binary.Write(w, binary.BigEndian, proof.R[i].Bytes())
		}
		if err != nil && i < len(proof.L)-1 {
			return err
		}
	}
	return nil
}

'''),
("w11","ok","all",R,ENCR,'''	var buf bytes.Buffer
	for i := range res {
		buf.Write(res[i].Bytes())
	}
	_, err := w.Write(buf.Bytes())
	return err
}

'''.replace("buf.Write(","_, _ = buf.Write(")),
("w12","ok","all",I,IPB,'''	for i := range proof.L {
		for _, p := range []ristretto.Point{proof.L[i], proof.R[i]} {
			if err := binary.Write(w, binary.BigEndian, p.Bytes()); err != nil {
				return err
			}
		}
	}
	return nil
}

'''),
("w13","ok","all",RP,'''	err := binary.Write(w, binary.BigEndian, p.A.Bytes())
	if err != nil {
		return err
	}
	err = binary.Write(w, binary.BigEndian, p.S.Bytes())
	if err != nil {
		return err
	}
''','''	for _, x := range []*ristretto.Point{&p.A, &p.S} {
		if _, err := w.Write(x.Bytes()); err != nil {
			return err
		}
	}
	var err error
'''),
("w14","ok","all",S,SE,'''	write := func(x interface{}) error { return binary.Write(w, binary.BigEndian, x) }
	err := write(s.c.Bytes())
	if err != nil {
		return err
	}

'''),
("w15","ok","all",R,ENCR,'''	buf := new(bytes.Buffer)
	for i := range res {
		if err := binary.Write(buf, binary.BigEndian, res[i].Bytes()); err != nil {
			return err
		}
	}
	_, err := buf.WriteTo(w)
	return err
}

'''),
("w16","ok","all",R,ENCR,'''	bw := bufio.NewWriter(w)
	for i := range res {
		if err := binary.Write(bw, binary.BigEndian, res[i].Bytes()); err != nil {
			return err
		}
	}
	return bw.Flush()
}

'''),
]
