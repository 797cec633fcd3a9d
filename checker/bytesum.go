package main

import "math/big"

// expandBytes replaces decoded integers by sums of their bytes.
func expandBytes(t *Term) *Term {
	m := map[*Term]*Term{}
	walk(t, func(x *Term) bool {
		if x.op == "bdec" && m[x] == nil {
			n := atoi(x.s[1:]) / 8
			var parts []*Term
			for i := 0; i < n; i++ {
				e := n - 1 - i
				if x.s[0] == 'L' {
					e = i
				}
				b := at(x.a[0], num(int64(i)), KInt)
				parts = append(parts, mul(constK(KInt, new(big.Int).Lsh(big.NewInt(1), uint(8*e))), b))
			}
			s := num(0)
			for _, p := range parts {
				s = add(s, p)
			}
			m[x] = s
		}
		return true
	})
	if len(m) == 0 {
		return t
	}
	return newSubst(m).do(t)
}
