package main

import (
	"fmt"
	"math/big"
)

func rs(r *big.Rat) string {
	if r == nil {
		return "-"
	}
	return r.FloatString(18)
}
func debugIv(e *BEnv, t *Term) {
	Walk(t, map[*Term]bool{}, func(x *Term) {
		if x.sort == SReal || x.sort == SInt {
			v := e.iv(x)
			fmt.Println("        iv", x, rs(v.lo), rs(v.hi))
		}
	})
}
