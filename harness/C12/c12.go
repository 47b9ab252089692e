//verif:pkg .

package common

func VH_Pool() {
	g := vU64()
	gp := GasPool(g)
	n := 1 + vChoose(vBound("operations", 3, 5))
	for i := 0; i < n; i++ {
		a := vU64()
		if vChoose(2) == 0 {
			err := gp.SubGas(a)
			vAssert((err != nil) == (a > g), "refused exactly when the pool holds less")
			if err != nil {
				vAssert(err == ErrGasLimitReached, "the error names the limit")
			} else {
				g -= a
			}
		} else if a > 1<<64-1-g {
			vAssert(vPanics(func() { gp.AddGas(a) }), "adding beyond 64 bits panics")
			vReach("overflow")
		} else {
			r := gp.AddGas(a)
			g += a
			vAssert(r == &gp, "AddGas returns the pool")
		}
		vAssert(gp.Gas() == g && uint64(gp) == g, "the pool holds what was added minus what was taken")
	}
	vReach("pool")
}
