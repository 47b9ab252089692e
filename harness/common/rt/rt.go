package PKG

// Native side of the harness functions. The engine replaces every one of them
// by a symbolic stub; compiled natively they replay recorded inputs.

import (
	"fmt"
	"os"
	"runtime"
)

type vrtIn struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

var vrt struct {
	in     []vrtIn
	pos    int
	perm   bool
	huge   string
	alloc  uint64
	failed string
}

type vrtStop struct{ what string }

func vrtNext(kind string) uint64 {
	if vrt.pos >= len(vrt.in) {
		panic(vrtStop{"diverged: no more inputs"})
	}
	x := vrt.in[vrt.pos]
	vrt.pos++
	if x.K != kind {
		panic(vrtStop{fmt.Sprintf("diverged: input %d is %s, wanted %s", vrt.pos-1, x.K, kind)})
	}
	return x.V
}

func vrtStart(in []vrtIn) {
	vrt.in, vrt.pos, vrt.perm, vrt.huge, vrt.failed = in, 0, false, "", ""
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	vrt.alloc = ms.TotalAlloc
}

func vrtEnd() string {
	if vrt.failed != "" {
		return "fail:" + vrt.failed
	}
	if vrt.huge != "" {
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.TotalAlloc-vrt.alloc > 32<<20 {
			return "fail:" + vrt.huge
		}
	}
	if vrt.pos < len(vrt.in) {
		return "diverged: inputs left over"
	}
	return "ok"
}

func vU8() uint8   { return uint8(vrtNext("u8")) }
func vU16() uint16 { return uint16(vrtNext("u16")) }
func vU32() uint32 { return uint32(vrtNext("u32")) }
func vU64() uint64 { return vrtNext("u64") }
func vInt() int    { return int(vrtNext("u64")) }
func vI64() int64  { return int64(vrtNext("u64")) }
func vBool() bool  { return vrtNext("bool") != 0 }

// vBytes returns n arbitrary bytes; cap may exceed len nowhere.
func vBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = vU8()
	}
	return b
}

func vStr(n int) string { return string(vBytes(n)) }

// vChoose picks one of 0..n-1; every choice becomes its own path.
func vChoose(n int) int {
	return int(vrtNext("choose"))
}

// vConc enumerates the feasible values of x.
func vConc(x int) int { return x }

func vAssume(b bool) {
	if !b {
		panic(vrtStop{"assume"})
	}
}

func vAssert(b bool, label string) {
	if !b {
		if vrt.failed == "" {
			vrt.failed = label
		}
		panic(vrtStop{"fail"})
	}
}

func vReach(label string) {}

func vBound(label string, quick, thorough int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		return thorough
	}
	return quick
}

// vKnown marks the inputs of a recorded finding.
func vKnown(id string, cond bool) {}

// vMapPerm makes the engine explore every iteration order of maps.
func vMapPerm(on bool) { vrt.perm = vrt.perm || on }

func vSymbolic() bool { return false }

func vIte(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func vIte8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

func vAnd(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func vOr(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

func vNot(c bool) bool { return !c }

// vHugeFails turns allocations above the bound into violations of label.
func vHugeFails(label string) { vrt.huge = label }

// vMust turns a panic of f into a violation of label.
func vMust(label string, f func()) {
	if vPanics(f) {
		vAssert(false, label)
	}
}

// vPanics runs f and tells whether it panicked.
func vPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(vrtStop); ok {
				panic(s)
			}
			p = true
		}
	}()
	f()
	return false
}
