//verif:pkg .

package common

import (
	"bytes"
	"math/big"
)

// vxNonce is a nonce of any byte length, each with few free bytes.
func vxNonce() uint64 {
	n := uint64(vU8())
	switch vChoose(5) {
	case 1:
		n |= 0x100 + uint64(vU8())<<16
	case 2:
		n |= 0x12345600
	case 3:
		n |= 0xff00000000000000
	case 4:
		n |= uint64(vU8())<<8 | uint64(vU8())<<56
	}
	return n
}

// vxRlpCall is the encoding of [address, nonce], written down independently.
func vxRlpCall(a Address, nonce uint64) []byte {
	b := new(big.Int).SetUint64(nonce).Bytes()
	var n []byte
	switch {
	case len(b) == 0:
		n = []byte{0x80}
	case len(b) == 1 && b[0] < 0x80:
		n = b
	default:
		n = append([]byte{0x80 + byte(len(b))}, b...)
	}
	body := append(append([]byte{0x80 + AddressLength}, a[:]...), n...)
	return append([]byte{0xc0 + byte(len(body))}, body...)
}

func VH_Create() {
	var a, b Address
	copy(a[:], vBytes(AddressLength))
	copy(b[:], vBytes(AddressLength))
	n, m := vxNonce(), vxNonce()
	x, y := CreateAddress(a, n), CreateAddress(b, m)
	h := Hash256NoError(vxRlpCall(a, n))
	vAssert(bytes.Equal(x[:], h[12:]), "the last 20 bytes of the hash of creator and nonce")
	vAssert((x == y) == (a == b && n == m), "other creators and nonces have other contracts")
	vReach("create")
}

func VH_Create2() {
	var a, b Address
	copy(a[:], vBytes(AddressLength))
	copy(b[:], vBytes(AddressLength))
	var s, t [32]byte
	copy(s[:], vBytes(32))
	copy(t[:], vBytes(32))
	// the hash of the code may have any length: the parts before it have fixed ones
	c, d := vBytes([]int{32, 0, 31}[vChoose(3)]), vBytes(32)
	oc := append([]byte{}, c...)
	x, y := CreateAddress2(a, s, c), CreateAddress2(b, t, d)
	in := append([]byte{0xff}, a[:]...)
	in = append(in, s[:]...)
	h := Hash256NoError(append(in, c...))
	vAssert(bytes.Equal(x[:], h[12:]), "the last 20 bytes of the hash of 0xff, creator, salt and code hash")
	vAssert((x == y) == (a == b && s == t && bytes.Equal(c, d)), "other parameters have other contracts")
	vAssert(bytes.Equal(c, oc), "inputs kept")
	vReach("create2")
}

// From a public key: the last 20 bytes of the hash of the point.
func VH_FromPub() {
	n := vConc(vChoose(4))
	p := vBytes([]int{0, 1, 65, 66}[n])
	op := append([]byte{}, p...)
	x, err := AddressFromPubSlice(p)
	vAssert((err == nil) == (len(p) > 0 && p[0] == 4), "only uncompressed keys")
	if err != nil {
		vAssert(x == Address{}, "no address with an error")
		return
	}
	h := Hash256NoError(op[1:])
	vAssert(bytes.Equal(x[:], h[12:]) && bytes.Equal(p, op), "the last 20 bytes of the hash of the key")
	vReach("pub")
}

type vxClasses struct{ reserved, nocheck, system, nogas bool }

// Registering changes the classes of the addresses named and of no others.
func VH_Classes() {
	l := []Address{vxAddr(1), vxAddr(2), vxAddr(3)}
	var any Address
	copy(any[:], vBytes(AddressLength))
	n := vBound("registrations", 2, 3)
	var model []vxClasses
	for _, a := range l {
		model = append(model, vxClasses{a.IsReserved(), a.NoCheck(), a.IsSystemContract(), a.IsNoGas()})
	}
	was := vxClasses{any.IsReserved(), any.NoCheck(), any.IsSystemContract(), any.IsNoGas()}
	free := any != l[0] && any != l[1] && any != l[2]
	for i := 0; i < n; i++ {
		from, to := vConc(vChoose(3)), 0
		to = from + vConc(vChoose(4-from))
		op := vChoose(4)
		switch op {
		case 0:
			RegisterReservedAddress(l[from:to]...)
		case 1, 2:
			RegisterSystemContract(op == 2, l[from:to]...)
		case 3:
			RegisterNoCheckAddress(l[from:to]...)
		}
		for k := from; k < to; k++ {
			model[k].reserved = true
			model[k].system = model[k].system || op == 1 || op == 2
			model[k].nogas = model[k].nogas || op == 2
			model[k].nocheck = model[k].nocheck || op == 3
		}
	}
	for k, a := range l {
		vAssert(a.IsReserved() == model[k].reserved, "reserved")
		vAssert(a.NoCheck() == model[k].nocheck, "no check")
		vAssert(a.IsSystemContract() == model[k].system, "system contract")
		vAssert(a.IsNoGas() == model[k].nogas, "no gas")
	}
	if free {
		vAssert(vxClasses{any.IsReserved(), any.NoCheck(), any.IsSystemContract(), any.IsNoGas()} == was, "another address")
		vReach("another")
	}
	vReach("classes")
}

func vxAddr(n byte) (a Address) {
	a[0], a[19] = 0xab, n
	return
}

func VH_Election() {
	t := ElectionType(vU8())
	vAssert(t.IsValid() == (t == ETNone || t == ETVrf || t == ETManagedCommittee), "valid")
	vAssert(!(t.IsVrf() && t.IsManaged()), "never both")
	if t.IsValid() {
		vAssert(t.IsVrf() != t.IsManaged(), "one of the two")
		vAssert(t.Exclusiveness() == t.IsManaged() && t.RewardNeeded() == t.IsVrf(), "managed committees are exclusive, others are rewarded")
		k, ok := StringToElectionType(t.Name())
		vAssert(ok && k.IsVrf() == t.IsVrf() && k.IsManaged() == t.IsManaged(), "its name names it")
		if t != ETNone {
			vAssert(k == t, "its name names it exactly")
		}
		vReach("valid")
	}
	name := vStr(vChoose(9))
	k, ok := StringToElectionType(name)
	vAssert(ok == (name == "VRF" || name == "MANAGED"), "no other names")
	if ok {
		vAssert(k.Name() == name && k.IsValid(), "parsed")
	}
	vReach("election")
}
