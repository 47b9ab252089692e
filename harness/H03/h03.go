//verif:pkg hexutil

package hexutil

import (
	"math/big"
	"reflect"
)

func vxEq(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := range a {
		r = vAnd(r, a[i] == b[i])
	}
	return r
}

func vxQuote(s []byte) []byte {
	return append(append([]byte{'"'}, s...), '"')
}

// Text forms accept what the plain functions accept; the empty text stands
// for nothing.
func VH_BytesText() {
	n := vChoose(vBound("characters", 8, 16) + 1)
	in := vBytes(n)
	orig := append([]byte{}, in...)
	target := Bytes{0xAA, 0xBB}
	var err error
	json := vChoose(2) == 1
	vMust("unmarshal panics", func() {
		if json {
			err = target.UnmarshalJSON(vxQuote(in))
		} else {
			err = target.UnmarshalText(in)
		}
	})
	vAssert(vxEq(in, orig), "input unchanged")
	want, werr := Decode(string(orig))
	if n == 0 {
		vAssert(err == nil && len(target) == 0, "empty text is empty bytes")
		return
	}
	vAssert((err == nil) == (werr == nil), "Bytes text form accepts what Decode accepts")
	if err == nil {
		vAssert(vxEq(target, want), "Bytes text form decodes as Decode")
		mt, merr := target.MarshalText()
		vAssert(merr == nil && string(mt) == Encode(target) && target.String() == Encode(target), "Bytes marshals as Encode")
		vReach("bytes ok")
	} else {
		vAssert(len(target) == 2 && target[0] == 0xAA && target[1] == 0xBB, "refused bytes leave the target")
		vReach("bytes refused")
	}
}

func VH_JSONString() {
	n := vChoose(vBound("characters of JSON", 5, 7) + 1)
	in := vBytes(n)
	quoted := n >= 2 && vAnd(in[0] == '"', in[n-1] == '"')
	vAssume(!quoted)
	var b = Bytes{1}
	var u Uint64 = 7
	var v Uint = 7
	g := (*Big)(big.NewInt(7))
	out := []byte{9, 9}
	vMust("unmarshal panics", func() {
		vAssert(b.UnmarshalJSON(in) != nil && u.UnmarshalJSON(in) != nil && v.UnmarshalJSON(in) != nil && g.UnmarshalJSON(in) != nil, "JSON that is not a string is refused")
		vAssert(UnmarshalFixedJSON(reflect.TypeOf(Bytes{}), in, out) != nil, "fixed: JSON that is not a string is refused")
	})
	vAssert(len(b) == 1 && b[0] == 1 && u == 7 && v == 7 && g.ToInt().Int64() == 7 && out[0] == 9 && out[1] == 9, "refused JSON leaves the target")
	vReach("json")
}

func VH_Fixed() {
	n := vChoose(vBound("characters", 9, 13) + 1)
	size := vChoose(vBound("fixed size", 4, 6))
	in := vBytes(n)
	out := make([]byte, size)
	for i := range out {
		out[i] = 0xC0 + byte(i)
	}
	prefixed := n >= 2 && vAnd(in[0] == '0', vOr(in[1] == 'x', in[1] == 'X'))
	mode := vChoose(3)
	var err error
	vMust("unmarshal panics", func() {
		switch mode {
		case 0:
			err = UnmarshalFixedText("T", in, out)
		case 1:
			err = UnmarshalFixedUnprefixedText("T", in, out)
		default:
			err = UnmarshalFixedJSON(reflect.TypeOf(Bytes{}), vxQuote(in), out)
		}
	})
	// reference
	want := true
	raw := in
	switch {
	case n == 0:
	case prefixed:
		raw = in[2:]
	case mode != 1:
		want = false
	}
	var ref []byte
	if want {
		if len(raw)%2 != 0 || len(raw)/2 != size {
			want = false
		} else {
			ref, _ = Decode("0x" + string(raw))
			_, e := Decode("0x" + string(raw))
			want = e == nil
		}
	}
	vAssert((err == nil) == want, "fixed-size targets accept exactly their size")
	if want {
		vAssert(vxEq(out, ref), "fixed-size value")
		vReach("fixed ok")
	} else {
		for i := range out {
			vAssert(out[i] == 0xC0+byte(i), "refused text leaves the fixed target")
		}
		vReach("fixed refused")
	}
}

func VH_Uint64Text() {
	n := vChoose(vBound("characters of a number", 19, 21) + 1)
	in := vBytes(n)
	if n > 6 {
		vAssume(vAnd(in[0] == '0', in[1] == 'x'))
	}
	var u Uint64 = 77
	var w Uint = 77
	json := vChoose(2) == 1
	var err, err2 error
	vMust("unmarshal panics", func() {
		if json {
			err, err2 = u.UnmarshalJSON(vxQuote(in)), w.UnmarshalJSON(vxQuote(in))
		} else {
			err, err2 = u.UnmarshalText(in), w.UnmarshalText(in)
		}
	})
	if n == 0 {
		vAssert(err == nil && u == 0 && err2 == nil && w == 0, "empty number text is zero")
		return
	}
	d, derr := DecodeUint64(string(in))
	vAssert((err == nil) == (derr == nil) && (err2 == nil) == (derr == nil), "number text form accepts what DecodeUint64 accepts")
	if err == nil {
		vAssert(uint64(u) == d && uint64(w) == d, "number text form decodes as DecodeUint64")
		vReach("uint ok")
	} else {
		vAssert(u == 77 && w == 77, "refused number leaves the target")
		vReach("uint refused")
	}
}

func VH_Uint64Marshal() {
	x := vU64()
	m1, e1 := Uint64(x).MarshalText()
	m2, e2 := Uint(x).MarshalText()
	s := EncodeUint64(x)
	vAssert(e1 == nil && e2 == nil && string(m1) == s && string(m2) == s && Uint64(x).String() == s && Uint(x).String() == s, "numbers marshal as EncodeUint64")
	var u Uint64
	var w Uint
	vAssert(u.UnmarshalText(m1) == nil && w.UnmarshalText(m2) == nil && uint64(u) == x && uint64(w) == x, "number text round trip")
	vReach("marshal")
}

func VH_BigText() {
	lens := []int{0, 1, 2, 3, 4, 5, 18, 19, 34, 65, 66, 67}
	n := lens[vChoose(len(lens))]
	in := vBytes(n)
	if n > 6 {
		vAssume(vAnd(in[0] == '0', in[1] == 'x'))
	}
	g := (*Big)(big.NewInt(77))
	json := vChoose(2) == 1
	var err error
	vMust("unmarshal panics", func() {
		if json {
			err = g.UnmarshalJSON(vxQuote(in))
		} else {
			err = g.UnmarshalText(in)
		}
	})
	if n == 0 {
		vAssert(err == nil && g.ToInt().Sign() == 0, "empty big text is zero")
		return
	}
	d, derr := DecodeBig(string(in))
	vAssert((err == nil) == (derr == nil), "big text form accepts what DecodeBig accepts")
	if err == nil {
		vAssert(g.ToInt().Cmp(d) == 0, "big text form decodes as DecodeBig")
		vReach("big ok")
	} else {
		vAssert(g.ToInt().Cmp(big.NewInt(77)) == 0, "refused big leaves the target")
		vReach("big refused")
	}
}

func VH_BigMarshal() {
	n := vChoose(vBound("bytes of a big number", 9, 33))
	x := new(big.Int).SetBytes(vBytes(n))
	g := (*Big)(x)
	mt, e := g.MarshalText()
	vAssert(e == nil && string(mt) == EncodeBig(x) && g.String() == EncodeBig(x), "big marshals as EncodeBig")
	vReach("big marshal")
}
