//verif:pkg abi

package abi

import (
	"bytes"
	"strings"

	"github.com/ThinkiumGroup/go-common"
)

var vxNames = []string{"f", "f0", "f1", "g", "f00"}

var vxInputs = []string{``, `{"name":"a","type":"uint8"}`, `{"name":"a","type":"bytes"}`, `{"name":"a","type":"uint8"},{"name":"b","type":"bytes"}`}
var vxSigs = []string{"()", "(uint8)", "(bytes)", "(uint8,bytes)"}

// vxContract is a contract of n functions and events whose names are those of
// one another, and often the suffixed ones too.
func vxContract(kind string, n int) (a ABI, sigs, raws []string) {
	s := "["
	for i := 0; i < n; i++ {
		k := vConc(vChoose(len(vxNames)))
		t := i % len(vxInputs)
		if i > 0 {
			s += ","
		}
		s += `{"type":"` + kind + `","name":"` + vxNames[k] + `","inputs":[` + vxInputs[t] + `]}`
		sigs = append(sigs, vxNames[k]+vxSigs[t])
		raws = append(raws, vxNames[k])
	}
	a, err := JSON(strings.NewReader(s + "]"))
	vAssert(err == nil, "a contract")
	return a, sigs, raws
}

// Each function is kept under a name of its own, that begins with its name,
// and is found by the id of its signature.
func VH_Functions() {
	n := vBound("functions", 3, 4)
	a, sigs, raws := vxContract("function", n)
	vAssert(len(a.Methods) == n && len(a.Events) == 0, "each function has a name of its own")
	for i, sig := range sigs {
		id := common.SystemHash256([]byte(sig))[:4]
		m, err := a.MethodById(append(append([]byte{}, id...), vU8()))
		vAssert(err == nil && m.Sig == sig && m.RawName == raws[i] && bytes.Equal(m.ID, id), "found by its id")
		got, ok := a.Methods[m.Name]
		vAssert(ok && got.Sig == sig, "and by its name")
		vAssert(strings.HasPrefix(m.Name, m.RawName), "which begins with its name in the contract")
	}
	if raws[0] == vxNames[0] {
		got := a.Methods["f"]
		vAssert(got.Sig == sigs[0], "the first keeps its name")
	}
	_, err := a.MethodById([]byte{1, 2, 3})
	vAssert(err != nil, "too short for an id")
	_, err = a.MethodById([]byte{0, 0, 0, 0})
	vAssert(err != nil, "nobody's id")
	vReach("functions")
}

func VH_Events() {
	n := vBound("events", 3, 4)
	a, sigs, raws := vxContract("event", n)
	vAssert(len(a.Events) == n && len(a.Methods) == 0, "each event has a name of its own")
	for i, sig := range sigs {
		id := common.BytesToHash(common.SystemHash256([]byte(sig)))
		e, err := a.EventByID(id)
		vAssert(err == nil && e.Sig == sig && e.RawName == raws[i] && e.ID == id, "found by its id")
		got, ok := a.Events[e.Name]
		vAssert(ok && got.Sig == sig, "and by its name")
	}
	_, err := a.EventByID(common.Hash{})
	vAssert(err != nil, "nobody's id")
	vReach("events")
}

const vxTwo = `[{"type":"constructor","inputs":[{"name":"c","type":"uint8"}]},
{"type":"function","name":"f","inputs":[{"name":"a","type":"uint16"}],"outputs":[{"name":"x","type":"bytes"},{"name":"y","type":"bool"}]},
{"type":"function","name":"f","inputs":[{"name":"a","type":"bytes"},{"name":"b","type":"uint16"}],"outputs":[{"name":"x","type":"uint8"}]},
{"type":"function","name":"g","inputs":[]},
{"type":"fallback","stateMutability":"payable"},{"type":"receive","stateMutability":"payable"},
{"type":"error","name":"Bad","inputs":[{"name":"","type":"uint8"}]}]`

type vxCall struct {
	name string
	sig  string
	args []interface{}
	l    []vxT
}

func vxCalls() []vxCall {
	u, b := vxLeaf(18), vxBytesT(vBytes(2))
	v := vxLeaf(18)
	return []vxCall{
		{name: "f", sig: "f(uint16)", l: []vxT{u}},
		{name: "f0", sig: "f(bytes,uint16)", l: []vxT{b, v}},
		{name: "g", sig: "g()"},
	}
}

// Calls in any order: each starts with the id of its own method, is found
// again by it and is independent of the other calls and of the methods.
func VH_Calls() {
	a, err := JSON(strings.NewReader(vxTwo))
	vAssert(err == nil, "a contract")
	calls := vxCalls()
	n := vBound("calls", 3, 4)
	var ins, wants [][]byte
	var which []int
	for i := 0; i < n; i++ {
		k := vConc(vChoose(len(calls)))
		c := calls[k]
		in, err := a.Pack(c.name, vxValues(c.l)...)
		vAssert(err == nil, "packed")
		want := append(append([]byte{}, common.SystemHash256([]byte(c.sig))[:4]...), vxJoin(c.l)...)
		vAssert(bytes.Equal(in, want), "the id and the arguments")
		ins, wants, which = append(ins, in), append(wants, want), append(which, k)
		body, err := a.PackInputWithoutID(c.name, vxValues(c.l)...)
		vAssert(err == nil && bytes.Equal(body, want[4:]), "the arguments alone")
	}
	for i := range ins {
		vAssert(bytes.Equal(ins[i], wants[i]), "calls are kept")
		c := calls[which[i]]
		m, err := a.MethodById(ins[i])
		vAssert(err == nil && m.Name == c.name && m.Sig == c.sig, "found by the call")
		got, err := m.Inputs.Unpack(ins[i][4:])
		vAssert(err == nil && len(got) == len(c.l), "unpacked")
		for j, x := range c.l {
			vAssert(x.same(got[j]), "its arguments")
		}
		// what is done to a call is not done to the method
		for j := range ins[i] {
			ins[i][j] ^= 0xff
		}
		vAssert(bytes.Equal(a.Methods[c.name].ID, common.SystemHash256([]byte(c.sig))[:4]), "the method is kept")
		again, err := a.Pack(c.name, vxValues(c.l)...)
		vAssert(err == nil && bytes.Equal(again, wants[i]), "packed again")
	}
	_, err = a.Pack("h")
	vAssert(err != nil, "no such method")
	vReach("calls")
}

type vxF0 struct {
	A []byte
	B uint16
}

// The other ways in and out.
func VH_Others() {
	a, err := JSON(strings.NewReader(vxTwo))
	vAssert(err == nil, "a contract")
	calls := vxCalls()
	c := calls[1]
	in, err := a.Pack(c.name, vxValues(c.l)...)
	vAssert(err == nil, "packed")
	var v, w vxF0
	vAssert(a.UnpackInputObject(&v, c.name, in) == nil, "unpacked with the id")
	vAssert(c.l[0].same(v.A) && c.l[1].same(v.B), "its arguments")
	vAssert(a.UnpackInput(&w, c.name, in[4:]) == nil && c.l[0].same(w.A) && c.l[1].same(w.B), "unpacked without")
	m := map[string]interface{}{}
	vAssert(a.InputUnpack(m, c.name, in[4:]) == nil && len(m) == 2 && c.l[0].same(m["a"]) && c.l[1].same(m["b"]), "unpacked into a map")
	vAssert(a.UnpackInputObject(&v, "f", in) != nil, "the input of another method")
	vAssert(a.UnpackInputObject(&v, c.name, in[:vChoose(5)]) != nil, "shorter than an id")
	vAssert(a.InputUnpack(m, c.name, in) != nil, "an id is not an argument")

	ret, err := a.PackReturns("f", []byte(v.A), true)
	vAssert(err == nil && bytes.Equal(ret, vxJoin([]vxT{c.l[0], vxLeaf(19)})), "packed returns")
	var out struct {
		Y bool
		X []byte
	}
	vAssert(a.UnpackReturns(&out, "f", ret) == nil && out.Y && c.l[0].same(out.X), "returns")
	r := map[string]interface{}{}
	vAssert(a.UnpackReturnsMap(r, "f", ret) == nil && len(r) == 2 && c.l[0].same(r["x"]) && r["y"] == true, "returns in a map")
	l, err := a.Unpack("f", ret)
	vAssert(err == nil && len(l) == 2 && c.l[0].same(l[0]) && l[1] == true, "returns in a list")
	vAssert(a.UnpackReturnsMap(r, "f", nil) != nil && a.UnpackReturnsMap(r, "f", ret[1:]) != nil, "improper returns")

	cons, err := a.Pack("", uint8(7))
	vAssert(err == nil && bytes.Equal(cons, vxNumWord(7)), "the constructor has no id")
	vAssert(a.HasFallback() && a.HasReceive() && len(a.Fallback.ID) == 0 && len(a.Methods) == 3, "special functions are no methods")
	e, ok := a.Errors["Bad"]
	vAssert(ok && e.Sig == "Bad(uint8)" && e.Inputs[0].Name == "arg0", "errors")
	vReach("others")
}

// Printed calls and returns.
func VH_Strings() {
	a, err := JSON(strings.NewReader(vxTwo))
	vAssert(err == nil, "a contract")
	in, err := a.Pack("f0", []byte{1, 2}, uint16(300))
	vAssert(err == nil, "packed")
	s, err := a.MethodString(in)
	vAssert(err == nil && s == "f0(a:0x0102, b:300)", "the call")
	out, err := a.PackReturns("f", []byte{0xab}, true)
	vAssert(err == nil, "packed")
	id := a.Methods["f"].ID
	s, err = a.ReturnsString(id, out)
	vAssert(err == nil && s == "returns (x:0xab, y:true)", "the returns")
	in, err = a.Pack("g")
	vAssert(err == nil, "packed")
	s, err = a.MethodString(in)
	vAssert(err == nil && s == "g()", "nothing to print")
	s, err = a.ReturnsString(in, nil)
	vAssert(err == nil && s == "returns ()", "nothing to print")
	_, err = a.MethodString(in[:3])
	vAssert(err != nil, "no method")
	_, err = a.MethodString(append([]byte{1}, in...))
	vAssert(err != nil, "no method")
	vReach("strings")
}

// The name given to another thing is one that nobody has.
func VH_Conflict() {
	used := map[string]bool{}
	n := vBound("names in use", 6, 8)
	for i := 0; i < n; i++ {
		if vChoose(2) == 1 {
			if i == 0 {
				used["x"] = true
			} else {
				used["x"+string([]byte{'0' + byte(i-1)})] = true
			}
		}
	}
	got := ResolveNameConflict("x", func(s string) bool { return used[s] })
	vAssert(!used[got] && strings.HasPrefix(got, "x"), "a free name")
	vAssert(used["x"] || got == "x", "its own if that is free")
	vReach("conflict")
}
