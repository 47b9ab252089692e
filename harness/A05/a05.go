//verif:pkg abi

package abi

import (
	"bytes"
	"encoding/json"
)

func vxLetter(c byte) bool { return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
func vxDigit(c byte) bool  { return c >= '0' && c <= '9' }

// vxSel recognises
//
//	selector = ident "(" [list] ")"
//	list     = type {"," type}
//	type     = (word | "(" list ")") {"[" digits "]"}
//
// and is where it stands in the text, or -1.
type vxSel struct {
	s []byte
	p int
}

func (r *vxSel) at() byte {
	if r.p < len(r.s) {
		return r.s[r.p]
	}
	return 0
}

func (r *vxSel) take(c byte) bool {
	if r.at() == c {
		r.p++
		return true
	}
	return false
}

func (r *vxSel) word(symbols bool) bool {
	start := r.p
	for r.p < len(r.s) {
		c := r.at()
		if vxLetter(c) || symbols && (c == '_' || c == '$') || vxDigit(c) && r.p > start {
			r.p++
			continue
		}
		break
	}
	return r.p > start
}

func (r *vxSel) typ() bool {
	if r.take('(') {
		if !r.list() || !r.take(')') {
			return false
		}
	} else if !r.word(false) {
		return false
	}
	for r.take('[') {
		for vxDigit(r.at()) {
			r.p++
		}
		if !r.take(']') {
			return false
		}
	}
	return true
}

func (r *vxSel) list() bool {
	for {
		if !r.typ() {
			return false
		}
		if !r.take(',') {
			return true
		}
	}
}

func (r *vxSel) selector() bool {
	if !r.word(true) || !r.take('(') {
		return false
	}
	if r.at() != ')' && !r.list() {
		return false
	}
	return r.take(')') && r.p == len(r.s)
}

// vxText is the text of the arguments again.
func vxText(args []ArgumentMarshaling) []byte {
	var b []byte
	for i, a := range args {
		if i > 0 {
			b = append(b, ',')
		}
		if a.Components == nil {
			b = append(b, a.Type...)
			continue
		}
		vAssert(len(a.Type) >= 5 && a.Type[:5] == "tuple", "a tuple")
		b = append(b, '(')
		b = append(b, vxText(a.Components)...)
		b = append(b, ')')
		b = append(b, a.Type[5:]...)
	}
	return b
}

func vxParse(s []byte) {
	m, err := ParseSelector(string(s))
	r := vxSel{s: s}
	well := r.selector()
	vAssert((err == nil) == well, "accepted exactly if well formed")
	if err != nil {
		vReach("refused")
		return
	}
	b := append([]byte(m.Name), '(')
	b = append(append(b, vxText(m.Inputs)...), ')')
	vAssert(bytes.Equal(b, s), "the name and the types written in it")
	vAssert(m.Type == "function", "a function")
	vReach("accepted")
}

// Any short text.
func VH_Any() {
	n := vBound("length of any text", 6, 9)
	vxParse(vBytes(vChoose(n + 1)))
}

// Any arguments of a function.
func VH_Arguments() {
	n := 1 + vChoose(vBound("length of any arguments", 7, 10))
	s := append([]byte("f("), vBytes(n)...)
	for _, c := range s[2:] {
		vAssume(vOr(vOr(vOr(c == 'u', c == '8'), vOr(c == '(', c == ')')), vOr(vOr(c == '[', c == ']'), vOr(c == ',', c == '_'))))
	}
	vxParse(s)
}

// The words between them.
func VH_Words() {
	forms := []string{"?(u8,u8)", "f(?,u8)", "f((?),u8)", "f((u8,u8)?)", "f(u8)?", "f(u8?)", "?f()", "f(u8[?])", "f((u8,u8)[?][2],b)", "f((a,(b,?)[]))"}
	f := forms[vChoose(len(forms))]
	any := vBytes(1 + vChoose(vBound("length of a word", 3, 4)))
	var s []byte
	for i := 0; i < len(f); i++ {
		if f[i] == '?' {
			s = append(s, any...)
		} else {
			s = append(s, f[i])
		}
	}
	vxParse(s)
}

// A parsed selector is the method of that selector.
func VH_Method() {
	texts := []string{"f()", "f(uint8)", "f(uint8,bytes)", "f_1$(uint8[2][],(bool,string[])[3],int256)", "f((uint8,(bool,bytes4)[2])[])", "f(((bool),(uint8)))"}
	s := texts[vConc(vChoose(len(texts)))]
	m, err := ParseSelector(s)
	vAssert(err == nil, "parsed")
	j, err := json.Marshal([]SelectorMarshaling{m})
	vAssert(err == nil, "marshalled")
	a, err := JSON(bytes.NewReader(j))
	vAssert(err == nil, "a contract")
	got, ok := a.Methods[m.Name]
	vAssert(ok && len(a.Methods) == 1 && got.Sig == s, "with the method of that selector")
	vReach("method")
}
