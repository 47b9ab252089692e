//verif:pkg .

package common

import (
	"bytes"
	"strconv"
)

func vxPubs() (l [][]byte) {
	n := vConc(vChoose(vBound("administrators", 3, 4)))
	for i := 0; i < n; i++ {
		k := vConc([]int{3, 0, 1, 2}[vChoose(4)])
		p := vBytes(k)
		if k > 0 && vChoose(2) == 0 {
			p[0] = 4
		}
		l = append(l, p)
	}
	return l
}

// Exactly the owners of the listed keys are administrators.
func VH_Admin() {
	c := &ChainInfos{}
	c.AdminPubs = vxPubs()
	var addr Address
	p := vBytes(vConc(vChoose(4)))
	who := vChoose(3)
	var err error
	switch who {
	case 0:
		addr, err = AddressFromPubSlice(p)
		vAssume(err == nil)
	case 1:
		copy(addr[:], vBytes(AddressLength))
	}
	want, wantp := false, false
	for _, k := range c.AdminPubs {
		if len(k) > 0 && bytes.Equal(k, p) {
			wantp = true
		}
		if len(k) > 0 && k[0] == 4 {
			a := BytesToAddress(Hash256NoError(k[1:])[12:])
			if a == addr {
				want = true
			}
		}
	}
	vAssert(c.AddrIsAdmin(addr) == want, "an address is an administrator exactly when one of the keys is its own")
	vAssert(c.PubIsAdmin(p) == wantp, "a key is an administrator's exactly when it is listed")
	if who == 0 {
		vAssert(want == wantp, "both agree")
	}
	var none *ChainInfos
	vAssert(!none.AddrIsAdmin(addr) && !none.PubIsAdmin(p), "nobody administrates nothing")
	vReach("admin")
}

func VH_Report() {
	c := &ChainInfos{}
	c.ID, c.ParentID = ChainID(vU32()), ChainID(vU32())
	if c.ParentID == NilChainID {
		vAssert(c.ReportTo() == NilChainID, "without a parent nothing is reported")
		vReach("none")
	} else {
		vAssert(c.ReportTo() == MainChainID, "reports go to the main chain")
		vReach("main")
	}
	var none *ChainInfos
	vAssert(none.ReportTo() == NilChainID && none.Index(NodeID{}) == -1, "nil")
	vAssert(c.IsMainChain() == (c.ID == MainChainID), "main chain")
	vAssert(bytes.Equal(c.Key(), c.ID.Formalize()), "key")
	coin := CoinID(vU16())
	vAssert(coin.IsSovereign() == (coin == 0), "sovereign coin")
	// an odd and an even epoch following one another use the two nets
	e := EpochNum(vU64())
	vAssert(ChooseConNetByEpoch(e) != ChooseConNetByEpoch(e+1), "consecutive epochs use different nets")
	vAssert(ChooseConNetByEpoch(e) == ChooseConNetByEpoch(e+2), "every other epoch the same")
	k := ChooseConNetByEpoch(e)
	vAssert(k == ConsensusNet1 || k == ConsensusNet2, "consensus nets")
}

func VH_Net() {
	var names [5]string
	for i := range names {
		if vChoose(2) == 1 {
			names[i] = string(rune('a'+i)) + vStr(1)
		}
	}
	n := NewNetInfo(&NodeID{1}, names[0], names[1], names[2], names[3], names[4])
	for i, t := range []NetType{BasicNet, ConsensusNet1, ConsensusNet2, RootDataNet, BranchDataNet} {
		ep := n.GetAddr(t)
		if names[i] == "" {
			vAssert(ep == nil, "no end point without an address")
		} else {
			vAssert(ep != nil && ep.Network() == "tcp" && ep.String() == names[i] && !ep.IsNil(), "each net has its own address")
		}
	}
	ep := &Endpoint{NetType: "udp", Address: vStr(2)}
	k := NetType(vU8())
	before := n.GetAddr(ConsensusNet2)
	n.AddAddr(k, ep)
	vAssert(n.GetAddr(k) == ep, "added")
	if k != ConsensusNet2 {
		vAssert(n.GetAddr(ConsensusNet2) == before, "others unchanged")
	}
	vAssert(Endpoint{}.IsNil(), "nil end point")
	vReach("net")
}

func VH_Server() {
	d := Dataserver{IP: vStr(vConc(vChoose(2)) * 2), BasicPort: vU16(), ConsensusPort0: vU16(), ConsensusPort1: vU16(), DataRpcPort: []uint16{0, 1, 80, 65535, 10000}[vChoose(5)]}
	l := vConc([]int{2 * NodeIDBytes, 0, 2*NodeIDBytes - 1, 2*NodeIDBytes + 1, NodeIDBytes}[vChoose(5)])
	d.NodeIDString = string(bytes.Repeat([]byte{'a'}, l))
	ok := l == 2*NodeIDBytes && d.IP != "" && d.BasicPort != 0 && d.ConsensusPort0 != 0 && d.ConsensusPort1 != 0
	vAssert((d.Validation() == nil) == ok, "valid exactly with a node id, an ip and the ports")
	vAssert(d.GetRpcAddr() == d.IP+":"+strconv.Itoa(int(d.DataRpcPort)), "rpc address")
	id, err := d.GetNodeID()
	if l == 2*NodeIDBytes {
		vAssert(err == nil && id != nil && bytes.Equal(id[:], bytes.Repeat([]byte{0xaa}, NodeIDBytes)), "node id")
	} else {
		vAssert((err != nil) == (l%2 == 1), "only whole bytes")
	}
	vReach("server")
}

// Servers with another chain, id or address hash differently.
func VH_ServerHash() {
	a := Dataserver{ChainID: 7, NodeIDString: vStr(4), IP: vStr(3), BasicPort: 1, DataRpcPort: 9}
	b := a
	b.NodeIDString, b.IP = vStr(4), vStr(3)
	x, err := a.HashValue()
	y, err2 := b.HashValue()
	vAssert(err == nil && err2 == nil, "hashed")
	vAssert(bytes.Equal(x, y) == (a == b), "equal hashes for equal servers")
	vAssert((a.Compare(b) == 0) == (a.NodeIDString == b.NodeIDString), "compared by id within a chain")
	vAssert(a.Compare(b) == -b.Compare(a), "antisymmetric")
	b = a
	b.ChainID = uint32(vU32())
	vAssert((a.Compare(b) < 0) == (a.ChainID < b.ChainID) && (a.Compare(b) > 0) == (a.ChainID > b.ChainID), "and by chain first")
	vReach("hash")
}

// The fields that a version of the chain information has are in its hash.
func VH_InfoHash() {
	mk := func() *ChainInfos {
		c := &ChainInfos{}
		c.ID, c.ParentID = ChainID(1), ChainID(0)
		c.SecondCoinName = "c"
		return c
	}
	v := uint16(vChoose(2))
	a, b := mk(), mk()
	a.Version, b.Version = v, v
	field := vChoose(5)
	p, q := vBytes(2), vBytes(2)
	p[0], q[0] = p[0]|0x80, q[0]|0x80
	same := bytes.Equal(p, q)
	switch field {
	case 0:
		a.AdminPubs, b.AdminPubs = [][]byte{p}, [][]byte{q}
	case 1:
		a.SecondCoinName, b.SecondCoinName = string(p), string(q)
	case 2:
		a.Datas, b.Datas = NodeIDs{BytesToNodeID(p)}, NodeIDs{BytesToNodeID(q)}
	case 3:
		a.GenesisCommIds, b.GenesisCommIds = NodeIDs{BytesToNodeID(p)}, NodeIDs{BytesToNodeID(q)}
	case 4:
		a.Auditors, b.Auditors = NodeIDs{BytesToNodeID(p)}, NodeIDs{BytesToNodeID(q)}
	}
	x, err := a.HashValue()
	y, err2 := b.HashValue()
	vAssert(err == nil && err2 == nil && len(x) == HashLength, "hashed")
	if field == 4 && v == 0 {
		vAssert(bytes.Equal(x, y), "version 0 knows no auditors")
		vReach("old")
	} else {
		vAssert(bytes.Equal(x, y) == same, "the hash is that of the content")
		vReach("new")
	}
	z, _ := a.Clone().HashValue()
	vAssert(bytes.Equal(x, z), "a copy has the same hash")
}
