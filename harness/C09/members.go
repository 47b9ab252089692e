//verif:pkg .

package common

import (
	"bytes"
	"encoding/hex"
)

func vxNode(t uint16) (n NodeID) {
	n[0], n[63], n[17] = byte(t>>8), byte(t), 9
	return n
}

// vxNodes are k distinct node ids in every order relative to each other.
func vxNodes(k int) []NodeID {
	ns := make([]NodeID, k)
	ts := make([]uint16, k)
	for i := range ns {
		ts[i] = vU16()
		for _, o := range ts[:i] {
			vAssume(o != ts[i])
		}
		ns[i] = vxNode(ts[i])
	}
	return ns
}

func vxSame(c *ChainInfos, ns []NodeID, in []bool) {
	n := 0
	for i := range ns {
		if in[i] {
			n++
		}
		k := 0
		for _, d := range c.GetDataNodes() {
			if bytes.Equal(d[:], ns[i][:]) {
				k++
			}
		}
		want := 0
		if in[i] {
			want = 1
		}
		vAssert(k == want, "listed once exactly when added and not removed")
		vAssert(c.HasDataNode(ns[i]) == in[i], "membership agrees with the list")
		idx := c.Index(ns[i])
		vAssert((idx >= 0) == in[i], "an index exactly for members")
		if idx >= 0 {
			vAssert(c.Datas[idx] == ns[i], "the index is where the node is")
		}
	}
	vAssert(len(c.Datas) == n, "nothing else is listed")
	for i := 1; i < n; i++ {
		vAssert(bytes.Compare(c.Datas[i-1][:], c.Datas[i][:]) < 0, "sorted")
	}
}

func VH_DataNodes() {
	k := vBound("nodes", 3, 3)
	ns := vxNodes(k)
	in := make([]bool, k)
	c := &ChainInfos{}
	n := 1 + vChoose(vBound("operations", 3, 4))
	for i := 0; i < n; i++ {
		j := vChoose(k)
		if vChoose(2) == 0 {
			vAssert(c.AddDataNode(ns[j]) == !in[j], "adding reports whether the node was new")
			in[j] = true
		} else {
			empty := len(c.Datas) == 0
			vAssert(c.RemoveDataNode(ns[j]) == (in[j] || empty), "removing reports whether the node was there")
			in[j] = false
		}
	}
	vxSame(c, ns, in)
	vReach("data nodes")
}

var vxDigits = "0123456789abcdef"

// vxBoot is a data server whose node id text has symbolic letter cases.
func vxBoot(t byte, chain uint32) (Dataserver, NodeID) {
	var id NodeID
	id[0], id[5] = t, 0xab
	s := []byte(hex.EncodeToString(id[:]))
	for _, i := range []int{0, 1, 10} {
		if s[i] >= 'a' && s[i] <= 'f' && vBool() {
			s[i] -= 'a' - 'A'
		}
	}
	return Dataserver{ChainID: chain, NodeIDString: string(s), IP: "127.0.0.1", BasicPort: vU16()}, id
}

// Boot nodes are identified by the text of their node id.
func VH_BootNodes() {
	k := 3
	ds := make([]Dataserver, k)
	ids := make([]NodeID, k)
	for i := range ds {
		ds[i], ids[i] = vxBoot([]byte{0x1b, 0xa1, 0xf0}[i], []uint32{7, 3, 5}[i])
	}
	in := make([]bool, k)
	c := &ChainInfos{}
	n := 1 + vChoose(vBound("boot operations", 3, 4))
	for i := 0; i < n; i++ {
		j := vChoose(k)
		switch vChoose(3) {
		case 0:
			vAssert(c.AddBootNode(ds[j]) == !in[j], "adding reports whether the node was new")
			in[j] = true
		case 1:
			empty := len(c.BootNodes) == 0
			vAssert(c.RemoveBootNode(ids[j]) == (in[j] || empty), "removing reports whether the node was there")
			in[j] = false
		case 2:
			c.Sort()
		}
		m := 0
		for x := range ds {
			found := 0
			for _, b := range c.BootNodes {
				if b == ds[x] {
					found++
				}
			}
			want := 0
			if in[x] {
				want = 1
				m++
			}
			vAssert(found == want, "listed once exactly when added and not removed")
		}
		vAssert(len(c.BootNodes) == m, "nothing else is listed")
	}
	vReach("boot nodes")
}

func VH_Clone() {
	ns := []NodeID{vxNode(300), vxNode(5)}
	c := &ChainInfos{ChainStruct: ChainStruct{ID: ChainID(vU32()), ParentID: 7, Mode: Branch}, SecondCoinId: CoinID(vU16()), SecondCoinName: "coin",
		HaveSecondCoin: vChoose(2) == 1, Election: ElectionType(2), ChainVersion: vStr(1), Syncblock: true, Version: uint16(vChoose(2))}
	some := func() NodeIDs {
		switch vChoose(3) {
		case 0:
			return nil
		case 1:
			return NodeIDs{}
		}
		return NodeIDs{ns[0], ns[1]}
	}
	which := vChoose(4)
	if which == 0 {
		c.GenesisCommIds = some()
	} else {
		c.GenesisCommIds = NodeIDs{ns[1]}
	}
	if which == 1 {
		c.GenesisDatas = some()
	} else {
		c.GenesisDatas = NodeIDs{ns[0]}
	}
	if which == 2 {
		c.Datas = some()
	} else {
		c.Datas = NodeIDs{ns[0]}
	}
	if which == 3 {
		c.Auditors = some()
	} else {
		c.Auditors = NodeIDs{ns[1], ns[0]}
	}
	c.AdminPubs = [][]byte{vBytes(2), {}, nil}
	c.Attributes = ChainAttrs{AttrReward, AttrPoC}
	c.BootNodes = []Dataserver{{ChainID: 9, NodeIDString: "02", DataRpcPort: vU16()}, {ChainID: 8, NodeIDString: "01"}}
	eq := func(a, b *ChainInfos) bool {
		ok := a.ChainStruct == b.ChainStruct && a.SecondCoinId == b.SecondCoinId && a.SecondCoinName == b.SecondCoinName && a.HaveSecondCoin == b.HaveSecondCoin &&
			a.Election == b.Election && a.ChainVersion == b.ChainVersion && a.Syncblock == b.Syncblock && a.Version == b.Version
		ids := func(x, y NodeIDs) {
			ok = ok && (x == nil) == (y == nil) && len(x) == len(y)
			for i := 0; ok && i < len(x); i++ {
				ok = x[i] == y[i]
			}
		}
		ids(a.GenesisCommIds, b.GenesisCommIds)
		ids(a.GenesisDatas, b.GenesisDatas)
		ids(a.Datas, b.Datas)
		ids(a.Auditors, b.Auditors)
		ok = ok && len(a.AdminPubs) == len(b.AdminPubs) && len(a.Attributes) == len(b.Attributes) && len(a.BootNodes) == len(b.BootNodes)
		for i := 0; ok && i < len(a.AdminPubs); i++ {
			ok = bytes.Equal(a.AdminPubs[i], b.AdminPubs[i])
		}
		for i := 0; ok && i < len(a.Attributes); i++ {
			ok = a.Attributes[i] == b.Attributes[i]
		}
		for i := 0; ok && i < len(a.BootNodes); i++ {
			ok = a.BootNodes[i] == b.BootNodes[i]
		}
		return ok
	}
	k, k2 := c.Clone(), c.Clone()
	vAssert(eq(c, k), "a copy is equal")
	h1, e1 := c.HashValue()
	h2, e2 := k.HashValue()
	vAssert(e1 == nil && e2 == nil && bytes.Equal(h1, h2), "a copy has the same hash")
	// change everything in the copy
	k.AddDataNode(vxNode(77))
	k.AddBootNode(Dataserver{NodeIDString: "00"})
	for _, l := range []NodeIDs{k.GenesisCommIds, k.GenesisDatas, k.Datas, k.Auditors} {
		for i := range l {
			l[i] = NodeID{1, 2, 3}
		}
	}
	k.AdminPubs[0][0]++
	k.AdminPubs[1] = []byte{4}
	k.Attributes[0] = AttrNoGas
	k.BootNodes[0].IP = "changed"
	k.Sort()
	vAssert(eq(c, k2), "a copy is independent of the original")
	vAssert((*ChainInfos)(nil).Clone() == nil, "no chain")
	vReach("clone")
}

func VH_Auditors() {
	ns := vxNodes(vBound("auditors", 2, 3))
	var sets [3]NodeIDs
	for i := range sets {
		for j := range ns {
			if vChoose(2) == 1 {
				sets[i] = append(sets[i], ns[j])
			}
		}
	}
	c := &ChainInfos{GenesisDatas: sets[0], Datas: sets[1], Auditors: sets[2]}
	ids := c.GetAuditorIds()
	m := c.GetAuditorMap()
	n := 0
	for _, id := range ns {
		in := false
		for _, s := range sets {
			for _, o := range s {
				in = in || o == id
			}
		}
		k := 0
		for _, o := range ids {
			if o == id {
				k++
			}
		}
		want := 0
		if in {
			want = 1
			n++
		}
		_, ok := m[id]
		vAssert(k == want && ok == in, "auditors are the genesis data nodes, the data nodes and the auditors, once each")
		g := false
		for _, o := range sets[0] {
			g = g || o == id
		}
		vAssert(c.IsGenesisDataNode(id) == g, "genesis data node")
	}
	vAssert(len(ids) == n && len(m) == n, "no others")
	for i := 1; i < len(ids); i++ {
		vAssert(bytes.Compare(ids[i-1][:], ids[i][:]) < 0, "sorted")
	}
	vReach("auditors")
}

func VH_Attributes() {
	all := []string{"POC", "REWARD", "NOGAS", "reward", "other"}
	var a ChainAttrs
	in := map[string]bool{}
	n := 1 + vChoose(3)
	for i := 0; i < n; i++ {
		j := vChoose(len(all))
		var err error
		if vChoose(2) == 0 {
			err = a.Add(ChainAttr(all[j]))
			vAssert((err == nil) == (j < 3), "unknown attributes are refused")
			if err == nil {
				in[all[j]] = true
			}
		} else {
			err = a.AddByName(all[j], all[(j+1)%3])
			vAssert((err == nil) == (j < 4), "unknown names are refused")
			if err == nil {
				in[[]string{"POC", "REWARD", "NOGAS", "REWARD"}[j]] = true
				in[all[(j+1)%3]] = true
			}
		}
		vAssert(len(a) == len(in), "each attribute once")
		for _, s := range all[:3] {
			vAssert(a.Contains(ChainAttr(s)) == in[s], "contains what was added")
		}
		for j := 1; j < len(a); j++ {
			vAssert(a[j-1] < a[j], "sorted")
		}
	}
	m := a.ToMap()
	b := ChainAttrs(nil).FromMap(m)
	vAssert(len(b) == len(a) && len(m) == len(a), "set and back")
	for i := range b {
		vAssert(b[i] == a[i], "set and back")
	}
	c := &ChainInfos{Attributes: a}
	vAssert(c.IsPocChain() == in["POC"] && c.IsRewardChain() == in["REWARD"] && c.HasAttribute(AttrNoGas) == in["NOGAS"], "chain attributes")
	vReach("attributes")
}
