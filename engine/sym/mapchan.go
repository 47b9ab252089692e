package sym

import (
	"fmt"
	"strconv"

	"verif/engine/smt"
)

type ment struct {
	k, v V
	ck   string
	conc bool
	dead bool
}

// Map keeps entries in insertion order; concrete keys are indexed.
type Map struct {
	t     *TI
	ents  []*ment
	idx   map[string]*ment
	n     int
	nsym  int
	epoch int
}

func (m *M) newMap(t *TI) *Map {
	return &Map{t: t, idx: map[string]*ment{}, epoch: m.epoch}
}

// canon is a canonical text of a concrete key.
func (m *M) canon(t *TI, v V, sb []byte) ([]byte, bool) {
	switch t.K {
	case KBool, KInt:
		if v.P != nil {
			return nil, false
		}
		sb = strconv.AppendUint(sb, v.U, 16)
		return append(sb, ','), true
	case KFloat:
		sb = strconv.AppendUint(sb, v.U, 16)
		return append(sb, ','), true
	case KString:
		s, ok := concreteStr(v)
		if !ok {
			return nil, false
		}
		sb = strconv.AppendInt(sb, int64(len(s)), 10)
		sb = append(sb, ':')
		return append(sb, s...), true
	case KArray:
		ok := true
		for _, x := range v.P.(*Agg).E {
			if sb, ok = m.canon(t.Elem, x, sb); !ok {
				return nil, false
			}
		}
		return sb, true
	case KStruct:
		ok := true
		for i, x := range v.P.(*Agg).E {
			if sb, ok = m.canon(t.F[i], x, sb); !ok {
				return nil, false
			}
		}
		return sb, true
	case KIface:
		if v.P == nil {
			return append(sb, "nil,"...), true
		}
		i := v.P.(*Iface)
		sb = append(sb, 't')
		sb = strconv.AppendInt(sb, int64(i.T.id), 10)
		sb = append(sb, ':')
		return m.canon(i.T, i.V, sb)
	case KSlice, KMap, KFunc:
		m.rtPanic("hash of unhashable type " + t.T.String())
	}
	if t == m.rtypeTI {
		return strconv.AppendInt(append(sb, 'R'), int64(v.P.(*TI).id), 10), true
	}
	switch p := v.P.(type) {
	case nil:
		return append(sb, "nil,"...), true
	case *smt.Term:
		return nil, false
	default:
		return append(sb, fmt.Sprintf("%p,", p)...), true
	}
}

// log saves the map before a change when it outlives the path.
func (m *M) mapTouch(mp *Map) {
	if mp.epoch == m.epoch {
		return
	}
	old := *mp
	ents := make([]*ment, len(mp.ents))
	for i, e := range mp.ents {
		c := *e
		ents[i] = &c
	}
	m.undo = append(m.undo, func() {
		old.ents = ents
		old.idx = map[string]*ment{}
		for _, e := range ents {
			if e.conc && !e.dead {
				old.idx[e.ck] = e
			}
		}
		*mp = old
	})
	mp.epoch = m.epoch
}

func (m *M) mapFind(mp *Map, k V) *ment {
	sb, ok := m.canon(mp.t.Key, k, nil)
	if ok {
		if e := mp.idx[string(sb)]; e != nil {
			return e
		}
		if mp.nsym == 0 {
			return nil
		}
	}
	for _, e := range mp.ents {
		if e.dead || (ok && e.conc) {
			continue
		}
		c := m.eq(mp.t.Key, k, e.k)
		if m.branch(c) {
			return e
		}
	}
	return nil
}

func (m *M) mapGet(v V, t *TI, k V) (V, bool) {
	if v.P == nil {
		return t.Elem.Zero(), false
	}
	mp := v.P.(*Map)
	if e := m.mapFind(mp, k); e != nil {
		return e.v, true
	}
	return mp.t.Elem.Zero(), false
}

func (m *M) mapSet(v, k, val V) {
	if v.P == nil {
		panic(goPanic{v: m.mkError("assignment to entry in nil map"), msg: "assignment to entry in nil map", rt: true})
	}
	mp := v.P.(*Map)
	e := m.mapFind(mp, k)
	m.mapTouch(mp)
	if e != nil {
		// mapTouch may have copied entries for the undo only; e stays live
		e.v = val
		return
	}
	e = &ment{k: k, v: val}
	sb, ok := m.canon(mp.t.Key, k, nil)
	if ok {
		e.conc = true
		e.ck = string(sb)
		mp.idx[e.ck] = e
	} else {
		mp.nsym++
	}
	mp.ents = append(mp.ents, e)
	mp.n++
}

func (m *M) mapDelete(v, k V) {
	if v.P == nil {
		return
	}
	mp := v.P.(*Map)
	e := m.mapFind(mp, k)
	if e == nil {
		return
	}
	m.mapTouch(mp)
	e.dead = true
	if e.conc {
		delete(mp.idx, e.ck)
	} else {
		mp.nsym--
	}
	mp.n--
	// compact when many entries are dead
	if len(mp.ents) > 32 && mp.n < len(mp.ents)/2 {
		var es []*ment
		for _, x := range mp.ents {
			if !x.dead {
				es = append(es, x)
			}
		}
		mp.ents = es
	}
}

func (m *M) mapClear(v V) {
	if v.P == nil {
		return
	}
	mp := v.P.(*Map)
	m.mapTouch(mp)
	for _, e := range mp.ents {
		e.dead = true
	}
	mp.ents, mp.idx, mp.n, mp.nsym = nil, map[string]*ment{}, 0, 0
}

func (m *M) mapLen(v V) int {
	if v.P == nil {
		return 0
	}
	return v.P.(*Map).n
}

type mapIt struct {
	mp   *Map
	i    int
	snap []*ment
}

func (m *M) mapIter(v V) *mapIt {
	if v.P == nil {
		return &mapIt{}
	}
	mp := v.P.(*Map)
	it := &mapIt{mp: mp, snap: append([]*ment{}, mp.ents...)}
	if m.mapPerm && m.initN == 0 {
		var live []*ment
		for _, e := range it.snap {
			if !e.dead {
				live = append(live, e)
			}
		}
		// any order: choose the next entry each time
		for i := 0; i < len(live)-1; i++ {
			k := i + m.choose(len(live)-i)
			live[i], live[k] = live[k], live[i]
		}
		it.snap = live
	}
	return it
}

func (it *mapIt) next(m *M) (V, V, bool) {
	for it.i < len(it.snap) {
		e := it.snap[it.i]
		it.i++
		if e.dead {
			continue
		}
		k, v := e.k, e.v
		return copyV(k), copyV(v), true
	}
	return V{}, V{}, false
}

// ---- channels ----

func (m *M) chanRecv(c V, et *TI) (V, bool) {
	if c.P == nil {
		m.block("receive from nil channel")
	}
	ch := c.P.(*Chan)
	for len(ch.buf) == 0 {
		if ch.closed {
			return et.Zero(), false
		}
		m.block("channel receive")
	}
	v := ch.buf[0]
	old := ch.buf
	m.undo = append(m.undo, func() { ch.buf = old })
	ch.buf = append([]V{}, ch.buf[1:]...)
	return v, true
}

func (m *M) chanSend(c, v V) {
	if c.P == nil {
		m.block("send to nil channel")
	}
	ch := c.P.(*Chan)
	for {
		if ch.closed {
			m.rtPanic("send on closed channel")
		}
		if len(ch.buf) < ch.cap {
			break
		}
		m.block("channel send")
	}
	old := ch.buf
	m.undo = append(m.undo, func() { ch.buf = old })
	ch.buf = append(append([]V{}, ch.buf...), v)
}

// sched is a placeholder for interleaved goroutines.
type sched struct{}

// block is called when the only running goroutine cannot go on.
func (m *M) block(what string) {
	m.deadlock(what)
}

func (m *M) deadlock(what string) {
	if m.replaying() {
		panic(abort{kind: "infeasible"})
	}
	if m.initN > 0 {
		m.unsupported("blocking in init")
	}
	m.res.assertSeen("nonblocking")
	m.haveModel()
	m.violation("deadlock", "blocks forever: "+what)
	panic(abort{kind: "violation"})
}

func (m *M) spawn(f func() V) {
	m.unsupported("go statement")
}
