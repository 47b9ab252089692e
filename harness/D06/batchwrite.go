//verif:pkg db

package db

// vxCount counts commits and may fail at one of them.
type vxCount struct {
	Database
	commits int
	failAt  int
	limit   int
}

func (c *vxCount) Batch(b Batch) error {
	c.commits++
	vAssert(c.limit == 0 || b.Size() <= c.limit, "no batch is larger than the threshold")
	if c.commits == c.failAt {
		return errVxDB
	}
	return c.Database.Batch(b)
}

func VH_All() {
	n := vChoose(vBound("items", 6, 8) + 1)
	threshold := vInt()
	vAssume(threshold >= 1)
	content := vU8()
	skip := make([]bool, n)
	vals := make([]byte, n)
	want := 0
	for i := range skip {
		skip[i] = vChoose(2) == 1
		vals[i] = byte(i + 1)
		if !skip[i] {
			want++
		}
	}
	d := &vxCount{Database: NewMemDB(), limit: threshold}
	next := 0
	count, err := BatchWrite(d, threshold, n, func(j int, w Writer) (bool, error) {
		vAssert(j == next, "items in order, once each")
		next++
		if skip[j] {
			return false, nil
		}
		return true, w.Put([]byte{byte(j)}, []byte{vals[j] ^ content})
	})
	vAssert(err == nil && next == n, "every item offered")
	vAssert(count == want, "counts what was written")
	for i := range skip {
		g, e := d.Get([]byte{byte(i)})
		vAssert(e == nil && (len(g) == 1) == !skip[i] && (skip[i] || g[0] == vals[i]^content), "every item to be written is stored")
	}
	vReach("all")
}

func VH_Failures() {
	n := 1 + vChoose(vBound("failing items", 4, 6))
	threshold := 1 + vChoose(n+1)
	d := &vxCount{Database: NewMemDB()}
	bad := -1
	if vChoose(2) == 0 {
		d.failAt = 1 + vChoose(n)
	} else {
		bad = vChoose(n)
	}
	skip := vChoose(n + 1)
	asked := 0
	count, err := BatchWrite(d, threshold, n, func(j int, w Writer) (bool, error) {
		asked++
		if j == bad {
			return vChoose(2) == 1, errVxDB
		}
		if j == skip {
			return false, nil
		}
		return true, w.Put([]byte{byte(j)}, []byte{1})
	})
	failed := bad >= 0 || d.commits == d.failAt
	vAssert((err == errVxDB) == failed && (err == nil) == !failed, "the first failure is reported, and only a failure")
	if bad >= 0 {
		vAssert(asked == bad+1, "nothing is asked for after a failure")
	}
	stored := 0
	for i := 0; i < n; i++ {
		if h, _ := d.Has([]byte{byte(i)}); h {
			stored++
		}
	}
	vAssert(count == stored, "counts exactly what was stored")
	vReach("failures")
}
