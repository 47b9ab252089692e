//verif:pkg .

package common

import "errors"

// vxNext is the documented life cycle: created or stopped -> initialised -> started -> stopped.
func vxNext(s ServiceStatus, op int) (ServiceStatus, error) {
	switch op {
	case 0:
		switch s {
		case SSInitialized:
			return s, ErrAlreadyInitialized
		case SSStarted:
			return s, ErrAlreadyStarted
		}
		return SSInitialized, nil
	case 1:
		if s != SSInitialized {
			return s, ErrNeedInitialization
		}
		return SSStarted, nil
	}
	switch s {
	case SSStopped:
		return s, ErrAlreadyStopped
	case SSStarted:
		return SSStopped, nil
	}
	return s, ErrNotStarted
}

// Every single request in every status.
func VH_Status() {
	x := vU8()
	vAssume(x <= byte(SSStopped))
	s := ServiceStatus(x)
	old := s
	op := vChoose(3)
	want, werr := vxNext(old, op)
	var err error
	switch op {
	case 0:
		err = s.CheckInit()
	case 1:
		err = s.CheckStart()
	case 2:
		err = s.CheckStop()
	}
	vAssert(err == werr && s == want, "a legal request moves on, an illegal one is refused and moves nothing")
	vReach("status")
}

type vxChanger struct {
	calls [3]int
	fail  [3]error
}

func (c *vxChanger) Initializer() error { c.calls[0]++; return c.fail[0] }
func (c *vxChanger) Starter() error     { c.calls[1]++; return c.fail[1] }
func (c *vxChanger) Closer() error      { c.calls[2]++; return c.fail[2] }

var vxErr = errors.New("vx: callback failed")

// Every sequence of requests on a service, with callbacks that succeed.
func VH_Service() {
	s := new(AbstractService)
	c := new(vxChanger)
	with := vChoose(2) == 1
	if with {
		s.SetChanger(c)
	}
	st := SSCreated
	var calls [3]int
	n := 1 + vChoose(vBound("requests", 6, 8))
	for i := 0; i < n; i++ {
		op := vChoose(3)
		want, werr := vxNext(st, op)
		vAssert(vxCall(s, op) == werr, "illegal requests are refused, legal ones served")
		if werr == nil && with {
			calls[op]++
		}
		st = want
		vAssert(s.serviceStatus == st, "status")
		vAssert(c.calls == calls, "the callback runs exactly when the request is legal")
	}
	vReach("service")
}

func vxCall(s *AbstractService, op int) error {
	switch op {
	case 0:
		return s.Init()
	case 1:
		return s.Start()
	}
	return s.Close()
}

// A failing callback is reported and leaves the service usable: the lock is free again and later requests are answered.
func VH_Failing() {
	c := new(vxChanger)
	s := new(AbstractService)
	s.SetChanger(c)
	for i := range c.fail {
		if vChoose(2) == 1 {
			c.fail[i] = vxErr
		}
	}
	legal := SSCreated
	for op := 0; op < 3; op++ {
		before := c.calls[op]
		err := vxCall(s, op)
		if c.calls[op] > before {
			vAssert(err == c.fail[op], "the result of the callback is reported")
		} else {
			vAssert(err != nil, "refused")
		}
		_ = legal
	}
	vReach("failing")
}

// A copy has the status, its own lock and its own callbacks.
func VH_Copy() {
	s := new(AbstractService)
	c := new(vxChanger)
	s.SetChanger(c)
	st := SSCreated
	n := vChoose(4)
	for i := 0; i < n; i++ {
		op := vChoose(3)
		st, _ = vxNext(st, op)
		vxCall(s, op)
	}
	calls := c.calls
	k := s.Copy()
	op := vChoose(3)
	want, werr := vxNext(st, op)
	vAssert(vxCall(&k, op) == werr && k.serviceStatus == want, "the copy goes on from the status")
	vAssert(s.serviceStatus == st && c.calls == calls, "the original stays")
	vReach("copy")
}
