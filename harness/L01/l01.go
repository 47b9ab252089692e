//verif:pkg log

package log

import (
	"bytes"
	"errors"
	"io"

	"github.com/sirupsen/logrus"
)

var vxLevels = []logrus.Level{logrus.PanicLevel, logrus.FatalLevel, logrus.ErrorLevel, logrus.WarnLevel, logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel}

var vxErr = errors.New("vx: no space")

type vxFormat struct {
	fail  bool
	calls int
}

func (f *vxFormat) Format(e *logrus.Entry) ([]byte, error) {
	f.calls++
	if f.fail {
		return nil, vxErr
	}
	return append([]byte{byte(e.Level)}, e.Message...), nil
}

type vxSink struct {
	got  [][]byte
	fail bool
}

func (s *vxSink) Write(p []byte) (int, error) {
	if s.fail {
		return 0, vxErr
	}
	s.got = append(s.got, append([]byte{}, p...))
	return len(p), nil
}

func vxSinkOf(on bool, s *vxSink) io.Writer {
	if on {
		return s
	}
	return nil
}

// Each entry once to the file and, of the levels of the console, once there.
func VH_Hook() {
	f := &vxFormat{}
	file, console := &vxSink{}, &vxSink{}
	hasFile, hasConsole := vBool(), vBool()
	var levels []logrus.Level
	for i := 0; i < vBound("levels", 3, 5); i++ {
		if vBool() {
			levels = append(levels, vxLevels[(2*i+1)%len(vxLevels)])
		}
	}
	h := NewFileAndConsoleHook(f, vxSinkOf(hasFile, file), vxSinkOf(hasConsole, console), levels...)
	vAssert(len(h.Levels()) == len(vxLevels), "entries of all levels")
	for _, l := range vxLevels {
		found := false
		for _, x := range h.Levels() {
			found = found || x == l
		}
		vAssert(found, "each of the levels")
	}
	var wantFile, wantConsole [][]byte
	n := vBound("entries", 2, 3)
	for i := 0; i < n; i++ {
		l := vxLevels[vConc(vChoose(len(vxLevels)))]
		msg := vBytes(1)
		vAssert(h.Fire(&logrus.Entry{Level: l, Message: string(msg)}) == nil, "written")
		line := []byte{byte(l), msg[0]}
		if hasFile {
			wantFile = append(wantFile, line)
		}
		if hasConsole {
			for _, x := range levels {
				if x == l {
					wantConsole = append(wantConsole, line)
				}
			}
		}
	}
	vxLines(file.got, wantFile, "every entry once in the file")
	vxLines(console.got, wantConsole, "the entries of its levels once on the console")
	vReach("hook")
}

func vxLines(got, want [][]byte, what string) {
	ok := len(got) == len(want)
	vAssert(ok, what)
	for i := range got {
		ok = vAnd(ok, bytes.Equal(got[i], want[i]))
	}
	vAssert(ok, what)
}

// Errors are told, and leave the hook usable.
func VH_Fail() {
	f := &vxFormat{fail: vBool()}
	file, console := &vxSink{fail: vBool()}, &vxSink{fail: vBool()}
	h := NewFileAndConsoleHook(f, file, console, logrus.InfoLevel)
	l := vxLevels[vConc(vChoose(len(vxLevels)))]
	e := &logrus.Entry{Level: l, Message: "x"}
	err := h.Fire(e)
	bad := f.fail || file.fail || console.fail && l == logrus.InfoLevel
	vAssert((err != nil) == bad, "an error exactly if something failed")
	f.fail, file.fail, console.fail = false, false, false
	was := len(file.got)
	vAssert(h.Fire(e) == nil && len(file.got) == was+1, "and the next entry is written")
	vReach("fail")
}

type vxEntry struct {
	level  logrus.Level
	msg    string
	fields logrus.Fields
}

// vxCatch is a hook that keeps the entries.
type vxCatch struct{ got []vxEntry }

func (c *vxCatch) Levels() []logrus.Level { return logrus.AllLevels }
func (c *vxCatch) Fire(e *logrus.Entry) error {
	f := logrus.Fields{}
	for k, v := range e.Data {
		f[k] = v
	}
	c.got = append(c.got, vxEntry{e.Level, e.Message, f})
	return nil
}

func vxRoot() *vxCatch {
	c := &vxCatch{}
	rootLog = &logrus.Logger{Out: &EmptyWriter{}, Formatter: &vxFormat{}, Hooks: make(logrus.LevelHooks), Level: logrus.DebugLevel}
	rootLog.AddHook(c)
	wrapped = rootLog
	return c
}

// Each of the functions logs one entry of its level.
func VH_Functions() {
	c := vxRoot()
	fields := 0
	if vChoose(2) == 1 {
		SetFields(logrus.Fields{"a": 1})
		fields++
		if vChoose(2) == 1 {
			SetFields(logrus.Fields{"b": 2})
			fields++
		}
	}
	calls := []struct {
		level logrus.Level
		f     func()
	}{
		{logrus.DebugLevel, func() { Debug("m") }},
		{logrus.DebugLevel, func() { Debugf("%s", "m") }},
		{logrus.InfoLevel, func() { Info("m") }},
		{logrus.InfoLevel, func() { Infof("%s", "m") }},
		{logrus.WarnLevel, func() { Warn("m") }},
		{logrus.WarnLevel, func() { Warnf("%s", "m") }},
		{logrus.ErrorLevel, func() { Error("m") }},
		{logrus.ErrorLevel, func() { Errorf("%s", "m") }},
		{logrus.DebugLevel, func() { MustDebugf(nil, "%s", "m") }},
		{logrus.InfoLevel, func() { MustInfof(nil, "%s", "m") }},
		{logrus.WarnLevel, func() { MustWarnf(nil, "%s", "m") }},
		{logrus.ErrorLevel, func() { MustErrorf(nil, "%s", "m") }},
	}
	i, j := vConc(vChoose(len(calls))), vConc(vChoose(len(calls)))
	calls[i].f()
	calls[j].f()
	vAssert(len(c.got) == 2, "one entry each")
	vAssert(c.got[0].level == calls[i].level && c.got[1].level == calls[j].level, "of its level")
	for _, e := range c.got {
		vAssert(e.msg == "m" && len(e.fields) == fields, "with its message and the fields set")
		vAssert(fields < 1 || e.fields["a"] == 1, "fields")
		vAssert(fields < 2 || e.fields["b"] == 2, "fields")
	}
	vReach("functions")
}

// Through a logger of the caller.
func VH_Must() {
	c := vxRoot()
	d := &vxCatch{}
	other := &logrus.Logger{Out: &EmptyWriter{}, Formatter: &vxFormat{}, Hooks: make(logrus.LevelHooks), Level: logrus.DebugLevel}
	other.AddHook(d)
	fs := []func(logrus.FieldLogger, string, ...interface{}){MustDebugf, MustInfof, MustWarnf, MustErrorf}
	i := vConc(vChoose(len(fs)))
	fs[i](other, "%d", 7)
	vAssert(len(c.got) == 0 && len(d.got) == 1, "into that logger")
	vAssert(d.got[0].level == []logrus.Level{logrus.DebugLevel, logrus.InfoLevel, logrus.WarnLevel, logrus.ErrorLevel}[i] && d.got[0].msg == "7", "of its level")
	vReach("must")
}

// Fields in pairs: each name with the value behind it.
func VH_Fields() {
	c := vxRoot()
	n := vConc(vChoose(vBound("pairs", 5, 7)))
	var args []interface{}
	want := logrus.Fields{}
	for i := 0; i < n; i++ {
		k := string([]byte{'a' + byte(i)})
		v := vU8()
		if vChoose(4) == 3 {
			args = append(args, i, v) // not a name
			continue
		}
		args = append(args, k, v)
		want[k] = v
	}
	if vChoose(2) == 1 {
		args = append(args, "lonely")
	}
	WithField(args...).Info("m")
	vAssert(len(c.got) == 1 && c.got[0].msg == "m" && c.got[0].level == logrus.InfoLevel, "one entry")
	got := c.got[0].fields
	vAssert(len(got) == len(want), "all the pairs")
	ok := true
	for k, v := range want {
		g, has := got[k]
		vAssert(has, "a pair")
		ok = vAnd(ok, g == v)
	}
	vAssert(ok, "with its value")
	WithFields(want).Warn("w")
	vAssert(len(c.got) == 2 && len(c.got[1].fields) == len(want) && c.got[1].level == logrus.WarnLevel, "with fields")
	vReach("fields")
}
