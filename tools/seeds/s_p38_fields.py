ID="p38-forwarded-fields-leak"; PROPERTY="P38"
NEEDS="a forwarder, and a logger with a module of its own that logs more than once or is shown on the console"
BREAKS="forwarding adds its own fields (time and place) to the logger's fields, so they appear in console and file lines from then on"
EDITS=[("common/log/forwarder.go","""	d := e.Data
	defer func() {
		e.Data = d
	}()
	e.Data = make(map[string]interface{}, len(d)+2)
	for k, v := range d {
		e.Data[k] = v
	}

	e.Data["logtime"] = e.Time.UnixNano()

	var hasModule bool
	if e.Caller != nil {
		if _, hasModule = e.Data[FieldKeyModule]; !hasModule {
			e.Data[FieldKeyModule] = getPackageName(e.Caller.Function)
		}
""","""	// nothing of the logger is replaced when it has its own module
	if _, hasModule := e.Data[FieldKeyModule]; !hasModule {
		d := e.Data
		defer func() {
			e.Data = d
		}()
		e.Data = make(map[string]interface{}, len(d)+2)
		for k, v := range d {
			e.Data[k] = v
		}
		if e.Caller != nil {
			e.Data[FieldKeyModule] = getPackageName(e.Caller.Function)
		}
	}

	e.Data["logtime"] = e.Time.UnixNano()

	if e.Caller != nil {
""")]
PKG="common/log"
TEST='''package log
import ("bytes"; "io"; "net"; "strings"; "testing")
func TestDemo(t *testing.T) {
	ln, err := net.Listen("tcp", "127.0.0.1:0"); if err != nil { t.Fatal(err) }
	defer ln.Close()
	go func() { for { c, err := ln.Accept(); if err != nil { return }; go io.Copy(io.Discard, c) } }()
	lg := New(); var b bytes.Buffer; lg.SetFileWriter(&b); SetGlobalLogger(lg)
	if err := AddForwarder(&ForwarderConfig{Vendor: HookVendorLogstash, Address: ln.Addr().String(), Level: "info"}); err != nil { t.Fatal(err) }
	for _, f := range []Fields{{"k": 1}, {FieldKeyModule: "mod", "k": 1}} {
		l := lg.WithFields(f)
		for i := 0; i < 2; i++ {
			b.Reset(); l.Info("hello")
			if s := b.String(); !strings.HasSuffix(s, "hello k=1\\n") { t.Fatalf("line %q", s) }
		}
	}
}
'''
