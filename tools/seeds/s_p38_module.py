ID="p38-module-level-with-file"; PROPERTY="P38"
NEEDS="a log file, and a module whose console level differs from the general one"
BREAKS="with a log file the console ignores the level set for a module"
EDITS=[("common/log/filter.go","""	if e.Level > logrus.Level(level) && f.fileWriter == nil {
		return nil, nil
	}
	buf, err := f.formatter.Format(e)
	if f.fileWriter != nil && len(buf) > 0 {
		f.fileWriter.Write(buf)
	}
	if e.Level > logrus.Level(level) {
		return nil, nil
	}
	return buf, err
""","""	if f.fileWriter == nil {
		if e.Level > logrus.Level(level) {
			return nil, nil
		}
		return f.formatter.Format(e)
	}
	buf, err := f.formatter.Format(e)
	if len(buf) > 0 {
		f.fileWriter.Write(buf)
	}
	if e.Level > logrus.Level(f.defaultLevel) {
		return nil, nil
	}
	return buf, err
""")]
PKG="common/log"
TEST='''package log
import ("bytes"; "io"; "os"; "testing")
func TestDemo(t *testing.T) {
	for _, file := range []bool{false, true} {
		r, w, err := os.Pipe(); if err != nil { t.Fatal(err) }
		old := os.Stderr; os.Stderr = w; lg := New(); os.Stderr = old
		var b bytes.Buffer; if file { lg.SetFileWriter(&b) }
		lg.SetLevel(TraceLevel); lg.SetConsoleLevel(InfoLevel); lg.SetModuleLevel("loud", DebugLevel); lg.SetModuleLevel("calm", ErrorLevel)
		lg.WithFields(Fields{FieldKeyModule: "loud"}).Debug("one"); lg.WithFields(Fields{FieldKeyModule: "calm"}).Info("two"); lg.WithFields(Fields{FieldKeyModule: "x"}).Info("three")
		w.Close(); out, _ := io.ReadAll(r)
		if !bytes.Contains(out, []byte("one")) || bytes.Contains(out, []byte("two")) || !bytes.Contains(out, []byte("three")) { t.Fatalf("file %v: %s", file, out) }
		if file && bytes.Count(b.Bytes(), []byte("\\n")) != 3 { t.Fatalf("file: %s", b.String()) }
	}
}
'''
