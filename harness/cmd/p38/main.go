// P38: log lines.
package main

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/icon-project/btp/common/log"

	"verif/cmd/p38/other"
	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P38", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 1800 * time.Second,
		Assumptions: []string{
			"bounds: every combination of 7 log levels, 7 console levels, module level absent or one of 7 for the line's module, the default module or another, file written or not, line at each level by each method family, through the root logger, a derived one and the global functions; all sequences of up to 3 (4) level changes; forwarders (logstash, fluentd over loopback TCP) at every level; the relay program with every combination of the two levels, with and without file and module level",
			"the module of a line without module field is the package that logs it; of a line by Log, Logf or Logln without module field the module is not judged",
		}}, body)
}

var levels = []log.Level{log.PanicLevel, log.FatalLevel, log.ErrorLevel, log.WarnLevel, log.InfoLevel, log.DebugLevel, log.TraceLevel}

const letters = "PFEWIDT"

// console is what a logger made while it is in force writes to standard error.
type console struct {
	f   *os.File
	old *os.File
	off int64
}

func newConsole(c *mc.C) *console {
	f, err := os.CreateTemp(mc.Scratch(), "err")
	if err != nil {
		panic("harness: " + err.Error())
	}
	os.Remove(f.Name())
	o := &console{f: f, old: os.Stderr}
	os.Stderr = f
	return o
}
func (o *console) close() { os.Stderr = o.old; o.f.Close() }
func (o *console) take() string {
	var b bytes.Buffer
	n, _ := io.Copy(&b, io.NewSectionReader(o.f, o.off, 1<<30))
	o.off += n
	return b.String()
}

// line is one line to log and where it has to appear.
type line struct {
	lv     log.Level
	how    string // method family
	module string // of the line: field, or "" for the package
	wallet interface{}
	chain  interface{}
	prefix string
	extra  map[string]interface{}
	text   string
}

func (l line) fields() log.Fields {
	f := log.Fields{}
	if l.module != "" {
		f[log.FieldKeyModule] = l.module
	}
	if l.wallet != nil {
		f[log.FieldKeyWallet] = l.wallet
	}
	if l.chain != nil {
		f[log.FieldKeyChain] = l.chain
	}
	if l.prefix != "" {
		f[log.FieldKeyPrefix] = l.prefix
	}
	for k, v := range l.extra {
		f[k] = v
	}
	return f
}

// emit logs the line; Panic methods panic after logging.
func (l line) emit(lg log.Logger) (panicked bool) {
	defer func() {
		if e := recover(); e != nil {
			panicked = true
		}
	}()
	switch l.how {
	case "":
		call(l.lv, lg.Panic, lg.Error, lg.Warn, lg.Info, lg.Debug, lg.Trace)(l.text)
	case "ln":
		call(l.lv, lg.Panicln, lg.Errorln, lg.Warnln, lg.Infoln, lg.Debugln, lg.Traceln)(l.text)
	case "f":
		callf(l.lv, lg.Panicf, lg.Errorf, lg.Warnf, lg.Infof, lg.Debugf, lg.Tracef)("%s", l.text)
	case "log":
		lg.Log(l.lv, l.text)
	case "logf":
		lg.Logf(l.lv, "%s", l.text)
	case "logln":
		lg.Logln(l.lv, l.text)
	case "global":
		call(l.lv, log.Panic, log.Error, log.Warn, log.Info, log.Debug, log.Trace)(l.text)
	case "globalf":
		callf(l.lv, log.Panicf, log.Errorf, log.Warnf, log.Infof, log.Debugf, log.Tracef)("%s", l.text)
	case "globalln":
		call(l.lv, log.Panicln, log.Errorln, log.Warnln, log.Infoln, log.Debugln, log.Traceln)(l.text)
	case "other":
		other.Emit(lg, int(l.lv), l.text)
	}
	return
}
func call(lv log.Level, f ...func(...interface{})) func(...interface{}) { return f[idx(lv)] }
func callf(lv log.Level, f ...func(string, ...interface{})) func(string, ...interface{}) {
	return f[idx(lv)]
}
func idx(lv log.Level) int {
	switch lv {
	case log.PanicLevel:
		return 0
	case log.ErrorLevel:
		return 1
	case log.WarnLevel:
		return 2
	case log.InfoLevel:
		return 3
	case log.DebugLevel:
		return 4
	case log.TraceLevel:
		return 5
	}
	panic("harness: level")
}

// matches says whether out is exactly this line.
func (l line) matches(out string) string {
	text := strings.TrimRight(l.text, "\n")
	if !strings.HasSuffix(out, "\n") {
		return "no line end"
	}
	out = strings.TrimSuffix(out, "\n")
	p := strings.SplitN(out, "|", 6)
	if len(p) != 6 {
		return "fewer than six parts"
	}
	if p[0] != letters[l.lv:l.lv+1] {
		return "level " + p[0]
	}
	if _, err := time.Parse("15:04:05.000000", p[1]); err != nil {
		return "time " + p[1]
	}
	w := "----"
	if l.wallet != nil {
		w = fmt.Sprint(l.wallet, "----")[:4]
	}
	if p[2] != w {
		return "wallet " + p[2]
	}
	ch := "-"
	if l.chain != nil {
		ch = fmt.Sprint(l.chain)
	}
	if p[3] != ch {
		return "chain " + p[3]
	}
	m := l.module
	if m == "" {
		m = "main"
		if l.how == "other" {
			m = "other"
		}
	}
	if p[4] != m {
		return "module " + p[4]
	}
	rest := p[5]
	if !strings.HasPrefix(rest, l.prefix) {
		return "prefix"
	}
	rest = rest[len(l.prefix):]
	i := strings.Index(rest, " ")
	if i < 0 || !strings.Contains(rest[:i], ".go:") {
		return "place"
	}
	if l.module == "" || !strings.HasPrefix(l.how, "log") {
		file := "main.go:"
		if l.how == "other" {
			file = "other.go:"
		}
		if !strings.HasPrefix(rest, file) {
			return "place " + rest[:i]
		}
	}
	rest = rest[i+1:]
	if !strings.HasPrefix(rest, text) {
		return "text"
	}
	rest = rest[len(text):]
	var got, want []string
	for k, v := range l.extra {
		want = append(want, fmt.Sprintf("%s=%v", k, v))
	}
	if rest != "" {
		got = strings.Split(rest[1:], " ")
	}
	sort.Strings(got)
	sort.Strings(want)
	if strings.Join(got, " ") != strings.Join(want, " ") {
		return fmt.Sprintf("fields %q", got)
	}
	return ""
}

// conf is the reference of a logger's settings.
type conf struct {
	level, console log.Level
	mods           map[string]log.Level
	file           *bytes.Buffer
	fwd            log.Level // -1: none
}

func (k *conf) onConsole(l line) bool {
	m := l.module
	if m == "" {
		m = "main"
		if l.how == "other" {
			m = "other"
		}
	}
	lim, ok := k.mods[m]
	if !ok {
		lim = k.console
	}
	return l.lv <= k.level && l.lv <= lim
}

func one(c *mc.C, what string, o *console, k *conf, l line, lg log.Logger) {
	o.take()
	if k.file != nil {
		k.file.Reset()
	}
	p := l.emit(lg)
	enabled := l.lv <= k.level
	named := !strings.HasPrefix(l.how, "log")
	if l.lv == log.PanicLevel && (named || enabled) && !p {
		c.Report("panic", "%s: a line at panic level (%s) did not panic", what, l.how)
	}
	if l.lv != log.PanicLevel && p {
		c.Report("panic", "%s: %+v panicked", what, l)
	}
	check := func(where, got string, want bool) {
		if !want {
			if got != "" {
				c.Report(where, "%s: %+v at %s although it is off: %q", what, l, where, got)
			}
			return
		}
		if d := l.matches(got); d != "" {
			c.Report(where, "%s: %+v at %s: %s in %q", what, l, where, d, got)
		}
	}
	check("console", o.take(), k.onConsole(l))
	if k.file != nil {
		check("file", k.file.String(), enabled)
	}
}

func fileOf(k *conf) string {
	if k.file == nil {
		return ""
	}
	return k.file.String()
}

func fresh(k *conf) log.Logger {
	lg := log.New()
	lg.SetLevel(k.level)
	lg.SetConsoleLevel(k.console)
	for m, v := range k.mods {
		lg.SetModuleLevel(m, v)
	}
	if k.file != nil {
		lg.SetFileWriter(k.file)
	}
	return lg
}

func body(r *mc.R) {
	// names of levels
	r.Case("names", func(c *mc.C) {
		for i, n := range []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"} {
			if levels[i].String() != n {
				c.Report("level-name", "level %d is %s", i, levels[i])
			}
			for _, s := range []string{n, strings.ToUpper(n), strings.ToUpper(n[:1]) + n[1:]} {
				if lv, err := log.ParseLevel(s); err != nil || lv != levels[i] {
					c.Report("parse-level", "%q is %v, %v", s, lv, err)
				}
			}
			for _, s := range []string{"", n + " ", n[1:], n + n, fmt.Sprint(i), "warning2"} {
				if _, err := log.ParseLevel(s); err == nil {
					c.Report("parse-level", "%q is accepted", s)
				}
			}
			r.Trans(9)
			r.State("name", i)
		}
		r.Exec(1)
		r.Validated(63)
	})
	// every setting and every line
	for _, lv := range levels {
		for _, cl := range levels {
			for ml := -1; ml < 7; ml++ {
				for _, file := range []bool{false, true} {
					lv, cl, ml, file := lv, cl, ml, file
					r.Case(fmt.Sprintf("line %s %s %d %v", lv, cl, ml, file), func(c *mc.C) {
						o := newConsole(c)
						defer o.close()
						for _, mod := range []string{"main", "m1", "other"} {
							if ml < 0 && mod != "main" {
								continue
							}
							k := &conf{level: lv, console: cl, mods: map[string]log.Level{}}
							if ml >= 0 {
								k.mods[mod] = log.Level(ml)
							}
							if file {
								k.file = &bytes.Buffer{}
							}
							lg := fresh(k)
							if lg.GetLevel() != lv || lg.GetConsoleLevel() != cl {
								c.Report("get-level", "levels %v %v read back as %v %v", lv, cl, lg.GetLevel(), lg.GetConsoleLevel())
							}
							for _, m := range []string{"main", "m1", "x"} {
								want, ok := k.mods[m]
								if !ok {
									want = cl
								}
								if got := lg.GetModuleLevel(m); got != want {
									c.Report("get-level", "level of %s is %v, expected %v", m, got, want)
								}
							}
							for _, how := range []string{"", "ln", "f", "log", "logf", "logln", "global", "globalf", "globalln", "other"} {
								for i, l := range levels {
									for _, lm := range []string{"", "m1", "m2"} {
										if l == log.FatalLevel && !strings.HasPrefix(how, "log") {
											continue // ends the program
										}
										if lm == "" && strings.HasPrefix(how, "log") {
											// the package named on such a line is not fixed: judged where it makes no difference
											if ml >= 0 {
												continue
											}
											o.take()
											if file {
												k.file.Reset()
											}
											x := line{lv: l, how: how, text: "t" + fmt.Sprint(i)}
											x.emit(lg)
											for at, g := range map[string]string{"console": o.take(), "file": fileOf(k)} {
												want := l <= lv && (at == "console" && l <= cl || at == "file" && file)
												if p := strings.SplitN(g, "|", 6); want != (g != "") || want && (len(p) != 6 || p[0] != letters[l:l+1] || !strings.HasSuffix(p[5], " "+x.text+"\n")) {
													c.Report(at, "log level %s, console %s: %+v without module: %q, expected there: %v", lv, cl, x, g, want)
												}
											}
											continue
										}
										x := line{lv: l, how: how, module: lm, text: "t" + fmt.Sprint(i)}
										d := lg
										if lm != "" {
											d = lg.WithFields(x.fields())
										}
										if strings.HasPrefix(how, "global") {
											log.SetGlobalLogger(d)
										}
										one(c, fmt.Sprintf("log level %s, console %s, module levels %v", lv, cl, k.mods), o, k, x, d)
										r.Trans(1)
										r.Validated(2)
									}
								}
							}
							r.State(lv, cl, ml, file, mod)
							r.Exec(1)
						}
					})
				}
			}
		}
	}
	// parts of a line
	r.Case("parts", func(c *mc.C) {
		o := newConsole(c)
		defer o.close()
		n := 0
		for _, w := range []interface{}{nil, "", "a", "abcd", "abcdef", 7, "hx12"} {
			for _, ch := range []interface{}{nil, "", "btp", 0} {
				for _, m := range []string{"", "m1"} {
					for _, p := range []string{"", "pre>"} {
						for _, ex := range []map[string]interface{}{nil, {"k": 1}, {"k": "v", "l": true, "logtime": "x"}} {
							for _, t := range []string{"", "t", "a b=c", "two\nlines", "end\n\n", "%d|%s", "pipe|pipe"} {
								k := &conf{level: log.TraceLevel, console: log.TraceLevel, file: &bytes.Buffer{}}
								x := line{lv: log.InfoLevel, how: "", module: m, wallet: w, chain: ch, prefix: p, extra: ex, text: t}
								one(c, "parts", o, k, x, fresh(k).WithFields(x.fields()))
								x.how, x.lv = "f", log.WarnLevel // fields given one after the other
								lg := fresh(k)
								for fk, fv := range x.fields() {
									lg = lg.WithFields(log.Fields{fk: fv})
								}
								one(c, "parts", o, k, x, lg)
								n++
							}
						}
					}
				}
			}
		}
		r.State("parts")
		r.Trans(2 * n)
		r.Exec(n)
		r.Validated(4 * n)
	})
	// sequences of changes through several handles
	depth := 3
	if r.Thorough() {
		depth = 4
	}
	type op struct {
		what string
		f    func(k *conf, lg log.Logger)
	}
	var ops []op
	for _, h := range []log.Level{log.ErrorLevel, log.InfoLevel, log.TraceLevel} {
		h := h
		ops = append(ops, op{"level " + h.String(), func(k *conf, lg log.Logger) { k.level = h; lg.SetLevel(h) }},
			op{"console " + h.String(), func(k *conf, lg log.Logger) { k.console = h; lg.SetConsoleLevel(h) }},
			op{"m1 " + h.String(), func(k *conf, lg log.Logger) { k.mods["m1"] = h; lg.SetModuleLevel("m1", h) }},
			op{"main " + h.String(), func(k *conf, lg log.Logger) { k.mods["main"] = h; lg.SetModuleLevel("main", h) }})
	}
	ops = append(ops, op{"file", func(k *conf, lg log.Logger) { k.file = &bytes.Buffer{}; lg.SetFileWriter(k.file) }},
		op{"derive", nil})
	for i := range ops {
		i := i
		r.Case("changes "+ops[i].what, func(c *mc.C) {
			o := newConsole(c)
			defer o.close()
			var rec func(seq []int)
			rec = func(seq []int) {
				for hs := 0; hs < 2; hs++ { // through the root logger or a derived one
					k := &conf{level: log.DebugLevel, console: log.TraceLevel, mods: map[string]log.Level{}}
					root := log.New()
					der := root.WithFields(log.Fields{log.FieldKeyModule: "m1"})
					var names []string
					for _, s := range seq {
						names = append(names, ops[s].what)
						if ops[s].f == nil {
							der = der.WithFields(log.Fields{log.FieldKeyChain: "c"})
							continue
						}
						if hs == 0 {
							ops[s].f(k, root)
						} else {
							ops[s].f(k, der)
						}
					}
					what := fmt.Sprintf("%v through %d", names, hs)
					for _, l := range levels {
						if l == log.FatalLevel {
							continue
						}
						one(c, what, o, k, line{lv: l, text: "t"}, root)
						x := line{lv: l, module: "m1", text: "t"}
						for _, s := range seq {
							if ops[s].f == nil {
								x.chain = "c"
							}
						}
						one(c, what, o, k, x, der)
						r.Trans(2)
						r.Validated(4)
					}
					r.Exec(1)
					r.State(fmt.Sprint(seq), hs)
				}
				if len(seq) < depth {
					for j := range ops {
						rec(append(append([]int(nil), seq...), j))
					}
				}
			}
			rec([]int{i})
		})
	}
	rotate(r)
	forward(r)
	program(r)
}

// rotate: the log file is renewed when full, and what is kept is what is asked for.
func rotate(r *mc.R) {
	for _, backups := range []int{0, 1, 2} {
		for _, age := range []int{0, 1, 3} {
			for _, compress := range []bool{false, true} {
				for _, local := range []bool{false, true} {
					for _, size := range []int{1, 2} {
						backups, age, compress, local, size := backups, age, compress, local, size
						r.Case(fmt.Sprintf("rotate %d %d %v %v %d", backups, age, compress, local, size), func(c *mc.C) {
							dir, _ := os.MkdirTemp(mc.Scratch(), "rot")
							defer os.RemoveAll(dir)
							old := func(d time.Duration) string {
								n := filepath.Join(dir, "x-"+time.Now().UTC().Add(-d).Format("2006-01-02T15-04-05.000")+".log")
								os.WriteFile(n, []byte("old\n"), 0600)
								return n
							}
							ancient := old(50 * time.Hour)
							zone := time.Local
							time.Local = time.FixedZone("x", 5*3600)
							defer func() { time.Local = zone }()
							w, err := log.NewWriter(&log.WriterConfig{Filename: filepath.Join(dir, "x.log"), MaxSize: size, MaxAge: age, MaxBackups: backups, LocalTime: local, Compress: compress})
							if err != nil {
								c.Fail("rotate", "writer: %v", err)
							}
							lg := log.New()
							lg.SetConsoleLevel(log.PanicLevel)
							lg.SetFileWriter(w)
							pad := strings.Repeat("x", 300<<10)
							const lines = 9 // 2.6 MB
							for i := 0; i < lines; i++ {
								lg.Errorf("<%d> %s", i, pad)
								time.Sleep(2 * time.Millisecond) // names of old files tell milliseconds apart
							}
							if cl, ok := w.(io.Closer); ok {
								defer cl.Close()
							}
							cur, _ := os.ReadFile(filepath.Join(dir, "x.log"))
							if len(cur) > size<<20 {
								c.Report("rotate", "%d bytes in a file limited to %d MB", len(cur), size)
							}
							full := map[int]int{1: 2, 2: 1}[size]
							per := map[int]int{1: 3, 2: 6}[size]
							keep := full
							gone := age == 1 || backups > 0 && backups <= full // two days old
							if backups > 0 && backups < keep {
								keep = backups
							}
							state := func() string {
								es, _ := os.ReadDir(dir)
								var names []string
								text := ""
								kept := false
								for _, e := range es {
									n := e.Name()
									if strings.HasPrefix(n, filepath.Base(ancient)) {
										kept = true
										if strings.HasSuffix(n, ".gz") != compress {
											return "name of the older file " + n
										}
										continue
									}
									if n == "x.log" {
										continue
									}
									if strings.HasSuffix(n, ".gz") != compress {
										return "name " + n
									}
									names = append(names, n)
									now := time.Now().UTC()
									if local {
										now = now.Add(5 * time.Hour)
									}
									if at, err := time.Parse("x-2006-01-02T15-04-05.000.log", strings.TrimSuffix(n, ".gz")); err != nil || at.After(now) || at.Before(now.Add(-time.Hour)) {
										return "time in the name " + n
									}
									b, err := os.ReadFile(filepath.Join(dir, n))
									if err == nil && compress {
										if z, e := gzip.NewReader(bytes.NewReader(b)); e == nil {
											b, err = io.ReadAll(z)
										} else {
											err = e
										}
									}
									if err != nil {
										return err.Error()
									}
									text += string(b)
								}
								text += string(cur)
								if len(names) != keep {
									return fmt.Sprintf("%d files %q, expected %d", len(names), names, keep)
								}
								if kept == gone {
									return fmt.Sprintf("older file kept: %v", kept)
								}
								for i := 0; i < lines; i++ {
									if n := strings.Count(text, fmt.Sprintf("<%d> x", i)); n > 1 || (n == 1) != (i >= (full-keep)*per) {
										return fmt.Sprintf("line %d is there %d times", i, n)
									}
								}
								return ""
							}
							last := ""
							for i := 0; i < 400; i++ {
								if last = state(); last == "" {
									break
								}
								time.Sleep(25 * time.Millisecond)
							}
							if last != "" {
								c.FailTiming("rotate", "size %d, %d backups, age %d, compressed %v: %s", size, backups, age, compress, last)
							}
							r.Trans(lines)
							r.Exec(1)
							r.Validated(lines)
							r.State("rotate", backups, age, compress, local, size)
						})
					}
				}
			}
		}
	}
}

// forward: lines reach the log collector by its level, and stay as they were.
func forward(r *mc.R) {
	broken := false
	for _, vendor := range []string{"logstash", "fluentd"} {
		for fl := -1; fl < 7; fl++ {
			for _, lv := range levels {
				for _, scheme := range []string{"", "tcp://"} {
					vendor, fl, lv, scheme := vendor, fl, lv, scheme
					r.Case(fmt.Sprintf("forward %s %d %s %s", vendor, fl, lv, scheme), func(c *mc.C) {
						if broken {
							return // reported already; each further case would wait
						}
						fine := false
						defer func() { broken = broken || !fine }()
						ln, err := net.Listen("tcp", "127.0.0.1:0")
						if err != nil {
							panic("harness: " + err.Error())
						}
						defer ln.Close()
						got := make(chan string, 100)
						go func() {
							for {
								cn, err := ln.Accept()
								if err != nil {
									return
								}
								go func() {
									defer cn.Close()
									if vendor == "logstash" {
										s := bufio.NewScanner(cn)
										for s.Scan() {
											got <- s.Text()
										}
										return
									}
									b := make([]byte, 1<<16)
									for {
										n, err := cn.Read(b)
										if err != nil {
											return
										}
										got <- string(b[:n])
									}
								}()
							}
						}()
						o := newConsole(c)
						defer o.close()
						so := os.Stdout
						if nul, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
							os.Stdout = nul
							defer func() { os.Stdout = so; nul.Close() }()
						}
						k := &conf{level: lv, console: log.ErrorLevel, mods: map[string]log.Level{"m1": log.TraceLevel}, file: &bytes.Buffer{}}
						lg := fresh(k)
						log.SetGlobalLogger(lg)
						fc := &log.ForwarderConfig{Vendor: vendor, Address: scheme + ln.Addr().String(), Name: "nm"}
						lim := log.InfoLevel // when no level is given
						if fl >= 0 {
							lim = log.Level(fl)
							fc.Level = lim.String()
						}
						if vendor == "fluentd" && !(fl == 6 && scheme == "") {
							fc.Options = map[string]interface{}{"max_retry": 2, "retry_wait": 10, "timeout": 1000000000, "write_timeout": 1000000000}
						}
						if fl >= 0 && fl%2 == 0 {
							fc.TimeFormat = "2006/01/02 15h04.05"
						}
						tf := fc.TimeFormat
						if tf == "" {
							tf = time.RFC3339Nano
						}
						if err := log.AddForwarder(fc); err != nil {
							c.Fail("forwarder", "forwarder to %s: %v", fc.Address, err)
						}
						n := 0
						var want []line
						for i, l := range levels {
							if l == log.FatalLevel {
								continue
							}
							for _, m := range []string{"", "m1"} {
								x := line{lv: l, module: m, wallet: "abcd", extra: map[string]interface{}{"k": i}, text: fmt.Sprintf("text%d%s.", i, m)}
								one(c, "forwarding", o, k, x, lg.WithFields(x.fields()))
								if l <= lv && l <= lim {
									want = append(want, x)
								}
								n++
							}
						}
						last := line{lv: log.PanicLevel, wallet: "abcd", extra: map[string]interface{}{"k": 9}, text: "last."} // always forwarded: all before it have come when it comes
						one(c, "forwarding", o, k, last, lg.WithFields(last.fields()))
						want = append(want, last)
						deadline := time.After(20 * time.Second)
						var recs []string
						all := ""
						enough := func() bool {
							return strings.Contains(all, last.text)
						}
						for !enough() {
							select {
							case s := <-got:
								recs = append(recs, s)
								all += s
							case <-deadline:
								c.FailTiming("not-forwarded", "%s at level %s, forwarder %s: %d records of %d arrived", vendor, lv, lim, len(recs), len(want))
							}
						}
						for i, l := range levels {
							for _, m := range []string{"", "m1"} {
								if in := strings.Contains(all, fmt.Sprintf("text%d%s.", i, m)); in != (l != log.FatalLevel && l <= lv && l <= lim) {
									c.Report("forwarded", "%s at log level %s, forwarder level %s: line at %s of module %q forwarded: %v", vendor, lv, lim, l, m, in)
								}
							}
						}
						if vendor == "logstash" {
							if len(recs) != len(want) {
								c.Report("forwarded", "%d records, expected %d", len(recs), len(want))
							}
							for i, s := range recs {
								var m map[string]interface{}
								if err := json.Unmarshal([]byte(s), &m); err != nil || i >= len(want) {
									c.Fail("forwarded", "record %q: %v", s, err)
								}
								mod := want[i].module
								if mod == "" {
									mod = "main"
								}
								src, _ := m["src"].(string)
								_, err := time.Parse(tf, fmt.Sprint(m["@timestamp"]))
								lt := int64(0)
								if f, ok := m["logtime"].(float64); ok {
									lt = int64(f)
								}
								if m["message"] != want[i].text || fmt.Sprint(m["k"]) != fmt.Sprint(want[i].extra["k"]) || m["wallet"] != "abcd" || m["module"] != mod || m["type"] != "nm" || !strings.HasPrefix(src, "main.go:") || err != nil || lt < 1e18 {
									c.Report("record", "record %s of %+v", s, want[i])
								}
							}
						}
						r.Trans(n)
						r.Exec(1)
						r.Validated(2*n + len(want))
						r.State("fwd", vendor, fl, lv, scheme)
						fine = true
					})
				}
			}
		}
	}
	r.Case("forwarder settings", func(c *mc.C) {
		so := os.Stdout
		if nul, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
			os.Stdout = nul
			defer func() { os.Stdout = so; nul.Close() }()
		}
		log.SetGlobalLogger(log.New())
		for _, fc := range []*log.ForwarderConfig{{Vendor: "x", Address: "127.0.0.1:1"}, {Vendor: ""}, {Vendor: "logstash", Address: ""}, {Vendor: "fluentd", Address: ""}, {Vendor: "logstash", Address: "unix://x/y"}, {Vendor: "fluentd", Address: "unix://x/y"}, {Vendor: "logstash", Address: "127.0.0.1:1", Level: "loud"}, {Vendor: "fluentd", Address: "127.0.0.1:1", Level: "loud"}, {Vendor: "fluentd", Address: "127.0.0.1:1", Options: map[string]interface{}{"max_retry": "x"}}, {Vendor: "fluentd", Address: "127.0.0.1:1", Options: map[string]interface{}{"timeout": func() {}}}} {
			if err := log.AddForwarder(fc); err == nil {
				c.Report("forwarder-accepted", "%+v", fc)
			}
			r.Validated(1)
			r.Exec(1)
		}
		r.State("fwd settings")
	})
}

// program: the relay's settings do what the library's do, and no secret is written.
func program(r *mc.R) {
	bin := os.Getenv("VERIF_RELAY")
	key := bytes.Repeat([]byte{0x5a, 0x17}, 16)
	const pw = "pass-word-of-the-key"
	type set struct {
		lv, cl string
		file   bool
		mod    string
	}
	run := func(c *mc.C, dir, url string, s set) (code int, errs, file []string, all string) {
		side := func(n string) map[string]interface{} {
			return map[string]interface{}{"address": "btp://0x" + n + ".icon/cx000000000000000000000000000000000000000" + n, "endpoint": url, "key_store": ref.KeyStore("icx", key, []byte(pw), bytes.Repeat([]byte{7}, 8), bytes.Repeat([]byte{9}, 16), 2, 1, 1), "key_password": pw}
		}
		m := map[string]interface{}{"src": side("1"), "dst": side("2"), "direction": "both", "log_level": s.lv, "console_level": s.cl, "base_dir": "data"}
		os.Remove(filepath.Join(dir, "x.log"))
		if s.file {
			m["log_writer"] = map[string]interface{}{"filename": "x.log", "maxsize": 1}
		}
		b, _ := json.Marshal(m)
		os.WriteFile(filepath.Join(dir, "c.json"), b, 0600)
		args := []string{"--config", "c.json", "start"}
		if s.mod != "" {
			args = append(args, "--mod_level", "main="+s.mod)
		}
		cmd := exec.Command(bin, args...)
		cmd.Dir = dir
		cmd.Env = []string{"HOME=" + dir, "GOTRACEBACK=single"}
		cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &se
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			panic("harness: " + err.Error())
		}
		go func() { done <- cmd.Wait() }()
		select {
		case <-done:
		case <-time.After(60 * time.Second):
			cmd.Process.Kill()
			<-done
			c.FailTiming("program-stuck", "relay %v with %+v does not end", args, s)
		}
		code = cmd.ProcessState.ExitCode()
		fb, _ := os.ReadFile(filepath.Join(dir, "x.log"))
		all = so.String() + se.String() + string(fb)
		norm := func(t string) (out []string) {
			for _, l := range strings.Split(t, "\n") {
				p := strings.SplitN(l, "|", 6)
				if len(p) == 6 && len(p[0]) == 1 && strings.Contains(letters, p[0]) {
					out = append(out, p[0]+"|"+p[2]+"|"+p[3]+"|"+p[4]+"|"+p[5])
				}
			}
			return
		}
		return code, norm(se.String()), norm(string(fb)), all
	}
	filter := func(ls []string, lv string) (out []string) {
		l, _ := log.ParseLevel(lv)
		for _, x := range ls {
			if strings.IndexByte(letters, x[0]) <= int(l) {
				out = append(out, x)
			}
		}
		return
	}
	world := func(c *mc.C, f func(dir, url string, base []string)) {
		if bin == "" {
			r.Note("relay binary not built")
			return
		}
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(500) }))
		defer srv.Close()
		dir, _ := os.MkdirTemp(mc.Scratch(), "log")
		defer os.RemoveAll(dir)
		url := srv.URL + "/api/v3/x"
		_, _, base, _ := run(c, dir, url, set{"trace", "trace", true, ""})
		if len(base) == 0 {
			c.Fail("program-file", "no line in the log file of the relay")
		}
		f(dir, url, base)
	}
	names := []string{"panic", "fatal", "error", "warn", "info", "debug", "trace"}
	for _, lv := range names {
		for _, cl := range names {
			lv, cl := lv, cl
			r.Case("program "+lv+" "+cl, func(c *mc.C) {
				world(c, func(dir, url string, base []string) {
					for _, file := range []bool{false, true} {
						for _, mod := range []string{"", "error", "trace"} {
							s := set{lv, cl, file, mod}
							code, errs, fl, all := run(c, dir, url, s)
							if code != 1 {
								c.Report("program-code", "%+v: the relay ended with %d", s, code)
							}
							con := cl
							if mod != "" {
								con = mod // all lines here are of the main package
							}
							want := filter(base, lv)
							if file && strings.Join(fl, "\n") != strings.Join(want, "\n") {
								c.Report("program-file", "%+v: file %q, expected %q", s, fl, want)
							}
							wc := filter(want, con)
							// other lines (logo, notes on the settings) come before the settings are in force
							known := map[string]bool{}
							for _, x := range base {
								known[x] = true
							}
							var gc []string
							for _, x := range errs {
								if known[x] {
									gc = append(gc, x)
								}
							}
							if strings.Join(gc, "\n") != strings.Join(wc, "\n") {
								c.Report("program-console", "%+v: console %q, expected %q", s, gc, wc)
							}
							if strings.Contains(all, pw) || strings.Contains(strings.ToLower(all), hex.EncodeToString(key)) {
								c.Report("secret", "%+v: a password or key in the output", s)
							}
							r.Trans(1)
							r.Exec(1)
							r.Validated(3)
							r.State("prog", lv, cl, file, mod)
						}
					}
				})
			})
		}
	}
	r.Case("program wrong", func(c *mc.C) {
		world(c, func(dir, url string, base []string) {
			for _, s := range []set{{"loud", "info", true, ""}, {"info", "loud", true, ""}, {"info", "info", true, "loud"}, {"x", "x", false, ""}} {
				if code, _, fl, _ := run(c, dir, url, s); code == 0 || len(fl) > 1 {
					c.Report("program-wrong", "%+v: ended with %d, file %q", s, code, fl)
				}
				r.Exec(1)
				r.Validated(1)
			}
			r.State("prog wrong")
		})
	})
}
