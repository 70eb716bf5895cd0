// P39: settings of the relay program.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/icon-project/btp/common/wallet"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P39", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 1800 * time.Second,
		Assumptions: []string{
			"bounds: each setting of the command line by itself from every subset of {flag, environment, file} with different values (switches: every value from each source), thorough: every pair of settings; the required settings from every assignment of sources; every mix of key store, password and secret file of both sides",
			"settings that are empty text are not told apart from absent ones; keys of options are in lower case; paths are P27's",
		}}, body)
}

var key = map[string][]byte{"src": bytes.Repeat([]byte{0x5a, 0x17}, 16), "dst": bytes.Repeat([]byte{0x33, 0x71}, 16)}

const (
	right = "the-password"
	wrong = "another"
)

func store(side, pw string) map[string]interface{} {
	b, _ := json.Marshal(ref.KeyStore("icx", key[side], []byte(pw), bytes.Repeat([]byte{7}, 8), bytes.Repeat([]byte{9}, 16), 2, 1, 1))
	var m map[string]interface{}
	json.Unmarshal(b, &m)
	return m
}

type world struct {
	c   *mc.C
	dir string
	n   int
}

func newWorld(c *mc.C) *world {
	d, err := os.MkdirTemp(mc.Scratch(), "set")
	if err != nil {
		panic("harness: " + err.Error())
	}
	return &world{c: c, dir: d}
}
func (w *world) close() { os.RemoveAll(w.dir) }

func (w *world) run(env []string, args ...string) (int, string) {
	cmd := exec.Command(os.Getenv("VERIF_RELAY"), args...)
	cmd.Dir = w.dir
	cmd.Env = append([]string{"HOME=" + w.dir, "GOTRACEBACK=single"}, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &o
	if err := cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
		cmd.Process.Kill()
		<-done
		w.c.FailTiming("stuck", "relay %v does not end", args)
	}
	return cmd.ProcessState.ExitCode(), o.String()
}

// put sets m[a][b] for "a.b".
func put(m map[string]interface{}, name string, v interface{}) {
	if i := strings.Index(name, "."); i >= 0 {
		s, ok := m[name[:i]].(map[string]interface{})
		if !ok {
			s = map[string]interface{}{}
			m[name[:i]] = s
		}
		s[name[i+1:]] = v
		return
	}
	m[name] = v
}
func del(m map[string]interface{}, name string) {
	if i := strings.Index(name, "."); i >= 0 {
		if s, ok := m[name[:i]].(map[string]interface{}); ok {
			delete(s, name[i+1:])
		}
		return
	}
	delete(m, name)
}
func get(m map[string]interface{}, name string) interface{} {
	if i := strings.Index(name, "."); i >= 0 {
		s, _ := m[name[:i]].(map[string]interface{})
		return s[name[i+1:]]
	}
	return m[name]
}

// same compares key stores; the names in them are read whatever their case.
func same(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	var m, n map[string]interface{}
	json.Unmarshal(bytes.ToLower(x), &m)
	json.Unmarshal(bytes.ToLower(y), &n)
	return a != nil && b != nil && reflect.DeepEqual(m, n)
}

func (w *world) file(m map[string]interface{}) string {
	w.n++
	p := filepath.Join(w.dir, fmt.Sprintf("c%d.json", w.n))
	b, _ := json.Marshal(m)
	os.WriteFile(p, b, 0600)
	return p
}

// save runs the save command and returns what it wrote.
func (w *world) save(m map[string]interface{}, env []string, flags ...string) (map[string]interface{}, int, string) {
	out := filepath.Join(w.dir, "out.json")
	os.Remove(out)
	code, o := w.run(env, append(append([]string{"--config", w.file(m)}, flags...), "save", out)...)
	b, err := os.ReadFile(out)
	if err != nil {
		return nil, code, o
	}
	var r map[string]interface{}
	if err := json.Unmarshal(b, &r); err != nil {
		w.c.Fail("saved-form", "saved configuration: %v in %s", err, b)
	}
	return r, code, o
}

type setting struct {
	name   string
	def    interface{}
	values []interface{} // by flag, environment, file
	omit   bool          // an empty value is left out of the saved file
}

var settings = []setting{
	{"src.address", "", []interface{}{"btp://0x1.icon/cx01", "btp://0x2.icon/cx02", "btp://0x3.icon/cx03"}, false},
	{"src.endpoint", "", []interface{}{"http://a/1", "http://b/2", "http://c/3"}, false},
	{"src.bridge_mode", false, nil, false},
	{"dst.address", "", []interface{}{"btp://0x4.icon/cx04", "btp://0x5.icon/cx05", "btp://0x6.icon/cx06"}, false},
	{"dst.endpoint", "", []interface{}{"http://d/1", "http://e/2", "http://f/3"}, false},
	{"dst.bridge_mode", false, nil, false},
	{"direction", "both", []interface{}{"front", "reverse", "both"}, false},
	{"maxSizeTx", false, nil, false},
	{"offset", float64(0), []interface{}{float64(7), float64(1 << 40), float64(12)}, false},
	{"log_level", "debug", []interface{}{"info", "warn", "trace"}, false},
	{"console_level", "trace", []interface{}{"info", "warn", "error"}, false},
	{"log_forwarder.vendor", "", []interface{}{"fluentd", "logstash", "x"}, false},
	{"log_forwarder.address", "", []interface{}{"h:1", "h:2", "h:3"}, false},
	{"log_forwarder.level", "info", []interface{}{"warn", "error", "debug"}, false},
	{"log_forwarder.name", "", []interface{}{"n1", "n2", "n3"}, false},
	{"src.options", nil, []interface{}{obj{"a": "1", "b": "x"}, obj{"a": float64(2), "c": "y"}, obj{"a": float64(3), "d": true}}, false},
	{"dst.options", nil, []interface{}{obj{"e": "1"}, obj{"f": "2", "g": "h"}, obj{"e": "3"}}, false},
	{"log_forwarder.options", nil, []interface{}{obj{"max_retry": "1"}, obj{"max_retry": float64(2)}, obj{"timeout": float64(3)}}, false},
	{"log_writer.maxsize", float64(100), []interface{}{float64(1), float64(2), float64(3)}, false},
	{"log_writer.maxage", float64(0), []interface{}{float64(4), float64(5), float64(6)}, false},
	{"log_writer.maxbackups", float64(0), []interface{}{float64(7), float64(8), float64(9)}, false},
	{"log_writer.localtime", false, nil, false},
	{"log_writer.compress", false, nil, false},
}

type obj = map[string]interface{}

func text(v interface{}, flag bool) string {
	if o, ok := v.(obj); ok {
		if !flag {
			b, _ := json.Marshal(o)
			return string(b)
		}
		var l []string
		for k, x := range o {
			l = append(l, k+"="+fmt.Sprint(x))
		}
		sort.Strings(l)
		return strings.Join(l, ",")
	}
	if f, ok := v.(float64); ok {
		return fmt.Sprintf("%.0f", f)
	}
	return fmt.Sprint(v)
}

// choices are all assignments of values to the three sources; nil is absent.
func (s setting) choices() (out [][3]interface{}) {
	if s.values != nil {
		for m := 0; m < 8; m++ {
			var a [3]interface{}
			for i := range a {
				if m>>i&1 == 1 {
					a[i] = s.values[i]
				}
			}
			out = append(out, a)
		}
		return
	}
	o := []interface{}{nil, true, false}
	for _, x := range o {
		for _, y := range o {
			for _, z := range o {
				out = append(out, [3]interface{}{x, y, z})
			}
		}
	}
	return
}
func (s setting) effective(a [3]interface{}) interface{} {
	for _, v := range a {
		if v != nil {
			return v
		}
	}
	return s.def
}

func base() map[string]interface{} {
	return map[string]interface{}{
		"src": map[string]interface{}{"address": "btp://0x1.icon/cx1", "endpoint": "http://s", "key_store": store("src", right), "key_password": right},
		"dst": map[string]interface{}{"address": "btp://0x2.icon/cx2", "endpoint": "http://d", "key_store": store("dst", right), "key_password": right},
	}
}

func envName(n string) string { return "BTP2_" + strings.ToUpper(strings.ReplaceAll(n, ".", "_")) }

func apply(m map[string]interface{}, s setting, a [3]interface{}) (flags, env []string) {
	del(m, s.name)
	if a[0] != nil {
		flags = append(flags, "--"+s.name+"="+text(a[0], true))
	}
	if a[1] != nil {
		env = append(env, envName(s.name)+"="+text(a[1], false))
	}
	if a[2] != nil {
		put(m, s.name, a[2])
	}
	return
}

func body(r *mc.R) {
	if os.Getenv("VERIF_RELAY") == "" {
		r.Note("relay binary not built")
		return
	}
	// compare says where got differs from want
	compare := func(c *mc.C, what string, got, want map[string]interface{}) {
		for _, s := range settings {
			if g, w := get(got, s.name), get(want, s.name); !reflect.DeepEqual(g, w) {
				c.Report("value", "%s: %s is %v, expected %v", what, s.name, g, w)
			}
			r.Validated(1)
		}
		for _, n := range []string{"src", "dst"} {
			if g, w := get(got, n+".key_store"), get(want, n+".key_store"); !same(g, w) {
				c.Report("key-store", "%s: key store of %s is %v, expected %v", what, n, g, w)
			}
		}
	}
	expect := func(m map[string]interface{}, sel map[string]interface{}) map[string]interface{} {
		want := map[string]interface{}{}
		for _, s := range settings {
			v := get(m, s.name)
			if v == nil {
				v = s.def
			}
			if x, ok := sel[s.name]; ok {
				v = x
			}
			put(want, s.name, v)
		}
		for _, n := range []string{"src", "dst"} {
			put(want, n+".key_store", get(m, n+".key_store"))
		}
		return want
	}
	for i, s := range settings {
		s, i := s, i
		r.Case("one "+s.name, func(c *mc.C) {
			w := newWorld(c)
			defer w.close()
			for _, a := range s.choices() {
				m := base()
				flags, env := apply(m, s, a)
				got, code, o := w.save(m, env, flags...)
				what := fmt.Sprintf("%s from flag, environment, file %v", s.name, a)
				if got == nil || code != 0 {
					c.Fail("save", "%s: ended with %d: %s", what, code, o)
				}
				compare(c, what, got, expect(m, map[string]interface{}{s.name: s.effective(a)}))
				b, _ := json.Marshal(got)
				if strings.Contains(string(b), right) {
					c.Report("password-saved", "%s: %s", what, b)
				}
				r.Exec(1)
				r.Trans(1)
				r.State("one", s.name, fmt.Sprint(a))
			}
		})
		for j := i + 1; j < len(settings); j++ {
			t := settings[j]
			if !r.Thorough() {
				break
			}
			for ai, a := range s.choices() {
				a := a
				r.Case(fmt.Sprintf("two %s %s %d", s.name, t.name, ai), func(c *mc.C) {
					w := newWorld(c)
					defer w.close()
					for _, b := range t.choices() {
						m := base()
						f1, e1 := apply(m, s, a)
						f2, e2 := apply(m, t, b)
						got, code, o := w.save(m, append(e1, e2...), append(f2, f1...)...)
						what := fmt.Sprintf("%s from %v and %s from %v", s.name, a, t.name, b)
						if got == nil || code != 0 {
							c.Fail("save", "%s: ended with %d: %s", what, code, o)
						}
						compare(c, what, got, expect(m, map[string]interface{}{s.name: s.effective(a), t.name: t.effective(b)}))
						r.Exec(1)
						r.Trans(1)
						r.State("two", s.name, t.name, fmt.Sprint(a, b))
					}
				})
			}
		}
	}
	// all settings from one source each
	r.Case("all", func(c *mc.C) {
		w := newWorld(c)
		defer w.close()
		for src := 0; src < 3; src++ {
			m := base()
			sel := map[string]interface{}{}
			var flags, env []string
			for _, s := range settings {
				var a [3]interface{}
				if s.values != nil {
					a[src] = s.values[src]
				} else {
					a[src] = true
				}
				f, e := apply(m, s, a)
				flags, env = append(flags, f...), append(env, e...)
				sel[s.name] = s.effective(a)
			}
			got, code, o := w.save(m, env, flags...)
			if got == nil || code != 0 {
				c.Fail("save", "all settings from %d: ended with %d: %s", src, code, o)
			}
			compare(c, fmt.Sprint("all settings from ", src), got, expect(m, sel))
			r.Exec(1)
			r.Trans(1)
			r.State("all", src)
		}
	})
	required(r)
	wallets(r)
}

// required: start refuses to begin without the four settings it needs, and names what is missing.
func required(r *mc.R) {
	names := []string{"src.address", "dst.address", "src.endpoint", "dst.endpoint"}
	byName := map[string]setting{}
	for _, s := range settings {
		byName[s.name] = s
	}
	for k := 0; k < 4; k++ {
		for l := 0; l < 4; l++ {
			k, l := k, l
			r.Case(fmt.Sprintf("required %d %d", k, l), func(c *mc.C) {
				w := newWorld(c)
				defer w.close()
				for x := 0; x < 16; x++ {
					from := []int{k, l, x / 4, x % 4}
					m := base()
					var flags, env, missing []string
					for i, n := range names {
						var a [3]interface{}
						if from[i] < 3 {
							a[from[i]] = byName[n].values[from[i]]
						} else {
							missing = append(missing, n)
						}
						f, e := apply(m, byName[n], a)
						flags, env = append(flags, f...), append(env, e...)
					}
					put(m, "src.key_password", wrong) // so that nothing is started
					code, o := w.run(env, append(append([]string{"--config", w.file(m)}, flags...), "start")...)
					if code != 1 {
						c.Report("start-code", "sources %v: start ended with %d: %s", from, code, o)
					}
					var named []string
					for _, n := range names {
						if strings.Contains(o, `"`+n+`"`) {
							named = append(named, n)
						}
					}
					if fmt.Sprint(named) != fmt.Sprint(missing) {
						c.Report("missing", "missing %v, named %v: %s", missing, named, o)
					}
					if (len(missing) > 0) != strings.Contains(o, "required flag(s)") {
						c.Report("missing", "missing %v: %s", missing, o)
					}
					r.Exec(1)
					r.Trans(1)
					r.Validated(2)
					r.State("required", fmt.Sprint(from))
				}
			})
		}
	}
}

// wallets: passwords and secret files open the key stores they belong to, and only those.
func wallets(r *mc.R) {
	pws := []string{"", right, wrong}
	secs := []string{"", "right", "wrong", "none"}
	ok := func(pw, sec string) bool {
		if sec != "" {
			return sec == "right"
		}
		return pw == right
	}
	for _, p1 := range pws {
		for _, s1 := range secs {
			p1, s1 := p1, s1
			r.Case("wallets "+p1+" "+s1, func(c *mc.C) {
				w := newWorld(c)
				defer w.close()
				os.WriteFile(filepath.Join(w.dir, "right"), []byte(right), 0600)
				os.WriteFile(filepath.Join(w.dir, "wrong"), []byte(wrong), 0600)
				for _, p2 := range pws {
					for _, s2 := range secs {
						m := base()
						for n, v := range map[string][2]string{"src": {p1, s1}, "dst": {p2, s2}} {
							put(m, n+".key_password", v[0])
							if v[1] != "" {
								put(m, n+".key_secret", filepath.Join(w.dir, v[1]))
							}
						}
						ks1, ks2 := filepath.Join(w.dir, "k1"), filepath.Join(w.dir, "k2")
						os.Remove(ks1)
						os.Remove(ks2)
						out := filepath.Join(w.dir, "out.json")
						os.Remove(out)
						args := []string{"--config", w.file(m), "save", out}
						if s2 != "right" {
							args = append(args, "--save_src_key_store", ks1)
						}
						if p2 != right || s2 == "right" {
							args = append(args, "--save_dst_key_store", ks2)
						}
						code, o := w.run(nil, args...)
						good := ok(p1, s1) && ok(p2, s2)
						what := fmt.Sprintf("source password %q secret %q, destination password %q secret %q", p1, s1, p2, s2)
						if good != (code == 0) {
							c.Report("wallet", "%s: save ended with %d: %s", what, code, o)
						}
						if _, err := os.Stat(out); (err == nil) != good {
							c.Report("wallet", "%s: saved: %v", what, err == nil)
						}
						for n, p := range map[string]string{"src": ks1, "dst": ks2} {
							asked := strings.Contains(strings.Join(args, " "), p)
							b, err := os.ReadFile(p)
							if (err == nil) != (asked && good) {
								c.Report("key-store-file", "%s: key store of %s written: %v, expected %v", what, n, err == nil, asked && good)
							}
							if err == nil {
								var g map[string]interface{}
								if e := json.Unmarshal(b, &g); e != nil || !same(g, get(m, n+".key_store")) {
									c.Report("key-store-file", "%s: key store of %s is %s", what, n, b)
								}
								if fi, _ := os.Stat(p); fi.Mode().Perm()&077 != 0 {
									c.Report("key-store-file", "%s: key store of %s has mode %v", what, n, fi.Mode())
								}
							}
						}
						if strings.Contains(o, right) && !strings.Contains(w.dir, right) {
							c.Report("password-shown", "%s: %s", what, o)
						}
						r.Exec(1)
						r.Trans(1)
						r.Validated(4)
						r.State("wallets", p1, s1, p2, s2)
					}
				}
			})
		}
	}
	// new key stores are made where none is given
	for i := 1; i < 4; i++ {
		i := i
		r.Case(fmt.Sprint("new ", i), func(c *mc.C) {
			w := newWorld(c)
			defer w.close()
			m := base()
			sides := []string{"src", "dst"}
			pw := map[string]string{"src": "one", "dst": "two"}
			var fresh []string
			for k, n := range sides {
				if i>>k&1 == 1 {
					del(m, n+".key_store")
					put(m, n+".key_password", pw[n])
					fresh = append(fresh, n)
				}
			}
			sort.Strings(fresh)
			var seen []string
			for k := 0; k < 2; k++ {
				got, code, o := w.save(m, nil)
				if got == nil || code != 0 {
					c.Fail("new", "save without key store of %v ended with %d: %s", fresh, code, o)
				}
				for _, n := range sides {
					b, _ := json.Marshal(get(got, n+".key_store"))
					p := right
					if strings.Contains(strings.Join(fresh, " "), n) {
						p = pw[n]
					} else if !same(get(got, n+".key_store"), get(m, n+".key_store")) {
						c.Report("new", "the given key store of %s was replaced", n)
					}
					wl, err := wallet.DecryptKeyStore(b, []byte(p))
					if err != nil {
						c.Report("new", "key store of %s after save without that of %v: %v", n, fresh, err)
						continue
					}
					if p != right {
						for _, a := range seen {
							if a == wl.Address() {
								c.Report("new", "the new key of %s was used before", n)
							}
						}
						seen = append(seen, wl.Address())
					}
				}
				r.Exec(1)
				r.Trans(1)
				r.Validated(2)
			}
			r.State("new", i)
		})
	}
}
