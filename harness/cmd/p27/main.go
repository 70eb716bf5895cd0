// P27: configuration files.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/icon-project/btp/chain"
	"github.com/icon-project/btp/common/config"
	"github.com/icon-project/btp/common/types"
	"github.com/icon-project/btp/common/wallet"

	"verif/mc"
	"verif/ref"
)

func main() {
	mc.Main("P27", mc.Options{Exhaustive: true, QuickBudget: 400 * time.Second, FullBudget: 1800 * time.Second,
		Assumptions: []string{
			"bounds: every combination of 4 working directories, 5 configuration file locations and 18 path shapes for resolution; every combination of save location, load location, working directories before and after, and base directory for files; for the program: every combination of working directory, loaded configuration, flag and output file listed in the code, two generations of save",
			"option names are lower case (the configuration library folds case)",
		}}, body)
}

func body(r *mc.R) {
	root, err := os.MkdirTemp(mc.Scratch(), "cfg")
	if err != nil {
		panic(err)
	}
	root, _ = filepath.EvalSymlinks(root)
	defer os.RemoveAll(root)
	defer os.Chdir("/")
	dirs := []string{root, root + "/sub", root + "/sub/deep", root + "/other", root + "/subway"}
	for _, d := range dirs {
		os.MkdirAll(d, 0755)
	}
	targets := []string{"", ".", "..", "a", "./a", "a/b", "../a", "../../a", "../sub/a", "a/../b", "a/", "a//b", "../../../../../../../../../../x", "/abs/x", "//abs//x/../y", root + "/a", root + "/sub/deep/a", root + "/subway/a", root + "/sub", root + "/su", "../subway/b", "../sub2", "..a", "...", "../..b", ".hidden", "sp ace/é"}
	files := []string{"", root + "/c.json", root + "/sub/c.json", root + "/sub/deep/c.json", "/c.json"}
	abs := func(cwd, t string) string {
		if filepath.IsAbs(t) {
			return filepath.Clean(t)
		}
		return filepath.Clean(cwd + "/" + t)
	}
	for ci, cwd := range dirs {
		for fi, f := range files {
			cwd, f := cwd, f
			r.Case(fmt.Sprintf("resolve %d %d", ci, fi), func(c *mc.C) {
				os.Chdir(cwd)
				fc := &config.FileConfig{FilePath: f}
				base := cwd
				if f != "" {
					base = filepath.Dir(f)
				}
				for ti, t := range targets {
					got := fc.ResolveAbsolute(t)
					want := abs(base, t)
					if filepath.Clean(got) != want || !filepath.IsAbs(got) {
						c.Report("absolute", "file %q cwd %s: %q resolves to %q, expected %q", f, cwd, t, got, want)
					}
					rel := fc.ResolveRelative(t)
					if filepath.IsAbs(rel) || fc.ResolveAbsolute(rel) != abs(cwd, t) {
						c.Report("relative", "file %q cwd %s: %q becomes %q, which resolves to %q instead of %q", f, cwd, t, rel, fc.ResolveAbsolute(rel), abs(cwd, t))
					}
					// making an absolute location relative and back is the identity
					if back := fc.ResolveAbsolute(fc.ResolveRelative(want)); back != want {
						c.Report("identity", "file %q cwd %s: %q comes back as %q", f, cwd, want, back)
					}
					fc.BaseDir = t
					if filepath.Clean(fc.AbsBaseDir()) != want {
						c.Report("base-dir", "file %q cwd %s: base %q is %q, expected %q", f, cwd, t, fc.AbsBaseDir(), want)
					}
					if fc.FilePath != f {
						c.Report("file-path", "resolving changes the file path")
					}
					if f != "" { // independent of the working directory
						for _, o := range dirs {
							os.Chdir(o)
							if fc.ResolveAbsolute(t) != got {
								c.Report("cwd-dependent", "file %q: %q depends on the working directory", f, t)
							}
						}
						os.Chdir(cwd)
					}
					r.Trans(4)
					r.Exec(1)
					r.Validated(4)
					r.State(ci, fi, ti)
				}
			})
		}
	}
	full := func(bd string) *chain.Config {
		return &chain.Config{
			FileConfig: config.FileConfig{BaseDir: bd},
			Src:        chain.BaseConfig{Address: types.BtpAddress("btp://0x1.icon/cx01"), Endpoint: "http://a?b=<&>", KeyStoreData: json.RawMessage(`{"a":1}`), KeyStorePass: "p\"\\\u00e9", BridgeMode: true, Options: map[string]interface{}{"k": "v", "n": 1.5, "l": []interface{}{"x"}}},
			Dst:        chain.BaseConfig{Address: types.BtpAddress("btp://0x2.eth/0x02"), KeySecret: "f", KeyStoreData: json.RawMessage(`null`)},
			MaxSizeTx:  true, Direction: "both", Offset: 1<<53 + 1,
		}
	}
	names := []string{"c.json", "./x/../c.json", "../c.json", "sub/c.json", "no/such/c.json", "", root + "/abs.json", root + "/other/abs.json"}
	for ci, cwd := range dirs {
		for pi, prev := range []string{"", root + "/sub/deep/p.json"} {
			for ni, name := range names {
				cwd, prev, name := cwd, prev, name
				r.Case(fmt.Sprintf("save %d %d %d", ci, pi, ni), func(c *mc.C) {
					for bi, bd := range targets {
						os.Chdir(cwd)
						base := cwd
						if prev != "" {
							base = filepath.Dir(prev)
						}
						loc := abs(base, name)
						if name != "" {
							os.Remove(loc)
						}
						if bi%2 == 1 && name != "" { // an older, longer file is there
							os.WriteFile(loc, bytes.Repeat([]byte("{}x"), 2000), 0644)
						}
						cfg := full(bd)
						cfg.FilePath = prev
						_, derr := os.Stat(filepath.Dir(loc))
						ok := derr == nil && name != ""
						err := config.Save(cfg, name)
						if (err == nil) != ok {
							c.Fail("save", "save %q cwd %s prev %q: err %v", name, cwd, prev, err)
						}
						ld := &chain.Config{}
						ld.FilePath = prev
						if !ok {
							if cfg.FilePath != prev {
								c.Fail("save-failed", "failed save changes the file path to %q", cfg.FilePath)
							}
							if config.Load(ld, name) == nil {
								c.Fail("load-missing", "loading missing %q succeeds", name)
							}
							if ld.FilePath != prev {
								c.Fail("load-failed", "failed load changes the file path to %q", ld.FilePath)
							}
							continue
						}
						if cfg.FilePath != loc {
							c.Fail("save-path", "saved to %q, file path %q", loc, cfg.FilePath)
						}
						if b, err := os.ReadFile(loc); err != nil || !json.Valid(b) {
							c.Fail("save-content", "%s holds %.60s %v", loc, b, err)
						}
						if err := config.Load(ld, name); err != nil {
							c.Fail("load", "load %q: %v", name, err)
						}
						want := full(bd)
						want.FilePath = loc
						for _, x := range []*chain.Config{ld, want} {
							for _, k := range []*chain.BaseConfig{&x.Src, &x.Dst} {
								var b bytes.Buffer
								json.Compact(&b, k.KeyStoreData)
								k.KeyStoreData = b.Bytes()
							}
						}
						if !reflect.DeepEqual(ld, want) {
							c.Fail("load-equal", "loaded %+v, expected %+v", ld, want)
						}
						for _, o := range dirs {
							os.Chdir(o)
							if ld.AbsBaseDir() != cfg.AbsBaseDir() || filepath.Clean(ld.AbsBaseDir()) != abs(filepath.Dir(loc), bd) {
								c.Fail("base-after-load", "base %q of %s is %q after loading in %s, %q before", bd, loc, ld.AbsBaseDir(), o, cfg.AbsBaseDir())
							}
						}
						r.Trans(3)
						r.Exec(1)
						r.Validated(3)
						r.State("save", ci, pi, ni, bi)
					}
				})
			}
		}
	}
	r.Case("malformed", func(c *mc.C) {
		os.Chdir(root)
		b, _ := json.Marshal(full("x"))
		for i := 0; i < len(b); i++ {
			os.WriteFile(root+"/bad.json", b[:i], 0644)
			ld := &chain.Config{}
			if config.Load(ld, "bad.json") == nil {
				c.Fail("load-truncated", "truncated configuration %s loads", b[:i])
			}
			if ld.FilePath != "" {
				c.Fail("load-failed", "failed load changes the file path")
			}
			r.Exec(1)
			r.Trans(1)
		}
	})
	program(r, root)
}

func program(r *mc.R, root string) {
	bin := os.Getenv("VERIF_RELAY")
	key := ref.Pad32(ref.G.X)
	ks, _ := json.Marshal(ref.KeyStore("icx", key, []byte("pw"), bytes.Repeat([]byte{7}, 8), bytes.Repeat([]byte{9}, 16), 2, 1, 1))
	os.WriteFile(root+"/ks.json", ks, 0600)
	os.WriteFile(root+"/secret", []byte("pw"), 0600)
	type conf struct{ dir, base, logf string }
	confs := []*conf{nil}
	for _, d := range []string{"", "/sub"} {
		confs = append(confs, &conf{d, "", ""}, &conf{d, "data", "log/x.log"}, &conf{d, "../data", "../x.log"}, &conf{d, root + "/abs", root + "/abs.log"})
	}
	cwds := []string{"", "/sub", "/other"}
	outs := []string{"out.json", "../other/out.json", "deep/out.json", "ABS"}
	flags := []string{"", "fdata", "../fdata", root + "/fabs"}
	sj := func(v interface{}) []byte { b, _ := json.Marshal(v); return b }
	for ci, cwd := range cwds {
		for fi, cf := range confs {
			for oi, out := range outs {
				cwd, cf, out := root+cwd, cf, out
				r.Case(fmt.Sprintf("relay save %d %d %d", ci, fi, oi), func(c *mc.C) {
					for _, fb := range flags {
						for _, fl := range []string{"", "f.log"} {
							if cf == nil && cwd == root && strings.HasPrefix(out, "..") {
								continue // outside the scratch directory
							}
							outp := out
							if out == "ABS" {
								outp = root + "/sub/deep/abs.json"
							}
							loc := filepath.Clean(filepath.Join(cwd, outp))
							if filepath.IsAbs(outp) {
								loc = outp
							}
							if _, err := os.Stat(filepath.Dir(loc)); err != nil || !strings.HasPrefix(loc, root) {
								continue
							}
							os.Remove(loc)
							args := []string{"save"}
							wb, wl := "", ""
							want := map[string]string{"src.address": "btp://0x1.icon/cx01", "dst.address": "btp://0x2.eth/0x02", "src.endpoint": "http://s", "dst.endpoint": "http://d", "direction": "front", "offset": "7", "maxSizeTx": "true", "log_level": "warn", "console_level": "error", "src.bridge_mode": "true", "dst.bridge_mode": "false", "src.options": `{"a":"1","b":"x"}`, "log_writer.maxsize": "5"}
							if cf == nil {
								args = append(args, "--src.address", "btp://0x1.icon/cx01", "--dst.address", "btp://0x2.eth/0x02", "--src.endpoint", "http://s", "--dst.endpoint", "http://d",
									"--direction", "front", "--offset", "7", "--maxSizeTx", "--log_level", "warn", "--console_level", "error", "--src.bridge_mode", "--src.options", "a=1,b=x", "--log_writer.maxsize", "5",
									"--src.key_store", root+"/ks.json", "--src.key_password", "pw", "--dst.key_store", root+"/ks.json", "--dst.key_secret", root+"/secret")
							} else {
								m := map[string]interface{}{
									"src":       map[string]interface{}{"address": "btp://0x1.icon/cx01", "endpoint": "http://s", "bridge_mode": true, "options": map[string]interface{}{"a": "1", "b": "x"}, "key_store": json.RawMessage(ks), "key_password": "pw"},
									"dst":       map[string]interface{}{"address": "btp://0x2.eth/0x02", "endpoint": "http://d", "key_store": json.RawMessage(ks), "key_secret": root + "/secret"},
									"direction": "front", "offset": 7, "maxSizeTx": true, "log_level": "warn", "console_level": "error",
									"log_writer": map[string]interface{}{"filename": cf.logf, "maxsize": 5},
								}
								cd := root + cf.dir
								if cf.base != "" {
									m["base_dir"] = cf.base
									wb = abs2(cd, cf.base)
								}
								if cf.logf != "" {
									wl = abs2(cd, cf.logf)
								}
								os.WriteFile(cd+"/conf.json", sj(m), 0644)
								rel, _ := filepath.Rel(cwd, cd+"/conf.json")
								args = append(args, "-c", rel)
							}
							if fb != "" {
								args = append(args, "--base_dir", fb)
								wb = abs2(cwd, fb)
							}
							if fl != "" {
								args = append(args, "--log_writer.filename", fl)
								wl = abs2(cwd, fl)
							}
							run := func(dir string, args []string) {
								cmd := exec.Command(bin, args...)
								cmd.Dir = dir
								cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + root}
								if o, err := cmd.CombinedOutput(); err != nil {
									c.Fail("save-fails", "relay %v in %s: %v\n%s", args, dir, err, o)
								}
							}
							verify := func(what, loc string) {
								b, err := os.ReadFile(loc)
								var m map[string]interface{}
								if err != nil || json.Unmarshal(b, &m) != nil {
									c.Fail("saved-file", "%s: %v", what, err)
								}
								at := func(p string) interface{} {
									var v interface{} = m
									for _, k := range strings.Split(p, ".") {
										mm, _ := v.(map[string]interface{})
										v = mm[k]
									}
									return v
								}
								for k, w := range want {
									g, _ := json.Marshal(at(k))
									if strings.Trim(string(g), "\"") != w {
										c.Fail("value:"+k, "%s: %s is %s, expected %s", what, k, g, w)
									}
								}
								res := func(v interface{}) string {
									s, _ := v.(string)
									if s == "" {
										return ""
									}
									return abs2(filepath.Dir(loc), s)
								}
								if g := res(at("base_dir")); g != wb {
									c.Fail("base_dir", "%s (relay %v in %s): base_dir %q means %q, expected %q", what, args, cwd, at("base_dir"), g, wb)
								}
								if g := res(at("log_writer.filename")); g != wl {
									c.Fail("log_file", "%s (relay %v in %s): log file %q means %q, expected %q", what, args, cwd, at("log_writer.filename"), g, wl)
								}
								for _, sd := range []string{"src", "dst"} {
									w, err := wallet.DecryptKeyStore(sj(at(sd+".key_store")), []byte("pw"))
									if err != nil || w.Address() != ref.IconAddress(key) {
										c.Fail("key_store", "%s: %s key store does not open: %v", what, sd, err)
									}
									if at(sd+".key_password") != nil {
										c.Fail("key_password", "%s: password saved", what)
									}
								}
								r.Validated(1)
							}
							run(cwd, append(args, outp))
							verify("saved", loc)
							// second generation from other directories
							for gi, d := range []string{root, root + "/sub/deep"} {
								o2 := root + "/other/second.json"
								run(d, []string{"save", "-c", loc, "--src.key_password", "pw", o2})
								verify(fmt.Sprintf("saved again from %d", gi), o2)
							}
							r.Exec(3)
							r.Trans(3)
							r.State(ci, fi, oi, fb, fl)
						}
					}
				})
			}
		}
	}
}

func abs2(cwd, t string) string {
	if filepath.IsAbs(t) {
		return filepath.Clean(t)
	}
	return filepath.Clean(cwd + "/" + t)
}
