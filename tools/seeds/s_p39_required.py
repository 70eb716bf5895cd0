ID="p39-required-by-section"; PROPERTY="P39"
NEEDS="a configuration file that has the section of one side but not its endpoint or address"
BREAKS="start does not notice that a required setting is given nowhere"
EDITS=[("common/cli/helper.go","""			if v := vc.GetString(f.Name); v == f.DefValue {
				missingFlagNames""","""			v := vc.Get(f.Name)
			if v == nil || v == "" {
				v = vc.Get(strings.SplitN(f.Name, ".", 2)[0])
			}
			if v == nil || v == f.DefValue {
				missingFlagNames""")]
PKG="common/cli"
TEST='''package cli
import ("strings"; "testing"; "github.com/spf13/pflag"; "github.com/spf13/viper")
func TestDemo(t *testing.T) {
	for _, x := range []struct{ cfg, miss string }{{"{}", "a.x a.y"}, {`{"a":{"x":"1"}}`, "a.y"}, {`{"a":{"y":"1"}}`, "a.x"}, {`{"a":{"x":"1","y":"2"}}`, ""}} {
		fs := pflag.NewFlagSet("t", pflag.ContinueOnError); fs.String("a.x", "", ""); fs.String("a.y", "", ""); fs.String("z", "", "")
		vc := viper.New(); vc.SetConfigType("json"); BindPFlags(vc, fs); if err := MarkAnnotationCustom(fs, "a.x", "a.y"); err != nil { t.Fatal(err) }
		if err := vc.ReadConfig(strings.NewReader(x.cfg)); err != nil { t.Fatal(err) }
		err := ValidateFlagsWithViper(vc, fs)
		if (err != nil) != (x.miss != "") { t.Fatalf("%s: %v", x.cfg, err) }
		for _, n := range strings.Fields(x.miss) { if !strings.Contains(err.Error(), `"`+n+`"`) { t.Fatalf("%s: %v", x.cfg, err) } }
	}
}
'''
