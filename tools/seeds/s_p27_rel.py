ID="p27-resolve-relative"; PROPERTY="P27"
NEEDS="a configuration file in another directory than the resource, and a resource path with a common name prefix (e.g. /a/conf and /a/conf2)"
BREAKS="a resource in a sibling directory whose name starts with the config directory's name is written relative to the wrong place"
EDITS=[("common/config/fileconfig.go","""	r, _ := filepath.Rel(base, absPath)
	return r""","""	if strings.HasPrefix(absPath, base) {
		return strings.TrimPrefix(strings.TrimPrefix(absPath, base), string(filepath.Separator))
	}
	r, _ := filepath.Rel(base, absPath)
	return r"""),("common/config/fileconfig.go","""	"path/filepath"
)""","""	"path/filepath"
	"strings"
)""")]
PKG="common/config"
TEST='''package config
import "testing"
func TestDemo(t *testing.T) {
	c := &FileConfig{FilePath: "/a/conf/config.json"}
	for _, p := range []string{"/a/conf/x", "/a/conf2/x", "/a/x", "/x"} {
		if got := c.ResolveAbsolute(c.ResolveRelative(p)); got != p { t.Fatalf("%s became %s", p, got) }
	}
}
'''
