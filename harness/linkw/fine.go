//go:build verifpt

package linkw

import "github.com/icon-project/btp/common/verifpt"

func init() {
	Fine = true
	verifpt.Hook = func(at string) {
		if w := current; w != nil {
			w.yieldAt("y", at)
		}
	}
}
