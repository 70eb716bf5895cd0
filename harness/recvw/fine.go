//go:build verifpt

package recvw

import "github.com/icon-project/btp/common/verifpt"

func init() {
	Fine = true
	verifpt.Hook = func(string) { point() }
}
