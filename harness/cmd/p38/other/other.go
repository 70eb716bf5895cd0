// Package other logs from another package.
package other

import "github.com/icon-project/btp/common/log"

// Emit logs at the level with the method of its name.
func Emit(lg log.Logger, lv int, text string) {
	switch log.Level(lv) {
	case log.PanicLevel:
		lg.Panic(text)
	case log.ErrorLevel:
		lg.Error(text)
	case log.WarnLevel:
		lg.Warn(text)
	case log.InfoLevel:
		lg.Info(text)
	case log.DebugLevel:
		lg.Debug(text)
	case log.TraceLevel:
		lg.Trace(text)
	}
}
