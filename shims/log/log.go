// Package log discards output; arguments are still evaluated by the callers.
package log

import (
	"fmt"

	"github.com/logdna/logdna-go/logger"
	rlog "github.com/sisu-network/lib/log"

	mc "github.com/sisu-network/dheart/zzmc"
)

func p(l string, a ...interface{}) {
	if mc.Tracing() {
		mc.Note("log %s: %s", l, fmt.Sprint(a...))
	}
}
func pf(l, t string, a ...interface{}) {
	if mc.Tracing() {
		mc.Note("log %s: %s", l, fmt.Sprintf(t, a...))
	}
}
func Info(a ...interface{})                          { p("info", a...) }
func Debug(a ...interface{})                         { p("debug", a...) }
func Warn(a ...interface{})                          { p("warn", a...) }
func Error(a ...interface{})                         { p("error", a...) }
func Verbose(a ...interface{})                       { p("verbose", a...) }
func HighVerbose(a ...interface{})                   { p("hv", a...) }
func Critical(a ...interface{})                      { p("critical", a...) }
func Infof(t string, a ...interface{})               { pf("info", t, a...) }
func Debugf(t string, a ...interface{})              { pf("debug", t, a...) }
func Warnf(t string, a ...interface{})               { pf("warn", t, a...) }
func Errorf(t string, a ...interface{})              { pf("error", t, a...) }
func Verbosef(t string, a ...interface{})            { pf("verbose", t, a...) }
func HighVerbosef(t string, a ...interface{})        { pf("hv", t, a...) }
func Criticalf(t string, a ...interface{})           { pf("critical", t, a...) }

// World is the log of one execution.
type World struct{ Logger rlog.Logger }

func W() *World { return mc.Local("log", func() interface{} { return &World{} }).(*World) }

func SetLogger(l rlog.Logger) { W().Logger = l }

// DNA is a logger of the service.
type DNA struct {
	rlog.Logger
	Key  string
	Opts logger.Options
}

// NewDNALogger refuses what the real one refuses.
func NewDNALogger(key string, opts logger.Options, logLocal bool) *DNA {
	if len(opts.Hostname) == 0 {
		panic("Hostname is required. For example: node0")
	}
	if len(opts.App) == 0 {
		panic("App is required. For example: sisu_main_app")
	}
	return &DNA{Key: key, Opts: opts}
}
