// Package os is the real one, but ending the program ends the execution.
package os

import mc "github.com/sisu-network/dheart/zzmc"

func Exit(code int) { mc.Exit(code) }
