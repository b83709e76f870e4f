package main

import (
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync/atomic"
)

func stack(buf []byte) int { return runtime.Stack(buf, true) }

func panicStack() string {
	s := string(debug.Stack())
	// drop the recovery frames
	if i := strings.Index(s, "panic("); i > 0 {
		s = s[i:]
	}
	return s
}

func hasChildren() bool { return atomic.LoadInt32(&childProcs) > 0 }

// subprograms a case may start (for example the traced session of C06)
var childMains = map[string]func(args []string){}

func childMain(args []string) {
	f, ok := childMains[args[0]]
	if !ok {
		os.Exit(99)
	}
	f(args[1:])
}

func setProcs(n int) { runtime.GOMAXPROCS(clampInt(n, 1, 16)) }

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}
