package main

import (
	"sync"
	"sync/atomic"
	"time"
)

var clocks sync.Map // goroutine -> func() time.Time
var clocksSet int64

func init() {
	time.VerifClock = func() (int64, bool) {
		if atomic.LoadInt64(&clocksSet) == 0 {
			return 0, false
		}
		id := goid()
		f, ok := clocks.Load(id)
		if !ok {
			return 0, false
		}
		// the clock itself looks at the one of the machine
		clocks.Delete(id)
		t := f.(func() time.Time)()
		clocks.Store(id, f)
		return t.UnixNano(), true
	}
	setClock = func(f func() time.Time) func() {
		id := goid()
		clocks.Store(id, f)
		atomic.AddInt64(&clocksSet, 1)
		return func() {
			clocks.Delete(id)
			atomic.AddInt64(&clocksSet, -1)
		}
	}
}
