// Package vy is the hook the instrumented library calls before every statement. It does nothing unless a
// scheduler is installed.
package vy

import "sync/atomic"

var hook atomic.Pointer[func(bool)]

// Y yields to the scheduler, if there is one.
func Y() {
	if h := hook.Load(); h != nil {
		(*h)(false)
	}
}

// W yields at a statement that is about to wait: a select or a channel operation.
func W() {
	if h := hook.Load(); h != nil {
		(*h)(true)
		Woke()
	}
}

// X yields at a statement that may wake another goroutine.
func X() {
	if h := hook.Load(); h != nil {
		(*h)(false)
		Woke()
	}
}

var woke atomic.Bool

// Woke tells the scheduler that the running goroutine may wake another one.
func Woke() { woke.Store(true) }

// TakeWoke returns whether Woke was called since the last call.
func TakeWoke() bool { return woke.Load() && woke.Swap(false) }

// Set installs the scheduler hook; nil removes it.
func Set(f func(wait bool)) {
	if f == nil {
		hook.Store(nil)
		return
	}
	hook.Store(&f)
}
