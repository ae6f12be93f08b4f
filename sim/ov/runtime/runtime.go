//go:build go1.21

package runtime

import "msim/rt"

func Gosched()                        { rt.Gosched() }
func Goexit()                         { rt.Goexit() }
func GC()                             {}
func GOMAXPROCS(int) int              { return 8 }
func NumCPU() int                     { return 8 }
func NumGoroutine() int               { return rt.CurNode().TaskCount() }
func LockOSThread()                   {}
func UnlockOSThread()                 {}
func SetFinalizer(obj, f interface{}) {}
func Breakpoint()                     {}
