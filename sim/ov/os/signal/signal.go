//go:build go1.21

package signal

import (
	"msim/rt"
	"os"
)

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	rt.Notify(&rt.SigReg{Ch: c, Send: func(s os.Signal) { rt.TrySend(c, s) }, Want: func(s os.Signal) bool {
		for _, w := range sig {
			if w == s {
				return true
			}
		}
		return len(sig) == 0
	}})
}
func Stop(c chan<- os.Signal)    { rt.StopNotify(c) }
func Ignore(sig ...os.Signal)    {}
func Reset(sig ...os.Signal)     {}
func Ignored(sig os.Signal) bool { return false }
