//go:build go1.21

package cli

import (
	"msim/rt"

	real "github.com/urfave/cli"
)

// NewApp makes an app that writes to the standard streams of the simulated process.
func NewApp() *real.App {
	a := real.NewApp()
	a.Writer = rt.StdFile(1)
	a.ErrWriter = rt.StdFile(2)
	return a
}
