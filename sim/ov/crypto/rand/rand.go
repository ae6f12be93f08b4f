//go:build go1.21

package rand

import (
	"io"
	simrand "msim/ov/math/rand"
)

type rd struct{}

func (rd) Read(p []byte) (int, error) { return simrand.Read(p) }

var Reader io.Reader = rd{}

func Read(p []byte) (int, error) { return simrand.Read(p) }
