// Package scrand stands in for crypto/rand: bytes are a pure function of the
// run's recorded environment seed.
package scrand

import (
	"io"

	"verif.local/sim/simrt"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) { return Read(p) }

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(simrt.EnvRand() >> 24)
	}
	return len(p), nil
}
