// Package uuid stands in for github.com/google/uuid (not available offline):
// random version 4 identifiers.
package uuid

import (
	"crypto/rand"
	"encoding/hex"
)

type UUID [16]byte

func New() UUID {
	var u UUID
	if _, err := rand.Read(u[:]); err != nil {
		panic(err)
	}
	u[6] = (u[6] & 0x0f) | 0x40
	u[8] = (u[8] & 0x3f) | 0x80
	return u
}

func NewString() string { return New().String() }

func NewRandom() (UUID, error) { return New(), nil }

func (u UUID) String() string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}
