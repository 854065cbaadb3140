// Package uuid is a stand-in for github.com/satori/go.uuid.
package uuid

import "fmt"

type UUID [16]byte

var n uint64

func NewV4() UUID {
	n++
	var u UUID
	for i := 0; i < 8; i++ {
		u[15-i] = byte(n >> (8 * uint(i)))
	}
	return u
}

func (u UUID) String() string { return fmt.Sprintf("%x", u[:]) }
