// Package uuid is an offline stand-in for github.com/satori/go.uuid (v1.2.0
// API), which is not installed here. It belongs to the harness.
package uuid

import (
	"bytes"
	"crypto/md5"
	"crypto/rand"
	"crypto/sha1"
	"encoding/hex"
	"errors"
	"strings"
)

const Size = 16

type UUID [Size]byte

var (
	Nil           = UUID{}
	NamespaceDNS  = Must(FromString("6ba7b810-9dad-11d1-80b4-00c04fd430c8"))
	NamespaceURL  = Must(FromString("6ba7b811-9dad-11d1-80b4-00c04fd430c8"))
	NamespaceOID  = Must(FromString("6ba7b812-9dad-11d1-80b4-00c04fd430c8"))
	NamespaceX500 = Must(FromString("6ba7b814-9dad-11d1-80b4-00c04fd430c8"))
)

func Must(u UUID, err error) UUID {
	if err != nil {
		panic(err)
	}
	return u
}

func FromString(s string) (UUID, error) {
	var u UUID
	s = strings.Trim(strings.TrimPrefix(strings.ToLower(s), "urn:uuid:"), "{}")
	b, err := hex.DecodeString(strings.Replace(s, "-", "", -1))
	if err != nil || len(b) != Size {
		return u, errors.New("uuid: incorrect UUID format: " + s)
	}
	copy(u[:], b)
	return u, nil
}

func FromBytes(b []byte) (UUID, error) {
	var u UUID
	if len(b) != Size {
		return u, errors.New("uuid: UUID must be exactly 16 bytes long")
	}
	copy(u[:], b)
	return u, nil
}

func FromStringOrNil(s string) UUID {
	u, err := FromString(s)
	if err != nil {
		return Nil
	}
	return u
}

func (u *UUID) set(version byte) {
	u[6] = (u[6] & 0x0f) | (version << 4)
	u[8] = (u[8] & 0x3f) | 0x80
}

func random(version byte) UUID {
	var u UUID
	if _, err := rand.Read(u[:]); err != nil {
		panic(err)
	}
	u.set(version)
	return u
}

func NewV1() UUID { return random(1) }
func NewV4() UUID { return random(4) }

func NewV3(ns UUID, name string) UUID {
	h := md5.Sum(append(append([]byte{}, ns[:]...), name...))
	u := UUID(h)
	u.set(3)
	return u
}

func NewV5(ns UUID, name string) UUID {
	h := sha1.Sum(append(append([]byte{}, ns[:]...), name...))
	var u UUID
	copy(u[:], h[:])
	u.set(5)
	return u
}

func Equal(a, b UUID) bool { return bytes.Equal(a[:], b[:]) }

func (u UUID) Bytes() []byte { return u[:] }
func (u UUID) Version() byte { return u[6] >> 4 }

func (u UUID) String() string {
	h := hex.EncodeToString(u[:])
	return h[:8] + "-" + h[8:12] + "-" + h[12:16] + "-" + h[16:20] + "-" + h[20:]
}

func (u UUID) MarshalText() ([]byte, error) { return []byte(u.String()), nil }
