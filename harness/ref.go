package main

// Independent reference computations for the documented on-disk and Merkle formats.

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"fmt"
)

func refHash(b []byte) [32]byte { return sha256.Sum256(b) }

func refHash2(level byte, a, b [32]byte) [32]byte {
	var buf [65]byte
	buf[0] = level
	copy(buf[1:], a[:])
	copy(buf[33:], b[:])
	return sha256.Sum256(buf[:])
}

func refPair(a, b [32]byte) [32]byte {
	var buf [64]byte
	copy(buf[:], a[:])
	copy(buf[32:], b[:])
	return sha256.Sum256(buf[:])
}

var magic8 = []byte{255, 254, 253, 252, 252, 253, 254, 255}

type refEntry struct {
	Key, Value, NextKey    []byte
	Height, LastHeight, SN int64
	Deact                  []int64
}

// refDecodeEntry decodes the hashed byte form of an entry (count, length, escaped payload, deactivated list).
func refDecodeEntry(b []byte) (e *refEntry, err error) {
	defer func() {
		if r := recover(); r != nil {
			e, err = nil, fmt.Errorf("cannot decode entry bytes: %v", r)
		}
	}()
	nsn := int(b[0])
	length := int(b[1]) | int(b[2])<<8 | int(b[3])<<16
	if 4+length+8*nsn != len(b) {
		return nil, fmt.Errorf("entry bytes have length %d, header says %d", len(b), 4+length+8*nsn)
	}
	body := append([]byte{}, b[4:4+length]...)
	n := 0
	for {
		p := binary.LittleEndian.Uint32(body[n:])
		n += 4
		if p == 0xffffffff {
			break
		}
		copy(body[int(p)+4:int(p)+12], magic8)
	}
	p := body[n:]
	str := func() []byte {
		l := int(binary.LittleEndian.Uint32(p))
		s := p[4 : 4+l]
		p = p[4+l:]
		return s
	}
	i64 := func() int64 {
		v := int64(binary.LittleEndian.Uint64(p))
		p = p[8:]
		return v
	}
	e = &refEntry{}
	e.Key = str()
	e.Value = str()
	e.NextKey = str()
	e.Height = i64()
	e.LastHeight = i64()
	e.SN = i64()
	if len(p) != 0 {
		return nil, fmt.Errorf("%d bytes left over in entry payload", len(p))
	}
	p = b[4+length:]
	for i := 0; i < nsn; i++ {
		e.Deact = append(e.Deact, i64())
	}
	return e, nil
}

// refVerifyProof checks a serialized proof for the given entry bytes. It returns the root it leads to.
func refVerifyProof(entryBz, proof []byte) (root [32]byte, sn int64, active bool, err error) {
	return refVerify(entryBz, proof, true)
}

func refVerify(entryBz, proof []byte, withEntry bool) (root [32]byte, sn int64, active bool, err error) {
	if len(proof) < 8+32*18 || (len(proof)-8)%32 != 0 {
		return root, 0, false, fmt.Errorf("proof has bad length %d", len(proof))
	}
	sn = int64(binary.LittleEndian.Uint64(proof))
	var h [][32]byte
	for p := proof[8:]; len(p) > 0; p = p[32:] {
		var x [32]byte
		copy(x[:], p)
		h = append(h, x)
	}
	if withEntry && refHash(entryBz) != h[0] {
		return root, sn, false, fmt.Errorf("leaf is not the hash of the entry bytes")
	}
	step := func(level int, self, peer [32]byte, bit int64) [32]byte {
		if bit&1 == 1 {
			return refHash2(byte(level), peer, self)
		}
		return refHash2(byte(level), self, peer)
	}
	cur := h[0]
	for i := 0; i < 11; i++ {
		cur = step(i, cur, h[1+i], sn>>uint(i))
	}
	bits := h[12]
	right := bits
	for i := 0; i < 3; i++ {
		right = step(8+i, right, h[13+i], sn>>uint(8+i))
	}
	off := int(sn & 255)
	active = bits[off/8]>>(uint(off)%8)&1 == 1
	cur = refHash2(11, cur, right)
	upper := h[16 : len(h)-1]
	for i, peer := range upper {
		cur = step(12+i, cur, peer, sn>>uint(11+i))
	}
	root = h[len(h)-1]
	if cur != root {
		return root, sn, active, fmt.Errorf("the path does not lead to the root")
	}
	return root, sn, active, nil
}

func refCombineShards(r [8][32]byte) []byte {
	a := refPair(refPair(r[0], r[1]), refPair(r[2], r[3]))
	b := refPair(refPair(r[4], r[5]), refPair(r[6], r[7]))
	c := refPair(a, b)
	return c[:]
}

func bytesEq(a, b []byte) bool { return bytes.Equal(a, b) }

func hx(b []byte) string {
	if len(b) > 40 {
		return fmt.Sprintf("%x..(%d bytes)", b[:40], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// refVerifyProofRaw checks a proof without entry bytes.
func refVerifyProofRaw(proof []byte) (root [32]byte, sn int64, active bool, err error) {
	return refVerify(nil, proof, false)
}
