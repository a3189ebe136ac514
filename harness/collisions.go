//go:build go1.22

package main

import (
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"encoding/binary"
	"hash"
	"hash/adler32"
	"hash/crc32"
	"hash/crc64"
	"hash/fnv"
	"math/rand"
	"strings"
	"sync"
)

// colliding are pairs of different words which a shortened comparison takes
// for the same: equal checksums, hashes, sums, beginnings and ends.
var colliding = sync.OnceValue(func() [][2]string {
	sum := func(h hash.Hash) func(string) uint64 {
		return func(s string) uint64 {
			h.Reset()
			h.Write([]byte(s))
			b := h.Sum(nil)
			if len(b) >= 8 && len(b) < 16 {
				return binary.BigEndian.Uint64(b)
			}
			return uint64(binary.BigEndian.Uint32(b))
		}
	}
	times := func(start, factor uint32, xor bool) func(string) uint64 {
		return func(s string) uint64 {
			h := start
			for i := 0; i < len(s); i++ {
				h *= factor
				if xor {
					h ^= uint32(s[i])
				} else {
					h += uint32(s[i])
				}
			}
			return uint64(h)
		}
	}
	and := func(f func(string) uint64, shift uint, mask uint64) func(string) uint64 {
		return func(s string) uint64 { return f(s) >> shift & mask }
	}
	jenkins := func(s string) uint64 {
		var h uint32
		for i := 0; i < len(s); i++ {
			h += uint32(s[i])
			h += h << 10
			h ^= h >> 6
		}
		h += h << 3
		h ^= h >> 11
		h += h << 15
		return uint64(h)
	}
	fnv64, fnv64a := sum(fnv.New64()), sum(fnv.New64a())
	hashes := []func(string) uint64{
		sum(crc32.NewIEEE()), sum(crc32.New(crc32.MakeTable(crc32.Castagnoli))), sum(crc32.New(crc32.MakeTable(crc32.Koopman))),
		sum(adler32.New()), sum(fnv.New32()), sum(fnv.New32a()), sum(md5.New()), sum(sha1.New()), sum(sha256.New()),
		times(5381, 33, false), times(5381, 33, true), times(0, 31, false), times(0, 65599, false), times(0, 131, false), times(0, 16777619, false), times(17, 37, false),
		and(fnv64, 0, 0xffffffff), and(fnv64, 32, 0xffffffff), and(fnv64a, 0, 0xffffffff), and(fnv64a, 32, 0xffffffff),
		and(sum(crc32.NewIEEE()), 0, 0xffff), and(sum(fnv.New32a()), 0, 0xffff), and(sum(fnv.New32a()), 0, 0xff), jenkins,
	}
	r := rand.New(rand.NewSource(77))
	var out [][2]string
	for _, h := range hashes {
		seen := map[uint64]string{}
		for i := 0; i < 600_000; i++ {
			b := make([]byte, 7)
			for j := range b {
				b[j] = "abcdefghijklmnopqrstuvwxyz0123456789"[r.Intn(36)]
			}
			v := h(string(b))
			if o, ok := seen[v]; ok && o != string(b) {
				out = append(out, [2]string{o, string(b)})
				break
			}
			seen[v] = string(b)
		}
	}
	// 64 bits: known ones of FNV-1a
	for _, p := range [][2]string{
		{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"}, {"gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"},
		{"pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo"}, {"7mohtcOFVz", "c1E51sSEyx"}, {"6a5x-VbtXk", "f_2k7GG-4v"},
	} {
		if fnv64a(p[0]) != fnv64a(p[1]) {
			panic("no collision")
		}
		out = append(out, p)
	}
	// every hash that multiplies by an odd number of 64 bits and adds a character
	even, odd := "a", "b"
	for len(even) < 2048 {
		even, odd = even+odd, odd+even
	}
	out = append(out, [2]string{even, odd})
	// linear checksums: choose from 65 changes some that cancel
	for _, t := range []uint64{crc64.ISO, crc64.ECMA} {
		table := crc64.MakeTable(t)
		zero := []byte(strings.Repeat("a", 66))
		base := crc64.Checksum(zero, table)
		type vec struct {
			v   uint64
			set map[int]bool
		}
		var basis []vec
		for i := range zero {
			zero[i] = 'c'
			v := vec{crc64.Checksum(zero, table) ^ base, map[int]bool{i: true}}
			zero[i] = 'a'
			for _, b := range basis {
				if v.v^b.v < v.v {
					v.v ^= b.v
					for k := range b.set {
						if v.set[k] {
							delete(v.set, k)
						} else {
							v.set[k] = true
						}
					}
				}
			}
			if v.v == 0 {
				for k := range v.set {
					zero[k] = 'c'
				}
				if crc64.Checksum(zero, table) != base {
					panic("no collision")
				}
				out = append(out, [2]string{strings.Repeat("a", 66), string(zero)})
				break
			}
			basis = append(basis, v)
		}
	}
	// equal beginnings and ends, of many lengths
	for _, n := range []int{7, 15, 31, 63, 127, 255, 511} {
		x, y := strings.Repeat("x", n), strings.Repeat("y", n)
		out = append(out, [2]string{x + "a" + y, x + "b" + y}, [2]string{x + "ab", x + "ba"}, [2]string{"ab" + y, "ba" + y})
	}
	return out
})

// collidingTexts are objects and properties that differ in such words only.
func collidingTexts(n int) (ps [][2]string) {
	p := colliding()[n]
	for _, x := range p {
		ps = append(ps, [2]string{x, "v"}, [2]string{"v", x}, [2]string{"v " + x, "v"}, [2]string{"v", "v " + x}, [2]string{x + " v", "v"}, [2]string{"q w " + x + " v", "v"})
	}
	ps = append(ps, [2]string{p[0], p[1]}, [2]string{p[1], p[0]}, [2]string{p[0] + " " + p[1], p[1] + " " + p[0]}, [2]string{p[0], p[0]}, [2]string{p[1], p[1]})
	return
}
