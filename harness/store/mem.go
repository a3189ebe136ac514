//go:build go1.22

// Package store holds the reference storage the monitored graphs run on and
// the monitor that watches every call to it. It depends on nothing, so that
// it can be compiled into the harness module and, through an overlay, into
// the module under test.
package store

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"sort"
)

// Config selects one of the storages that fulfil the contract.
type Config struct {
	Order   int    `json:"order,omitempty"`   // order of lists: 0 insertion, 1 reverse, 2 fixed scramble, 3 another one at every call
	IDs     int    `json:"ids,omitempty"`     // identifiers after the first eight: 0 dense, 1 gaps, 2 large, 3 descending, 4 without order over the whole range, 5 with equal low halves, 6 the largest there are
	Lenient bool   `json:"lenient,omitempty"` // reading an unknown node gives nothing instead of an error
	Backend string `json:"backend,omitempty"` // "" reference storage, "clew" the storage of the project's own tests
}

var ErrUnknown = errors.New("storage: unknown node")

type node struct {
	ref, back uint32 // dense indices, 0 = none
	targets   []uint32
	sources   []uint32
}

// Mem is the reference storage: nodes with one outgoing and one incoming
// reference each and directed connections without duplicates.
type Mem struct {
	cfg     Config
	nodes   []node // index 0 unused
	rng     *rand.Rand
	undo    []func()
	marking bool
	version uint64 // counts effective changes
}

func NewMem(cfg Config) *Mem {
	return &Mem{cfg: cfg, nodes: make([]node, 1, 64), rng: rand.New(rand.NewSource(7))}
}

const fixed = 8

// IDKinds is the number of ways to hand out identifiers.
const IDKinds = 7

// mix spreads numbers over the whole range, unmix takes them back.
const mix, unmix = 0x9E3779B97F4A7C15, 0xf1de83e19937733d

func (m *Mem) ext(i uint32) uint {
	if i <= fixed {
		return uint(i)
	}
	switch m.cfg.IDs {
	case 1:
		return uint(i)*7 + 1000
	case 2:
		return uint(1)<<40 + uint(i)*1009
	case 3:
		return uint(1)<<44 - uint(i)*3
	case 4:
		return uint(i) * mix
	case 5:
		return uint(i) << 32
	case 6:
		return ^uint(0) - uint(i)
	}
	return uint(i)
}

func (m *Mem) in(id uint) (uint32, bool) {
	i := id
	if id == 0 {
		return 0, false
	}
	if id > fixed {
		switch m.cfg.IDs {
		case 1:
			if id < 1000 || (id-1000)%7 != 0 {
				return 0, false
			}
			i = (id - 1000) / 7
		case 2:
			if id < 1<<40 || (id-1<<40)%1009 != 0 {
				return 0, false
			}
			i = (id - 1<<40) / 1009
		case 3:
			if id > 1<<44 || (1<<44-id)%3 != 0 {
				return 0, false
			}
			i = (1<<44 - id) / 3
		case 4:
			i = id * unmix
		case 5:
			if id<<32 != 0 {
				return 0, false
			}
			i = id >> 32
		case 6:
			i = ^uint(0) - id
		}
		if i <= fixed {
			return 0, false
		}
	}
	if i >= uint(len(m.nodes)) {
		return 0, false
	}
	return uint32(i), true
}

func (m *Mem) Known(id uint) bool { _, ok := m.in(id); return ok }
func (m *Mem) Len() int           { return len(m.nodes) - 1 }
func (m *Mem) Version() uint64    { return m.version }
func (m *Mem) ExtID(i int) uint   { return m.ext(uint32(i)) }

// AllIDs lists every node in order of creation.
func (m *Mem) AllIDs() []uint {
	out := make([]uint, 0, m.Len())
	for i := 1; i < len(m.nodes); i++ {
		out = append(out, m.ext(uint32(i)))
	}
	return out
}

func (m *Mem) unknown(op string, id uint) error {
	return fmt.Errorf("%w: %s(%d)", ErrUnknown, op, id)
}

func (m *Mem) Has(id uint) (bool, error) {
	_, ok := m.in(id)
	return ok, nil
}

func (m *Mem) Create() (uint, error) {
	m.nodes = append(m.nodes, node{})
	m.version++
	if m.marking {
		m.undo = append(m.undo, func() { m.nodes = m.nodes[:len(m.nodes)-1] })
	}
	return m.ext(uint32(len(m.nodes) - 1)), nil
}

func scramble(a, b uint32) uint64 {
	x := uint64(a)<<32 | uint64(b)
	x ^= x >> 31
	x *= 0x9E3779B97F4A7C15
	x ^= x >> 29
	x *= 0xBF58476D1CE4E5B9
	x ^= x >> 32
	return x
}

func (m *Mem) list(at uint32, l []uint32) []uint {
	if len(l) == 0 && m.cfg.Lenient {
		return nil
	}
	out := make([]uint, len(l))
	switch m.cfg.Order {
	case 1:
		for i, v := range l {
			out[len(l)-1-i] = m.ext(v)
		}
	case 2:
		c := append([]uint32{}, l...)
		sort.Slice(c, func(i, j int) bool { return scramble(at, c[i]) < scramble(at, c[j]) })
		for i, v := range c {
			out[i] = m.ext(v)
		}
	case 3:
		for i, v := range l {
			out[i] = m.ext(v)
		}
		m.rng.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	default:
		for i, v := range l {
			out[i] = m.ext(v)
		}
	}
	return out
}

func (m *Mem) ReadSources(id uint) ([]uint, error) {
	i, ok := m.in(id)
	if !ok {
		if m.cfg.Lenient {
			return nil, nil
		}
		return nil, m.unknown("ReadSources", id)
	}
	return m.list(i, m.nodes[i].sources), nil
}

func (m *Mem) ReadTargets(id uint) ([]uint, error) {
	i, ok := m.in(id)
	if !ok {
		if m.cfg.Lenient {
			return nil, nil
		}
		return nil, m.unknown("ReadTargets", id)
	}
	return m.list(i, m.nodes[i].targets), nil
}

func (m *Mem) GetReference(id uint) (uint, uint, error) {
	i, ok := m.in(id)
	if !ok {
		if m.cfg.Lenient {
			return 0, 0, nil
		}
		return 0, 0, m.unknown("GetReference", id)
	}
	var b, r uint
	if m.nodes[i].back != 0 {
		b = m.ext(m.nodes[i].back)
	}
	if m.nodes[i].ref != 0 {
		r = m.ext(m.nodes[i].ref)
	}
	return b, r, nil
}

func (m *Mem) SetReference(s, r uint) error {
	i, ok := m.in(s)
	if !ok {
		return m.unknown("SetReference source", s)
	}
	j, ok := m.in(r)
	if !ok {
		return m.unknown("SetReference reference", r)
	}
	if m.nodes[i].ref == j && m.nodes[j].back == i {
		return nil
	}
	or, ob := m.nodes[i].ref, m.nodes[j].back
	m.nodes[i].ref = j
	m.nodes[j].back = i
	m.version++
	if m.marking {
		m.undo = append(m.undo, func() { m.nodes[i].ref = or; m.nodes[j].back = ob })
	}
	return nil
}

func contains(l []uint32, v uint32) bool {
	for _, x := range l {
		if x == v {
			return true
		}
	}
	return false
}

// Connected tells whether there is a connection, without being a call.
func (m *Mem) Connected(s, t uint) bool {
	i, ok := m.in(s)
	j, ok2 := m.in(t)
	if !ok || !ok2 {
		return false
	}
	if len(m.nodes[i].targets) <= len(m.nodes[j].sources) {
		return contains(m.nodes[i].targets, j)
	}
	return contains(m.nodes[j].sources, i)
}

func (m *Mem) Connect(s, t uint) error {
	i, ok := m.in(s)
	if !ok {
		return m.unknown("Connect source", s)
	}
	j, ok := m.in(t)
	if !ok {
		return m.unknown("Connect target", t)
	}
	if m.Connected(s, t) {
		return nil
	}
	m.nodes[i].targets = append(m.nodes[i].targets, j)
	m.nodes[j].sources = append(m.nodes[j].sources, i)
	m.version++
	if m.marking {
		m.undo = append(m.undo, func() {
			m.nodes[i].targets = m.nodes[i].targets[:len(m.nodes[i].targets)-1]
			m.nodes[j].sources = m.nodes[j].sources[:len(m.nodes[j].sources)-1]
		})
	}
	return nil
}

func without(l []uint32, v uint32) []uint32 {
	out := make([]uint32, 0, len(l))
	for _, x := range l {
		if x != v {
			out = append(out, x)
		}
	}
	return out
}

func (m *Mem) Disconnect(s, t uint) error {
	i, ok := m.in(s)
	j, ok2 := m.in(t)
	if !ok || !ok2 {
		return m.unknown("Disconnect", s)
	}
	if !m.Connected(s, t) {
		return nil
	}
	ot, os := m.nodes[i].targets, m.nodes[j].sources
	m.nodes[i].targets = without(ot, j)
	m.nodes[j].sources = without(os, i)
	m.version++
	if m.marking {
		m.undo = append(m.undo, func() { m.nodes[i].targets = ot; m.nodes[j].sources = os })
	}
	return nil
}

// Delete empties a node; its identifier is not handed out again.
func (m *Mem) Delete(s uint) error {
	i, ok := m.in(s)
	if !ok {
		return m.unknown("Delete", s)
	}
	for _, t := range append([]uint32{}, m.nodes[i].targets...) {
		m.Disconnect(s, m.ext(t))
	}
	for _, t := range append([]uint32{}, m.nodes[i].sources...) {
		m.Disconnect(m.ext(t), s)
	}
	m.version++
	return nil
}

// Mark starts recording changes; Rollback takes them all back.
func (m *Mem) Mark() { m.undo = m.undo[:0]; m.marking = true }

func (m *Mem) Rollback() {
	m.marking = false
	for i := len(m.undo) - 1; i >= 0; i-- {
		m.undo[i]()
	}
	m.undo = m.undo[:0]
	m.version++
}

func (m *Mem) Clone() *Mem {
	c := &Mem{cfg: m.cfg, nodes: make([]node, len(m.nodes)), rng: rand.New(rand.NewSource(7)), version: m.version}
	for i, n := range m.nodes {
		c.nodes[i] = node{ref: n.ref, back: n.back, targets: append([]uint32(nil), n.targets...), sources: append([]uint32(nil), n.sources...)}
	}
	return c
}

func (m *Mem) SetConfig(cfg Config) { m.cfg = cfg }

// Digest is a hash over the whole content, in order of creation.
func (m *Mem) Digest() uint64 {
	h := uint64(14695981039346656037)
	add := func(v uint32) {
		h ^= uint64(v) + 0x9E37
		h *= 1099511628211
	}
	for i := 1; i < len(m.nodes); i++ {
		n := &m.nodes[i]
		add(n.ref)
		add(n.back)
		add(uint32(len(n.targets)))
		for _, t := range n.targets {
			add(t)
		}
		add(uint32(len(n.sources)))
		for _, t := range n.sources {
			add(t)
		}
	}
	return h
}

// Diff names the first difference between two storages, "" if there is none.
func (m *Mem) Diff(o *Mem) string {
	if len(m.nodes) != len(o.nodes) {
		return fmt.Sprintf("%d nodes against %d", len(m.nodes)-1, len(o.nodes)-1)
	}
	for i := 1; i < len(m.nodes); i++ {
		a, b := m.nodes[i], o.nodes[i]
		if a.ref != b.ref || a.back != b.back {
			return fmt.Sprintf("node %d: references %d,%d against %d,%d", i, a.back, a.ref, b.back, b.ref)
		}
		if fmt.Sprint(a.targets) != fmt.Sprint(b.targets) || fmt.Sprint(a.sources) != fmt.Sprint(b.sources) {
			return fmt.Sprintf("node %d: connections to %v from %v against to %v from %v", i, a.targets, a.sources, b.targets, b.sources)
		}
	}
	return ""
}

// RawSources and RawTargets read lists in insertion order without being calls.
func (m *Mem) RawSources(id uint) []uint { return m.raw(id, true) }
func (m *Mem) RawTargets(id uint) []uint { return m.raw(id, false) }

func (m *Mem) raw(id uint, src bool) []uint {
	i, ok := m.in(id)
	if !ok {
		return nil
	}
	l := m.nodes[i].targets
	if src {
		l = m.nodes[i].sources
	}
	out := make([]uint, len(l))
	for k, v := range l {
		out[k] = m.ext(v)
	}
	return out
}

// RawReference reads references without being a call.
func (m *Mem) RawReference(id uint) (uint, uint) {
	i, ok := m.in(id)
	if !ok {
		return 0, 0
	}
	var b, r uint
	if m.nodes[i].back != 0 {
		b = m.ext(m.nodes[i].back)
	}
	if m.nodes[i].ref != 0 {
		r = m.ext(m.nodes[i].ref)
	}
	return b, r
}

// Contains names the first thing of an earlier state that is not there any
// more, "" if there is none.
func (m *Mem) Contains(old *Mem) string {
	if len(m.nodes) < len(old.nodes) {
		return fmt.Sprintf("%d nodes, earlier %d", len(m.nodes)-1, len(old.nodes)-1)
	}
	for i := 1; i < len(old.nodes); i++ {
		a, b := m.nodes[i], old.nodes[i]
		if b.ref != 0 && a.ref != b.ref {
			return fmt.Sprintf("node %d referred to %d, now to %d", i, b.ref, a.ref)
		}
		if b.back != 0 && a.back != b.back {
			return fmt.Sprintf("node %d was referred to by %d, now by %d", i, b.back, a.back)
		}
		have := map[uint32]bool{}
		for _, t := range a.targets {
			have[t] = true
		}
		for _, t := range b.targets {
			if !have[t] {
				return fmt.Sprintf("connection %d -> %d", i, t)
			}
		}
	}
	return ""
}

// Dump writes the content down, Load reads it back.
func (m *Mem) Dump() []byte {
	var out []byte
	add := func(v uint32) { out = binary.AppendUvarint(out, uint64(v)) }
	for _, n := range m.nodes[1:] {
		add(n.ref)
		add(n.back)
		for _, l := range [][]uint32{n.targets, n.sources} {
			add(uint32(len(l)))
			for _, v := range l {
				add(v)
			}
		}
	}
	return out
}

func Load(cfg Config, dump []byte) (*Mem, error) {
	m := NewMem(cfg)
	bad := false
	next := func() uint32 {
		v, n := binary.Uvarint(dump)
		if n <= 0 {
			bad = true
			return 0
		}
		dump = dump[n:]
		return uint32(v)
	}
	for len(dump) > 0 && !bad {
		n := node{ref: next(), back: next()}
		for _, l := range []*[]uint32{&n.targets, &n.sources} {
			for k := next(); k > 0 && !bad; k-- {
				*l = append(*l, next())
			}
		}
		m.nodes = append(m.nodes, n)
	}
	if bad {
		return nil, errors.New("the dump ends early")
	}
	return m, nil
}
