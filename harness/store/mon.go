//go:build go1.22

package store

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync/atomic"
)

// Backend is the contract of the storage semnet is given.
type Backend interface {
	Has(source uint) (bool, error)
	Create() (uint, error)
	ReadSources(target uint) ([]uint, error)
	ReadTargets(source uint) ([]uint, error)
	SetReference(source uint, reference uint) error
	GetReference(source uint) (uint, uint, error)
	Connect(source uint, target uint) error
	Disconnect(source uint, target uint) error
	Delete(source uint) error
}

// Crash and Budget are the values the monitor panics with.
type Crash struct{}
type Budget struct{ Op string }

const (
	FaultNone   = 0
	FaultBefore = 1 // the call fails without effect
	FaultAfter  = 2 // the call takes effect and fails
)

// Exit stands for the end of the goroutine by a call that neither returned nor
// panicked.
type Exit struct{}

// Mon sits between semnet and a storage and watches every call.
type Mon struct {
	B   Backend
	Mem *Mem // nil if the backend is not the reference storage

	Op       string
	Calls    int    // calls of the current operation
	Items    int    // identifiers in the lists handed out to the current operation
	Writes   int    // effective changes of the current operation
	Total    uint64 // calls of all operations
	MaxCalls int

	// fault plan of the current operation
	FaultAt   int // 1-based index of the call that fails, 0 = none
	FaultMode int
	Panics    bool // the call does not fail, it panics with that error
	Exits     bool // the call may end its goroutine instead
	FailWrite int  // 1-based index of the changing call that fails, 0 = none
	CrashAt   int  // the process stops right after this effective change, 0 = never
	FaultProb float64
	Outage    uint // set of methods that fail, by their bits, without effect
	FaultRng  *rand.Rand
	changes   int     // changing calls of the current operation
	Injected  int     // failures injected into the current operation
	FaultOn   string  // method of the call that failed
	Errs      []error // the errors of the calls that failed
	Thrown    interface{}
	failed    int // failures injected since the beginning

	// contract monitor
	Known   map[uint]bool // identifiers handed out to semnet; nil: ask Mem
	Allowed uint          // identifier the caller itself passed in
	IsOwn   bool          // there is such an identifier
	Unknown []string      // use of identifiers that were never handed out
	Removed []string      // removal of stored content
	Changed []string      // a reference given a different value

	KeepLists bool     // watch the lists handed out
	Written   []string // lists that were written to
	lists     []handed

	Mutations []string // effective changes of the current operation, for reports
	KeepLog   bool
	Log       []string

	Progress *uint64 // counts calls, for the watchdog
	Yield    func()  // called before each call, for the scheduler

	ByMethod [9]uint64
}

// handed is a list the storage has given away, with room behind its end, and
// what it held.
type handed struct {
	list, was []uint
	what      string
}

const unused = ^uint(0) - 5

// lend hands a list out that is looked at again later: it may be the storage's
// own.
func (m *Mon) lend(l []uint, method string, id uint) []uint {
	if !m.KeepLists || l == nil {
		return l
	}
	room := make([]uint, len(l)+2)
	copy(room, l)
	room[len(l)], room[len(l)+1] = unused, unused
	m.lists = append(m.lists, handed{room, append([]uint{}, room...), fmt.Sprintf("%s: the list given by %s(%d)", m.Op, method, id)})
	return room[:len(l)]
}

// LookAtLists notes the lists handed out that were written to since.
func (m *Mon) LookAtLists() {
	for _, h := range m.lists {
		for i := range h.was {
			if h.list[i] != h.was[i] && len(m.Written) < 20 {
				m.Written = append(m.Written, h.what+" was written to")
				break
			}
		}
	}
	m.lists = m.lists[:0]
}

const DefaultMaxCalls = 20_000_000

func NewMon(b Backend) *Mon {
	m := &Mon{B: b, MaxCalls: DefaultMaxCalls}
	if mem, ok := b.(*Mem); ok {
		m.Mem = mem
	} else {
		m.Known = map[uint]bool{}
	}
	return m
}

// Begin starts an operation; fault plans are set after it.
func (m *Mon) Begin(op string) {
	if len(m.lists) > 5000 {
		m.LookAtLists()
	}
	m.Op = op
	m.Calls = 0
	m.Items = 0
	m.Writes = 0
	m.Injected = 0
	m.FaultOn = ""
	m.Errs = nil
	m.FaultAt = 0
	m.FailWrite = 0
	m.changes = 0
	m.FaultMode = 0
	m.CrashAt = 0
	m.Outage = 0
	m.Panics = false
	m.Exits = false
	m.Thrown = nil
	m.Allowed = 0
	m.IsOwn = false
	m.Mutations = m.Mutations[:0]
}

func (m *Mon) known(id uint) bool {
	if m.Known != nil {
		return m.Known[id]
	}
	return m.Mem.Known(id)
}

func (m *Mon) check(method string, id uint) {
	if !m.known(id) && !(m.IsOwn && id == m.Allowed) {
		if len(m.Unknown) < 20 {
			m.Unknown = append(m.Unknown, fmt.Sprintf("%s: %s was given %d, which the storage never handed out", m.Op, method, id))
		}
	}
}

var methodNames = [9]string{"Has", "Create", "ReadSources", "ReadTargets", "SetReference", "GetReference", "Connect", "Disconnect", "Delete"}

// enter counts a call and decides whether it fails.
func (m *Mon) enter(k int, a, b uint) int {
	if m.Yield != nil {
		m.Yield()
	}
	m.Calls++
	m.Total++
	m.ByMethod[k]++
	if m.Progress != nil {
		atomic.AddUint64(m.Progress, 1)
	}
	if m.KeepLog {
		m.Log = append(m.Log, fmt.Sprintf("%s: %s(%d,%d)", m.Op, methodNames[k], a, b))
	}
	if m.Calls > m.MaxCalls {
		panic(Budget{m.Op})
	}
	mode := FaultNone
	changing := k == 1 || k == 4 || k >= 6
	if changing {
		m.changes++
	}
	if m.Outage>>k&1 != 0 {
		mode = FaultBefore
	} else if changing && m.changes == m.FailWrite {
		mode = m.FaultMode
	} else if m.FaultAt != 0 && m.Calls == m.FaultAt {
		mode = m.FaultMode
	} else if m.FaultProb > 0 && m.FaultRng.Float64() < m.FaultProb {
		mode = FaultBefore + m.FaultRng.Intn(2)
	}
	if mode != FaultNone {
		m.Injected++
		m.FaultOn = methodNames[k]
		m.failed++
		m.Errs = append(m.Errs, newError(m.failed, methodNames[k], m.Calls))
	}
	return mode
}

func (m *Mon) injected() error {
	err := m.Errs[len(m.Errs)-1]
	if m.Panics {
		if m.Exits && m.failed%4 == 3 {
			m.Thrown = Exit{}
			runtime.Goexit()
		}
		m.Thrown = thrown(m.failed, err)
		panic(m.Thrown)
	}
	return err
}

// withValue says whether a call that fails returns what it would have returned
// beside its error. Half of them do: callers may not look at it.
func (m *Mon) withValue() bool { return !m.Panics && m.Total&1 == 1 }

func (m *Mon) wrote(what string) {
	m.Writes++
	if len(m.Mutations) < 20 {
		m.Mutations = append(m.Mutations, what)
	}
	if m.CrashAt != 0 && m.Writes == m.CrashAt {
		panic(Crash{})
	}
}

func (m *Mon) Has(id uint) (bool, error) {
	mode := m.enter(0, id, 0)
	if mode != 0 && !m.withValue() {
		return false, m.injected()
	}
	has, err := m.B.Has(id)
	if mode != 0 {
		return has, m.injected()
	}
	return has, err
}

func (m *Mon) Create() (uint, error) {
	mode := m.enter(1, 0, 0)
	if mode == FaultBefore {
		return 0, m.injected()
	}
	id, err := m.B.Create()
	if err == nil {
		if m.Known != nil {
			m.Known[id] = true
		}
		m.wrote("Create")
	}
	if mode == FaultAfter {
		if m.withValue() {
			return id, m.injected()
		}
		return 0, m.injected()
	}
	return id, err
}

func (m *Mon) ReadSources(id uint) ([]uint, error) {
	mode := m.enter(2, id, 0)
	m.check("ReadSources", id)
	if mode != 0 && !m.withValue() {
		return nil, m.injected()
	}
	l, err := m.B.ReadSources(id)
	m.Items += len(l)
	l = m.lend(l, "ReadSources", id)
	if mode != 0 {
		return l, m.injected()
	}
	return l, err
}

func (m *Mon) ReadTargets(id uint) ([]uint, error) {
	mode := m.enter(3, id, 0)
	m.check("ReadTargets", id)
	if mode != 0 && !m.withValue() {
		return nil, m.injected()
	}
	l, err := m.B.ReadTargets(id)
	m.Items += len(l)
	l = m.lend(l, "ReadTargets", id)
	if mode != 0 {
		return l, m.injected()
	}
	return l, err
}

func (m *Mon) SetReference(s, r uint) error {
	mode := m.enter(4, s, r)
	m.check("SetReference", s)
	m.check("SetReference", r)
	if mode == FaultBefore {
		return m.injected()
	}
	changed := true
	if m.Mem != nil {
		_, old := m.Mem.RawReference(s)
		back, _ := m.Mem.RawReference(r)
		changed = old != r || back != s
		if old != 0 && old != r && len(m.Changed) < 20 {
			m.Changed = append(m.Changed, fmt.Sprintf("%s: reference of node %d changed from %d to %d", m.Op, s, old, r))
		}
		if back != 0 && back != s && len(m.Changed) < 20 {
			m.Changed = append(m.Changed, fmt.Sprintf("%s: node %d, referred to by %d, is now referred to by %d", m.Op, r, back, s))
		}
	}
	err := m.B.SetReference(s, r)
	if err == nil && changed {
		m.wrote(fmt.Sprintf("SetReference(%d,%d)", s, r))
	}
	if mode == FaultAfter {
		return m.injected()
	}
	return err
}

func (m *Mon) GetReference(id uint) (uint, uint, error) {
	mode := m.enter(5, id, 0)
	m.check("GetReference", id)
	if mode != 0 && !m.withValue() {
		return 0, 0, m.injected()
	}
	p, n, err := m.B.GetReference(id)
	if mode != 0 {
		return p, n, m.injected()
	}
	return p, n, err
}

func (m *Mon) Connect(s, t uint) error {
	mode := m.enter(6, s, t)
	m.check("Connect", s)
	m.check("Connect", t)
	if mode == FaultBefore {
		return m.injected()
	}
	changed := m.Mem == nil || !m.Mem.Connected(s, t)
	err := m.B.Connect(s, t)
	if err == nil && changed {
		m.wrote(fmt.Sprintf("Connect(%d,%d)", s, t))
	}
	if mode == FaultAfter {
		return m.injected()
	}
	return err
}

func (m *Mon) Disconnect(s, t uint) error {
	mode := m.enter(7, s, t)
	m.check("Disconnect", s)
	m.check("Disconnect", t)
	if mode == FaultBefore {
		return m.injected()
	}
	had := m.Mem == nil || m.Mem.Connected(s, t)
	err := m.B.Disconnect(s, t)
	if err == nil && had {
		if len(m.Removed) < 20 {
			m.Removed = append(m.Removed, fmt.Sprintf("%s: connection %d -> %d removed", m.Op, s, t))
		}
		m.wrote(fmt.Sprintf("Disconnect(%d,%d)", s, t))
	}
	if mode == FaultAfter {
		return m.injected()
	}
	return err
}

func (m *Mon) Delete(s uint) error {
	mode := m.enter(8, s, 0)
	m.check("Delete", s)
	if mode == FaultBefore {
		return m.injected()
	}
	err := m.B.Delete(s)
	if err == nil {
		if len(m.Removed) < 20 {
			m.Removed = append(m.Removed, fmt.Sprintf("%s: node %d removed", m.Op, s))
		}
		m.wrote(fmt.Sprintf("Delete(%d)", s))
	}
	if mode == FaultAfter {
		return m.injected()
	}
	return err
}
