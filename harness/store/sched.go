//go:build go1.22

package store

import (
	"errors"
	"math/rand"
	"sync"
	"sync/atomic"
	"time"
)

// Sched lets goroutines take turns: one runs at a time, and at each storage
// call it may hand over to another, as decided by the seed. If the running
// goroutine waits for one that is not running (a lock held over a storage
// call), all are let go: the order is then up to the runtime.
type Sched struct {
	mu       sync.Mutex
	rng      *rand.Rand
	mean     int
	turn     []chan struct{}
	alive    []bool
	cur      int
	free     chan struct{}
	freed    int32
	ticks    uint64
	Switches int
	Hash     uint64 // of the order of turns
}

func NewSched(n int, seed int64, mean int) *Sched {
	s := &Sched{rng: rand.New(rand.NewSource(seed)), mean: mean, free: make(chan struct{}), Hash: 14695981039346656037}
	for i := 0; i < n; i++ {
		s.turn = append(s.turn, make(chan struct{}, 1))
		s.alive = append(s.alive, true)
	}
	return s
}

// Run performs the functions in turns until all have ended, or until none of
// them has called the storage or ended for a very long time.
func (s *Sched) Run(fs []func()) (deterministic, ended bool) {
	end := make(chan struct{}, len(fs))
	for i, f := range fs {
		go func(i int, f func()) {
			defer func() {
				s.exit(i)
				end <- struct{}{}
			}()
			s.wait(i)
			f()
		}(i, f)
	}
	s.turn[0] <- struct{}{}
	t := time.NewTicker(500 * time.Millisecond)
	defer t.Stop()
	last, same := uint64(0), 0
	for left := len(fs); left > 0; {
		select {
		case <-end:
			left--
			same = 0
		case <-t.C:
			now := atomic.LoadUint64(&s.ticks)
			same++
			if now != last {
				same = 0
			}
			last = now
			if same >= 4 && atomic.CompareAndSwapInt32(&s.freed, 0, 1) {
				close(s.free)
			}
			if same >= 240 {
				return false, false
			}
		}
	}
	return atomic.LoadInt32(&s.freed) == 0, true
}

func (s *Sched) wait(i int) {
	select {
	case <-s.turn[i]:
	case <-s.free:
	}
}

func (s *Sched) pickNext() int {
	n := 0
	for _, a := range s.alive {
		if a {
			n++
		}
	}
	if n == 0 {
		return -1
	}
	k := s.rng.Intn(n)
	for i, a := range s.alive {
		if a {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -1
}

func (s *Sched) give(next int) {
	s.cur = next
	s.Switches++
	s.Hash ^= uint64(next) + 1
	s.Hash *= 1099511628211
	select {
	case s.turn[next] <- struct{}{}:
	case <-s.free:
	}
}

// Yield may hand over to another goroutine.
func (s *Sched) Yield() {
	atomic.AddUint64(&s.ticks, 1)
	if atomic.LoadInt32(&s.freed) != 0 {
		return
	}
	s.mu.Lock()
	if s.mean > 1 && s.rng.Intn(s.mean) != 0 {
		s.mu.Unlock()
		return
	}
	me := s.cur
	next := s.pickNext()
	if next == me {
		s.mu.Unlock()
		return
	}
	s.give(next)
	s.mu.Unlock()
	s.wait(me)
}

func (s *Sched) exit(i int) {
	if atomic.LoadInt32(&s.freed) != 0 {
		return
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.alive[i] = false
	if next := s.pickNext(); next >= 0 {
		s.give(next)
	}
}

// Yielding is a storage that calls F before every call.
type Yielding struct {
	B Backend
	F func()
}

func (y Yielding) Has(id uint) (bool, error)                { y.F(); return y.B.Has(id) }
func (y Yielding) Create() (uint, error)                    { y.F(); return y.B.Create() }
func (y Yielding) ReadSources(id uint) ([]uint, error)      { y.F(); return y.B.ReadSources(id) }
func (y Yielding) ReadTargets(id uint) ([]uint, error)      { y.F(); return y.B.ReadTargets(id) }
func (y Yielding) SetReference(a, b uint) error             { y.F(); return y.B.SetReference(a, b) }
func (y Yielding) GetReference(id uint) (uint, uint, error) { y.F(); return y.B.GetReference(id) }
func (y Yielding) Connect(a, b uint) error                  { y.F(); return y.B.Connect(a, b) }
func (y Yielding) Disconnect(a, b uint) error               { y.F(); return y.B.Disconnect(a, b) }
func (y Yielding) Delete(id uint) error                     { y.F(); return y.B.Delete(id) }

// Broken is a storage of which some nodes cannot be read while On.
type Broken struct {
	Backend
	On   bool
	Seed uint64
}

func (b *Broken) fails(id uint) error {
	if b.On && id > 8 {
		x := (uint64(id) ^ b.Seed) * 0x9e3779b97f4a7c15
		if (x^x>>29)*0xbf58476d1ce4e5b9>>40%40 == 0 {
			return errors.New("storage: broken node")
		}
	}
	return nil
}

func (b *Broken) ReadSources(id uint) ([]uint, error) {
	if err := b.fails(id); err != nil {
		return nil, err
	}
	return b.Backend.ReadSources(id)
}

func (b *Broken) ReadTargets(id uint) ([]uint, error) {
	if err := b.fails(id); err != nil {
		return nil, err
	}
	return b.Backend.ReadTargets(id)
}

func (b *Broken) GetReference(id uint) (uint, uint, error) {
	if err := b.fails(id); err != nil {
		return 0, 0, err
	}
	return b.Backend.GetReference(id)
}

// Locked is a storage whose calls are performed one at a time, or several if
// they only read.
type Locked struct {
	B Backend
	l sync.RWMutex
}

func (y *Locked) Has(id uint) (bool, error) {
	y.l.RLock()
	defer y.l.RUnlock()
	return y.B.Has(id)
}

func (y *Locked) Create() (uint, error) {
	y.l.Lock()
	defer y.l.Unlock()
	return y.B.Create()
}

func (y *Locked) ReadSources(id uint) ([]uint, error) {
	y.l.RLock()
	defer y.l.RUnlock()
	return y.B.ReadSources(id)
}

func (y *Locked) ReadTargets(id uint) ([]uint, error) {
	y.l.RLock()
	defer y.l.RUnlock()
	return y.B.ReadTargets(id)
}

func (y *Locked) SetReference(a, b uint) error {
	y.l.Lock()
	defer y.l.Unlock()
	return y.B.SetReference(a, b)
}

func (y *Locked) GetReference(id uint) (uint, uint, error) {
	y.l.RLock()
	defer y.l.RUnlock()
	return y.B.GetReference(id)
}

func (y *Locked) Connect(a, b uint) error {
	y.l.Lock()
	defer y.l.Unlock()
	return y.B.Connect(a, b)
}

func (y *Locked) Disconnect(a, b uint) error {
	y.l.Lock()
	defer y.l.Unlock()
	return y.B.Disconnect(a, b)
}

func (y *Locked) Delete(id uint) error {
	y.l.Lock()
	defer y.l.Unlock()
	return y.B.Delete(id)
}
