//go:build go1.22

package store

import (
	"fmt"
	"math/rand"
)

// Neighbours is a storage others use too: between any two calls they create
// nodes of their own, connect them, refer with them and take that back.
type Neighbours struct {
	*Mem
	Rng *rand.Rand
	Per int // per cent of the calls before which others do something

	Own     []uint // nodes handed out through Create, in order
	Foreign []uint // nodes of others, in order
	Steps   int
	theirs  *Mem          // what others put there, by their own count
	as      map[uint]uint // the count of each node of others
}

func NewNeighbours(m *Mem, seed int64, per int) *Neighbours {
	return &Neighbours{Mem: m, Rng: rand.New(rand.NewSource(seed)), Per: per, theirs: NewMem(Config{}), as: map[uint]uint{}}
}

// others does what others do, once the nodes of the classes are there.
func (n *Neighbours) others() {
	if n.Mem.Len() < fixed {
		return
	}
	for n.Rng.Intn(100) < n.Per {
		n.Steps++
		pick := func() uint { return n.Foreign[n.Rng.Intn(len(n.Foreign))] }
		k := n.Rng.Intn(9)
		if len(n.Foreign) < 3 {
			k = 0
		}
		switch {
		case k < 3:
			for i := 1 + n.Rng.Intn(3); i > 0; i-- {
				id, _ := n.Mem.Create()
				n.Foreign = append(n.Foreign, id)
				n.as[id], _ = n.theirs.Create()
			}
		case k < 6:
			a, b := pick(), pick()
			n.Mem.Connect(a, b)
			n.theirs.Connect(n.as[a], n.as[b])
		case k < 8:
			a, b := pick(), pick()
			n.Mem.SetReference(a, b)
			n.theirs.SetReference(n.as[a], n.as[b])
		default:
			a, b := pick(), pick()
			n.Mem.Disconnect(a, b)
			n.theirs.Disconnect(n.as[a], n.as[b])
		}
	}
}

func (n *Neighbours) Has(id uint) (bool, error) { n.others(); return n.Mem.Has(id) }

func (n *Neighbours) Create() (uint, error) {
	n.others()
	id, err := n.Mem.Create()
	if err == nil {
		n.Own = append(n.Own, id)
	}
	return id, err
}

func (n *Neighbours) ReadSources(id uint) ([]uint, error) {
	n.others()
	return n.Mem.ReadSources(id)
}

func (n *Neighbours) ReadTargets(id uint) ([]uint, error) {
	n.others()
	return n.Mem.ReadTargets(id)
}

func (n *Neighbours) GetReference(id uint) (uint, uint, error) {
	n.others()
	return n.Mem.GetReference(id)
}

func (n *Neighbours) SetReference(s, r uint) error {
	n.others()
	return n.Mem.SetReference(s, r)
}

func (n *Neighbours) Connect(s, t uint) error {
	n.others()
	return n.Mem.Connect(s, t)
}

func (n *Neighbours) Disconnect(s, t uint) error {
	n.others()
	return n.Mem.Disconnect(s, t)
}

func (n *Neighbours) Delete(s uint) error {
	n.others()
	return n.Mem.Delete(s)
}

// Differs names a node of others that does not hold what they put there, ""
// if there is none.
func (n *Neighbours) Differs() string {
	for _, id := range n.Foreign {
		b, r := n.Mem.RawReference(id)
		got := fmt.Sprint(b, r, n.Mem.RawTargets(id), n.Mem.RawSources(id))
		b, r = n.theirs.RawReference(n.as[id])
		names := func(l []uint) []uint {
			out := make([]uint, len(l))
			for i, x := range l {
				out[i] = n.Foreign[x-1]
			}
			return out
		}
		if b != 0 {
			b = n.Foreign[b-1]
		}
		if r != 0 {
			r = n.Foreign[r-1]
		}
		want := fmt.Sprint(b, r, names(n.theirs.RawTargets(n.as[id])), names(n.theirs.RawSources(n.as[id])))
		if got != want {
			return fmt.Sprintf("node %d holds %s, not %s", id, got, want)
		}
	}
	return ""
}

// Content writes down what the listed nodes hold, with each named by its place
// in the list.
func Content(m *Mem, ids []uint) (out []string) {
	place := map[uint]int{}
	for i, id := range ids {
		place[id] = i + 1
	}
	names := func(l []uint) (s []int) {
		for _, id := range l {
			if place[id] == 0 {
				s = append(s, -1)
			} else {
				s = append(s, place[id])
			}
		}
		return
	}
	for _, id := range ids {
		b, r := m.RawReference(id)
		out = append(out, fmt.Sprint(place[b], place[r], names(m.RawTargets(id)), names(m.RawSources(id))))
	}
	return
}
