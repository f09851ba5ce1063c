package memory

import (
	"errors"
	"testing"

	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

func TestVReplayC17(t *testing.T) {
	vs.Replay("C17", map[string]vs.Case{"storage": func(g *vs.Gen) string {
		s := NewStorage()
		model := map[uint16]any{}
		ids := []uint16{0, 1, 2, 3, 65535, uint16(g.Uint("id", 16))}
		n := 0
		for i, k := 0, []int{0, 0, 6, 12, 40, 300}[g.Intn("fill", 6)]; i < k; i++ {
			id := uint16(1000 + 7*i)
			n++
			if err := s.Store(id, n); err != nil {
				return vs.Sprintf("Store of absent %d gave %v", id, err)
			}
			model[id] = n
			if i < 20 || i%37 == 0 || i == k-1 {
				ids = append(ids, id)
			}
		}
		for i, k := 0, 1+g.Intn("n.calls", 14); i < k; i++ {
			id := ids[g.Intn("which", len(ids))]
			_, has := model[id]
			switch g.Intn("call", 3) {
			case 0:
				n++
				v := []any{n, n, n, nil, (*int)(nil), vs.Sprintf("%d", n)}[g.Intn("kind", 6)]
				g.Note("Store(%d,%#v)", id, v)
				err := s.Store(id, v)
				if has && !errors.Is(err, storage.ErrDuplicateEntry) {
					return vs.Sprintf("Store of present %d gave %v", id, err)
				}
				if !has && err != nil {
					return vs.Sprintf("Store of absent %d gave %v", id, err)
				}
				if !has {
					model[id] = v
				}
			case 1:
				g.Note("Drop(%d)", id)
				err := s.Drop(id)
				if has != (err == nil) || (!has && !errors.Is(err, storage.ErrNoEntry)) {
					return vs.Sprintf("Drop(%d), present %v, gave %v", id, has, err)
				}
				delete(model, id)
			default:
				g.Note("Get(%d)", id)
			}
			for _, id := range ids {
				v, err := s.Get(id)
				w, has := model[id]
				if has && (err != nil || v != w) || !has && (v != nil || !errors.Is(err, storage.ErrNoEntry)) {
					return vs.Sprintf("Get(%d) gave %v, %v; want %v present %v", id, v, err, w, has)
				}
			}
		}
		for id, w := range model {
			if v, err := s.Get(id); err != nil || v != w {
				return vs.Sprintf("finally Get(%d) gave %v, %v; want %v", id, v, err, w)
			}
		}
		return ""
	}}, t.Errorf)
}
