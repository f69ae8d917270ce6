package sim

import (
	"sync"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"

	"tinyverif/vsync/vy"
	"tinyverif/wire"
)

// Store is a storage that records and can fail on demand.
type Store struct {
	mu   sync.Mutex
	m    map[uint16]any
	n    int
	Fail func(n int, op byte, id uint16) error // op: S, G, D
}

func NewStore() *Store { return &Store{m: map[uint16]any{}} }

func (s *Store) fail(op byte, id uint16) error {
	s.n++
	if s.Fail != nil {
		return s.Fail(s.n, op, id)
	}
	return nil
}

func (s *Store) Store(id uint16, p any) error {
	vy.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fail('S', id); err != nil {
		return err
	}
	if _, ok := s.m[id]; ok {
		return storage.ErrDuplicateEntry
	}
	s.m[id] = p
	return nil
}

func (s *Store) Get(id uint16) (any, error) {
	vy.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fail('G', id); err != nil {
		return nil, err
	}
	if p, ok := s.m[id]; ok {
		return p, nil
	}
	return nil, storage.ErrNoEntry
}

func (s *Store) Drop(id uint16) error {
	vy.Y()
	s.mu.Lock()
	defer s.mu.Unlock()
	if err := s.fail('D', id); err != nil {
		return err
	}
	if _, ok := s.m[id]; !ok {
		return storage.ErrNoEntry
	}
	delete(s.m, id)
	return nil
}

// Put adds an entry the application stored itself.
func (s *Store) Put(id uint16, p any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.m[id] = p
}

// Has reports whether an identifier is held.
func (s *Store) Has(id uint16) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	_, ok := s.m[id]
	return ok
}

// Snapshot returns the stored entries.
func (s *Store) Snapshot() map[uint16]any {
	s.mu.Lock()
	defer s.mu.Unlock()
	r := map[uint16]any{}
	for k, v := range s.m {
		r[k] = v
	}
	return r
}

// Kind returns the packet type of a stored entry (0 if it is something else).
func Kind(p any) byte {
	switch p.(type) {
	case *packets.Publish, packets.Publish:
		return wire.PUBLISH
	case *packets.Pubrec, packets.Pubrec:
		return wire.PUBREC
	case *packets.Pubrel, packets.Pubrel:
		return wire.PUBREL
	}
	return 0
}
