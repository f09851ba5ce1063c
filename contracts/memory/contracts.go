package memory

import (
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	vs "github.com/waj334/tinygo-mqtt/mqtt/verifspec"
)

// vAt is what the storage holds under id: the name of the packet, or nothing. Entries have distinct identifiers exactly if
// this is never more than one name, which is the invariant of the storage.
func vAt(s []entry, id uint16) string {
	return vs.FoldSlice(s, func(e entry) string { return vs.Opt(e.id == id, vs.Tok(e.packet)) })
}

//verif:contract (*Storage).Get
//verif:safety C17
func vcGet(s *Storage, identifier uint16) {
	was := vAt(s.store, identifier)
	vs.Requires(len(was) <= 1)
	packet, err := s.Get(identifier)
	vs.Ensures("C17: a packet that is stored is returned", err != nil || was == vs.Tok(packet))
	vs.Ensures("C17: no entry is reported only if there is none", err == nil || was == "")
	vs.Ensures("C17: the error is the no-entry error", err == nil || err == storage.ErrNoEntry)
	vs.Cover("C17: found", err == nil)
	vs.Cover("C17: not found", err != nil)
}

//verif:contract (*Storage).Store
//verif:safety C17
func vcStore(s *Storage, identifier uint16, packet any, other uint16) {
	was, wasOther := vAt(s.store, identifier), vAt(s.store, other)
	vs.Requires(len(was) <= 1)
	vs.Requires(len(wasOther) <= 1)
	vs.Modifies(&s.store)
	err := s.Store(identifier, packet)
	vs.Ensures("C17: the packet is stored under its identifier", err != nil || vAt(s.store, identifier) == vs.Tok(packet))
	vs.Ensures("C17: an identifier that is in use is refused", err != nil || was == "")
	vs.Ensures("C17: a free identifier is accepted", err == nil || was != "")
	vs.Ensures("C17: the error is the duplicate error", err == nil || err == storage.ErrDuplicateEntry)
	vs.Ensures("C17: a refused store changes nothing", err == nil || vAt(s.store, other) == wasOther)
	vs.Ensures("C17: the other identifiers keep what they have", other == identifier || vAt(s.store, other) == wasOther)
	vs.Cover("C17: stored", err == nil)
	vs.Cover("C17: refused", err != nil)
}

//verif:contract (*Storage).Drop
//verif:safety C17
func vcDrop(s *Storage, identifier uint16, other uint16) {
	was, wasOther := vAt(s.store, identifier), vAt(s.store, other)
	vs.Requires(len(was) <= 1)
	vs.Requires(len(wasOther) <= 1)
	vs.Modifies(&s.store)
	err := s.Drop(identifier)
	vs.Ensures("C17: what is dropped is gone", err != nil || vAt(s.store, identifier) == "")
	vs.Ensures("C17: an identifier that is in use is dropped", err == nil || was == "")
	vs.Ensures("C17: an identifier that is not in use is refused", err != nil || was != "")
	vs.Ensures("C17: the error is the no-entry error", err == nil || err == storage.ErrNoEntry)
	vs.Ensures("C17: a refused drop changes nothing", err == nil || vAt(s.store, other) == wasOther)
	vs.Ensures("C17: the other identifiers keep what they have", other == identifier || vAt(s.store, other) == wasOther)
	vs.Cover("C17: dropped", err == nil)
	vs.Cover("C17: refused", err != nil)
}

//verif:contract NewStorage
//verif:safety C17
func vcNewStorage(identifier uint16) {
	s := NewStorage()
	vs.Ensures("C17: a new storage holds nothing", vAt(s.store, identifier) == "")
}
