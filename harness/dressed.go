//go:build go1.22

package main

import (
	"fmt"

	"github.com/mem-memov/semnet"

	"verifharness/store"
)

// newGraph opens a graph on the storage, in the type it is dressed in.
func (w *World) newGraph() *semnet.Graph {
	d := dressed{w.mon}
	switch w.dress {
	case 1:
		return semnet.NewGraph(valueStorage{dressed: d})
	case 2:
		return semnet.NewGraph(&otherStorage{dressed: d})
	case 3:
		return semnet.NewGraph(listStorage{d})
	}
	return semnet.NewGraph(w.mon)
}

// dressUp puts the storage into another type from now on. No handle may have
// been used.
func (w *World) dressUp(k int) {
	w.dress = k % 4 // 0: the monitor itself
	w.handles = []*semnet.Graph{w.newGraph()}
}

// dressed has the methods semnet may call, and no others.
type dressed struct{ mon *store.Mon }

func (d dressed) Has(id uint) (bool, error)                { return d.mon.Has(id) }
func (d dressed) Create() (uint, error)                    { return d.mon.Create() }
func (d dressed) ReadSources(id uint) ([]uint, error)      { return d.mon.ReadSources(id) }
func (d dressed) ReadTargets(id uint) ([]uint, error)      { return d.mon.ReadTargets(id) }
func (d dressed) SetReference(a, b uint) error             { return d.mon.SetReference(a, b) }
func (d dressed) GetReference(id uint) (uint, uint, error) { return d.mon.GetReference(id) }
func (d dressed) Connect(a, b uint) error                  { return d.mon.Connect(a, b) }
func (d dressed) Disconnect(a, b uint) error               { return d.mon.Disconnect(a, b) }
func (d dressed) Delete(id uint) error                     { return d.mon.Delete(id) }

// meddled notes the call of a method that is for the owner of the storage.
func (d dressed) meddled(method string) error {
	if len(d.mon.Unknown) < 20 {
		d.mon.Unknown = append(d.mon.Unknown, fmt.Sprintf("%s: %s was called, a method of this storage that semnet does not know", d.mon.Op, method))
	}
	return fmt.Errorf("%s is for the owner of the storage", method)
}

// valueStorage is a value that cannot be compared, nor be a key of a map. It
// has methods of its own, with names and types that mean something elsewhere.
type valueStorage struct {
	dressed
	_ []uint
	_ func()
}

// otherStorage has methods with the same names and other types.
type otherStorage struct{ dressed }

// listStorage is a slice.
type listStorage []dressed

func (l listStorage) Has(id uint) (bool, error)                { return l[0].Has(id) }
func (l listStorage) Create() (uint, error)                    { return l[0].Create() }
func (l listStorage) ReadSources(id uint) ([]uint, error)      { return l[0].ReadSources(id) }
func (l listStorage) ReadTargets(id uint) ([]uint, error)      { return l[0].ReadTargets(id) }
func (l listStorage) SetReference(a, b uint) error             { return l[0].SetReference(a, b) }
func (l listStorage) GetReference(id uint) (uint, uint, error) { return l[0].GetReference(id) }
func (l listStorage) Connect(a, b uint) error                  { return l[0].Connect(a, b) }
func (l listStorage) Disconnect(a, b uint) error               { return l[0].Disconnect(a, b) }
func (l listStorage) Delete(id uint) error                     { return l[0].Delete(id) }

func (s valueStorage) Close() error                          { return s.meddled("Close") }
func (s valueStorage) Flush() error                          { return s.meddled("Flush") }
func (s valueStorage) Sync() error                           { return s.meddled("Sync") }
func (s valueStorage) Begin() error                          { return s.meddled("Begin") }
func (s valueStorage) Commit() error                         { return s.meddled("Commit") }
func (s valueStorage) Rollback() error                       { return s.meddled("Rollback") }
func (s valueStorage) Open() error                           { return s.meddled("Open") }
func (s valueStorage) Init() error                           { return s.meddled("Init") }
func (s valueStorage) Ping() error                           { return s.meddled("Ping") }
func (s valueStorage) Save() error                           { return s.meddled("Save") }
func (s valueStorage) Check() error                          { return s.meddled("Check") }
func (s valueStorage) Verify() error                         { return s.meddled("Verify") }
func (s valueStorage) Compact() error                        { return s.meddled("Compact") }
func (s valueStorage) Refresh() error                        { return s.meddled("Refresh") }
func (s valueStorage) Reset() error                          { return s.meddled("Reset") }
func (s valueStorage) Err() error                            { return s.meddled("Err") }
func (s valueStorage) Unwrap() error                         { return s.meddled("Unwrap") }
func (s valueStorage) IsEmpty() (bool, error)                { return true, s.meddled("IsEmpty") }
func (s valueStorage) Len() (int, error)                     { return 1, s.meddled("Len") }
func (s valueStorage) Count() (uint, error)                  { return 1, s.meddled("Count") }
func (s valueStorage) Exists(id uint) (bool, error)          { return true, s.meddled("Exists") }
func (s valueStorage) IsConnected(a, b uint) (bool, error)   { return true, s.meddled("IsConnected") }
func (s valueStorage) HasConnection(a, b uint) (bool, error) { return true, s.meddled("HasConnection") }
func (s valueStorage) Connected(a, b uint) (bool, error)     { return true, s.meddled("Connected") }
func (s valueStorage) CreateMany(n uint) ([]uint, error)     { return []uint{1}, s.meddled("CreateMany") }
func (s valueStorage) CreateNode() (uint, error)             { return 1, s.meddled("CreateNode") }
func (s valueStorage) CountSources(id uint) (uint, error)    { return 1, s.meddled("CountSources") }
func (s valueStorage) CountTargets(id uint) (uint, error)    { return 1, s.meddled("CountTargets") }
func (s valueStorage) HasSources(id uint) (bool, error)      { return true, s.meddled("HasSources") }
func (s valueStorage) HasTargets(id uint) (bool, error)      { return true, s.meddled("HasTargets") }
func (s valueStorage) HasReference(id uint) (bool, error)    { return true, s.meddled("HasReference") }
func (s valueStorage) ReadReference(id uint) (uint, error)   { return 1, s.meddled("ReadReference") }
func (s valueStorage) GetBackReference(id uint) (uint, error) {
	return 1, s.meddled("GetBackReference")
}
func (s valueStorage) DeleteReference(id uint) error      { return s.meddled("DeleteReference") }
func (s valueStorage) ConnectMany(a uint, b []uint) error { return s.meddled("ConnectMany") }
func (s valueStorage) First() (uint, error)               { return 1, s.meddled("First") }
func (s valueStorage) Last() (uint, error)                { return 1, s.meddled("Last") }
func (s valueStorage) All() ([]uint, error)               { return []uint{1}, s.meddled("All") }

func (s *otherStorage) Close()                         { s.meddled("Close") }
func (s *otherStorage) Flush()                         { s.meddled("Flush") }
func (s *otherStorage) Sync()                          { s.meddled("Sync") }
func (s *otherStorage) Begin()                         { s.meddled("Begin") }
func (s *otherStorage) Commit()                        { s.meddled("Commit") }
func (s *otherStorage) Rollback()                      { s.meddled("Rollback") }
func (s *otherStorage) Lock()                          { s.meddled("Lock") }
func (s *otherStorage) Unlock()                        { s.meddled("Unlock") }
func (s *otherStorage) RLock()                         { s.meddled("RLock") }
func (s *otherStorage) RUnlock()                       { s.meddled("RUnlock") }
func (s *otherStorage) Reset()                         { s.meddled("Reset") }
func (s *otherStorage) TryLock() bool                  { s.meddled("TryLock"); return true }
func (s *otherStorage) Len() int                       { s.meddled("Len"); return 1 }
func (s *otherStorage) Size() int                      { s.meddled("Size"); return 1 }
func (s *otherStorage) Cap() int                       { s.meddled("Cap"); return 1 }
func (s *otherStorage) Count() int                     { s.meddled("Count"); return 1 }
func (s *otherStorage) IsEmpty() bool                  { s.meddled("IsEmpty"); return true }
func (s *otherStorage) Exists(id uint) bool            { s.meddled("Exists"); return true }
func (s *otherStorage) IsConnected(a, b uint) bool     { s.meddled("IsConnected"); return true }
func (s *otherStorage) Connected(a, b uint) bool       { s.meddled("Connected"); return true }
func (s *otherStorage) HasConnection(a, b uint) bool   { s.meddled("HasConnection"); return true }
func (s *otherStorage) String() string                 { s.meddled("String"); return "owner" }
func (s *otherStorage) Error() string                  { s.meddled("Error"); return "owner" }
func (s *otherStorage) GoString() string               { s.meddled("GoString"); return "owner" }
func (s *otherStorage) Name() string                   { s.meddled("Name"); return "owner" }
func (s *otherStorage) ID() string                     { s.meddled("ID"); return "owner" }
func (s *otherStorage) Key() string                    { s.meddled("Key"); return "owner" }
func (s *otherStorage) Path() string                   { s.meddled("Path"); return "owner" }
func (s *otherStorage) Read(p []byte) (int, error)     { return 1, s.meddled("Read") }
func (s *otherStorage) Write(p []byte) (int, error)    { return 1, s.meddled("Write") }
func (s *otherStorage) MarshalJSON() ([]byte, error)   { return nil, s.meddled("MarshalJSON") }
func (s *otherStorage) MarshalText() ([]byte, error)   { return nil, s.meddled("MarshalText") }
func (s *otherStorage) MarshalBinary() ([]byte, error) { return nil, s.meddled("MarshalBinary") }
func (s *otherStorage) Is(err error) bool              { s.meddled("Is"); return true }
func (s *otherStorage) Done() <-chan struct{}          { s.meddled("Done"); return nil }
func (s *otherStorage) Version() uint64                { s.meddled("Version"); return 1 }
func (s *otherStorage) Hash() uint64                   { s.meddled("Hash"); return 1 }
func (s *otherStorage) Generation() uint64             { s.meddled("Generation"); return 1 }
func (s *otherStorage) Unique() bool                   { s.meddled("Unique"); return true }
func (s *otherStorage) ReadOnly() bool                 { s.meddled("ReadOnly"); return true }
