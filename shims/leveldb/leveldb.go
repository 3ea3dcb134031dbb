// Package leveldb keeps the files of the real goleveldb in memory, where they outlive the process under test.
package leveldb

import (
	"io/ioutil"
	"os"
	"sort"

	orig "github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"

	mc "github.com/sisu-network/dheart/zzmc"
)

// World is the disk of one execution.
type World struct {
	disks map[string]storage.Storage
	open  []*orig.DB
	Fault func(op string) error // asked before a store is opened
}

// W returns the world of the running execution.
func W() *World {
	return mc.Local("leveldb", func() interface{} { return &World{disks: map[string]storage.Storage{}} }).(*World)
}

// Stop ends the process that has the stores open.
func (w *World) Stop() {
	for _, db := range w.open {
		db.Close()
	}
	w.open = nil
}

// Files returns the content of all files.
func (w *World) Files() (o [][]byte) {
	var paths []string
	for p := range w.disks {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		fds, err := w.disks[p].List(storage.TypeAll)
		if err != nil {
			panic(err)
		}
		sort.Slice(fds, func(i, j int) bool { return fds[i].Num < fds[j].Num || fds[i].Num == fds[j].Num && fds[i].Type < fds[j].Type })
		for _, fd := range fds {
			r, err := w.disks[p].Open(fd)
			if err != nil {
				continue // being written; the journal can always be read after Stop
			}
			bz, _ := ioutil.ReadAll(r)
			r.Close()
			o = append(o, bz)
		}
	}
	return
}

func small(o *opt.Options) *opt.Options {
	n := opt.Options{}
	if o != nil {
		n = *o
	}
	n.WriteBuffer, n.BlockCacheCapacity, n.OpenFilesCacheCapacity = 16<<10, -1, -1
	return &n
}

func open(path string, o *opt.Options, f func(storage.Storage, *opt.Options) (*orig.DB, error)) (*orig.DB, error) {
	w := W()
	mc.Point("leveldb open")
	if w.Fault != nil {
		if err := w.Fault("open"); err != nil {
			return nil, err
		}
	}
	if w.disks[path] == nil {
		if o != nil && o.ErrorIfMissing {
			return nil, os.ErrNotExist
		}
		w.disks[path] = storage.NewMemStorage()
	}
	db, err := f(w.disks[path], small(o))
	if err == nil {
		w.open = append(w.open, db)
	}
	return db, err
}

func OpenFile(path string, o *opt.Options) (*orig.DB, error) { return open(path, o, orig.Open) }

func RecoverFile(path string, o *opt.Options) (*orig.DB, error) { return open(path, o, orig.Recover) }
