package kit

import (
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"
	"unsafe"

	"github.com/Bren2010/katie/db"
	"github.com/syndtr/goleveldb/leveldb"
)

// LDB is an open persistent store in a scratch directory.
type LDB struct {
	db.TransparencyStore
	Dir string
}

// OpenLDB opens the store in dir (a new scratch directory if empty).
func OpenLDB(dir string) (*LDB, error) {
	if dir == "" {
		d, err := os.MkdirTemp("", "verif-ldb-")
		if err != nil {
			panic(err)
		}
		dir = d
	}
	s, err := db.NewLDBTransparencyStore(filepath.Join(dir, "db"))
	if err != nil {
		return nil, err
	}
	return &LDB{s, dir}, nil
}

// Close releases the database. The store has no such method, so this looks for
// the LevelDB handle inside it; when there is none the handle just leaks.
func (l *LDB) Close() {
	if l.TransparencyStore == nil {
		return
	}
	if h := findLevelDB(reflect.ValueOf(l.TransparencyStore), 0); h != nil {
		h.Close()
	}
	l.TransparencyStore = nil
}

// Break makes the database under the store unavailable (false if it can not be
// found).
func (l *LDB) Break() bool {
	h := findLevelDB(reflect.ValueOf(l.TransparencyStore), 0)
	return h != nil && h.Close() == nil
}

// Remove closes the store and deletes its directory.
func (l *LDB) Remove() {
	l.Close()
	if strings.Contains(l.Dir, "verif-ldb-") {
		os.RemoveAll(l.Dir)
	}
}

func findLevelDB(v reflect.Value, depth int) *leveldb.DB {
	if depth > 6 || !v.IsValid() {
		return nil
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			return nil
		}
		if v.Type() == reflect.TypeOf((*leveldb.DB)(nil)) {
			return (*leveldb.DB)(unsafe.Pointer(v.Pointer()))
		}
		return findLevelDB(v.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if h := findLevelDB(v.Field(i), depth+1); h != nil {
				return h
			}
		}
	}
	return nil
}

// Journal is the newest journal file of the database and its length.
func (l *LDB) Journal() (string, int64) {
	names, _ := filepath.Glob(filepath.Join(l.Dir, "db", "*.log"))
	best := ""
	for _, n := range names {
		if filepath.Base(n) > filepath.Base(best) || best == "" {
			best = n
		}
	}
	if best == "" {
		return "", 0
	}
	fi, err := os.Stat(best)
	if err != nil {
		return "", 0
	}
	return filepath.Base(best), fi.Size()
}

// CrashCopy is what a crash leaves behind: a copy of the database's files at
// one moment, with the journal cut off after size bytes (-1: not cut).
func (l *LDB) CrashCopy(journal string, size int64) (*LDB, error) {
	d, err := os.MkdirTemp("", "verif-ldb-")
	if err != nil {
		panic(err)
	}
	// A compaction that goes on in the background changes the files. They are
	// only appended to, created and removed, so they show one moment if the
	// directory looks the same before and after the copy.
	for k := 0; ; k++ {
		before := l.listing()
		ok := l.copyTo(filepath.Join(d, "db"), journal, size)
		if ok && before != "" && l.listing() == before {
			break
		}
		if k > 2000 {
			panic("harness: the database files never rest")
		}
		time.Sleep(time.Millisecond)
	}
	out, err := OpenLDB(d)
	if err != nil {
		os.RemoveAll(d)
		return nil, err
	}
	return out, nil
}

func (l *LDB) listing() string {
	ents, err := os.ReadDir(filepath.Join(l.Dir, "db"))
	if err != nil {
		panic(err)
	}
	out := ""
	for _, e := range ents {
		if e.Name() == "LOCK" || e.Name() == "LOG" || e.Name() == "LOG.old" {
			continue
		}
		fi, err := e.Info()
		if err != nil {
			return "" // just removed
		}
		out += fmt.Sprintf("%s %d %d\n", e.Name(), fi.Size(), fi.ModTime().UnixNano())
	}
	return out
}

// copyTo says whether all files were there.
func (l *LDB) copyTo(dir, journal string, size int64) bool {
	if err := os.RemoveAll(dir); err != nil {
		panic(err)
	} else if err := os.Mkdir(dir, 0o755); err != nil {
		panic(err)
	}
	ents, err := os.ReadDir(filepath.Join(l.Dir, "db"))
	if err != nil {
		panic(err)
	}
	for _, e := range ents {
		if e.Name() == "LOCK" || e.Name() == "LOG" || e.Name() == "LOG.old" {
			continue
		}
		src, err := os.Open(filepath.Join(l.Dir, "db", e.Name()))
		if err != nil {
			return false // removed by a compaction in the meantime
		}
		dst, err := os.Create(filepath.Join(dir, e.Name()))
		if err != nil {
			panic(err)
		}
		var r io.Reader = src
		if e.Name() == journal && size >= 0 {
			r = io.LimitReader(src, size)
		}
		if _, err := io.Copy(dst, r); err != nil {
			panic(err)
		}
		src.Close()
		dst.Close()
	}
	return true
}
