// Package migrate stands in for golang-migrate: it applies the *.up.sql files of a directory in the order of
// their versions, each once, and keeps the version and the dirty flag in the database.
package migrate

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	real "github.com/golang-migrate/migrate/v4"

	mysql "github.com/sisu-network/dheart/zzmc/shim/migratemysql"
)

type Migrate struct {
	Log real.Logger
	dir string
	drv *mysql.Driver
}

func NewWithDatabaseInstance(sourceURL, name string, drv *mysql.Driver) (*Migrate, error) {
	if !strings.HasPrefix(sourceURL, "file://") {
		return nil, fmt.Errorf("source driver: unknown driver %s", sourceURL)
	}
	dir := strings.TrimPrefix(sourceURL, "file://")
	if _, err := os.ReadDir(dir); err != nil {
		return nil, err
	}
	return &Migrate{dir: dir, drv: drv}, nil
}

func (m *Migrate) Close() (error, error) { return nil, nil }

func (m *Migrate) Up() error {
	version, dirty, err := m.version()
	if err != nil {
		return err
	}
	if dirty {
		return real.ErrDirty{Version: version}
	}
	type file struct {
		v    int
		name string
	}
	var files []file
	ents, err := os.ReadDir(m.dir)
	if err != nil {
		return err
	}
	for _, e := range ents {
		i := strings.Index(e.Name(), "_")
		if i < 0 || !strings.HasSuffix(e.Name(), ".up.sql") {
			continue
		}
		v, err := strconv.Atoi(e.Name()[:i])
		if err == nil && v > version {
			files = append(files, file{v, e.Name()})
		}
	}
	if len(files) == 0 {
		return real.ErrNoChange
	}
	sort.Slice(files, func(i, j int) bool { return files[i].v < files[j].v })
	for _, f := range files {
		bz, err := os.ReadFile(filepath.Join(m.dir, f.name))
		if err != nil {
			return err
		}
		if err := m.setVersion(f.v, true); err != nil {
			return err
		}
		if _, err := m.drv.DB.Exec(string(bz)); err != nil {
			return err
		}
		if err := m.setVersion(f.v, false); err != nil {
			return err
		}
	}
	return nil
}

func (m *Migrate) version() (int, bool, error) {
	rows, err := m.drv.DB.Query("SELECT version, dirty FROM `schema_migrations` LIMIT 1")
	if err != nil {
		return 0, false, err
	}
	defer rows.Close()
	v, d := 0, false
	if rows.Next() {
		if err := rows.Scan(&v, &d); err != nil {
			return 0, false, err
		}
	}
	return v, d, rows.Err()
}

// setVersion is one transaction, like that of the real driver.
func (m *Migrate) setVersion(v int, dirty bool) error {
	tx, err := m.drv.DB.Begin()
	if err != nil {
		return err
	}
	if _, err := tx.Exec("DELETE FROM `schema_migrations`"); err != nil {
		tx.Rollback()
		return err
	}
	if _, err := tx.Exec("INSERT INTO `schema_migrations` (version, dirty) VALUES (?, ?)", v, dirty); err != nil {
		tx.Rollback()
		return err
	}
	return tx.Commit()
}
