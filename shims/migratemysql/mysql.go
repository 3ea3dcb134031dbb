// Package mysql stands in for golang-migrate's mysql driver, over the shim of database/sql.
package mysql

import (
	sql "github.com/sisu-network/dheart/zzmc/shim/sql"
)

type Driver struct{ DB *sql.DB }

// WithInstance keeps one connection of the pool, like the real driver, and makes the version table.
func WithInstance(db *sql.DB, config *Config) (*Driver, error) {
	if err := db.Ping(); err != nil {
		return nil, err
	}
	if err := db.Hold(); err != nil {
		return nil, err
	}
	if _, err := db.Exec("CREATE TABLE IF NOT EXISTS `schema_migrations` (version bigint not null primary key, dirty boolean not null)"); err != nil {
		return nil, err
	}
	return &Driver{db}, nil
}
