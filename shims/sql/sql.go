// Package sql stands in for database/sql in package db. Statements run on a real sqlite engine; the connection
// pool, the server behind the mysql driver, its clock and its failures are under the control of the model checker.
package sql

import (
	"context"
	rsql "database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	sqlite3 "github.com/mattn/go-sqlite3"

	mc "github.com/sisu-network/dheart/zzmc"
)

// World is the state of one execution: all databases and the faults the harness injects.
type World struct {
	Opened []string // data source names
	servers map[string]*store // by server address and schema
	// Fault is asked before every statement and decides whether it fails. kind: open, exec, query.
	Fault func(kind, query string) Fault
	// RowFault is asked before every row of a result; true: the connection breaks there.
	RowFault func(query string, row int) bool
	// Reverse is asked for the order of the rows of a result without ORDER BY.
	Reverse func(query string, rows int) bool
	Calls   []string
	Open    int // rows not closed
}

type Fault int

const (
	OK     Fault = iota
	Before       // the statement fails and has no effect
	After        // the statement takes effect, its answer is lost
)

var ErrLost = errors.New("invalid connection")

// open sqlite handles of the execution before
var stale []*store

// W returns the world of the running execution.
func W() *World {
	return mc.Local("sql", func() interface{} {
		for _, s := range stale {
			s.c.Close()
		}
		stale = nil
		return &World{servers: map[string]*store{}}
	}).(*World)
}

func (w *World) fault(kind, q string) Fault {
	mc.Point("sql " + kind)
	w.Calls = append(w.Calls, kind+" "+q)
	if w.Fault == nil {
		return OK
	}
	return w.Fault(kind, q)
}

// server makes the database of a schema of a server, or that of a connection without schema.
func (w *World) server(srv, schema string) *store {
	s := newStore(true)
	s.server = srv
	w.servers[srv+"/"+schema] = s
	return s
}

// store is one sqlite database.
type store struct {
	c      *sqlite3.SQLiteConn
	mysql  bool
	server string
}

func newStore(mysql bool) *store {
	d := &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		return c.RegisterFunc("mc_now", func() string { return mc.TimeNow().Format("2006-01-02 15:04:05") }, false)
	}}
	c, err := d.Open(":memory:")
	if err != nil {
		panic(err)
	}
	s := &store{c: c.(*sqlite3.SQLiteConn), mysql: mysql}
	stale = append(stale, s)
	return s
}

var emptyList = regexp.MustCompile(`(?i)\bIN\s*\(\s*\)`)
var ddlNow = regexp.MustCompile(`(?i)DEFAULT\s+CURRENT_TIMESTAMP`)
var orderBy = regexp.MustCompile(`(?i)\bORDER\s+BY\b`)
var createDb = regexp.MustCompile("(?i)^\\s*CREATE\\s+(?:DATABASE|SCHEMA)\\s+(IF\\s+NOT\\s+EXISTS\\s+)?`?(\\w+)`?\\s*;?\\s*$")

func (s *store) prep(q string, args []interface{}) (string, []driver.NamedValue, error) {
	if s.mysql && emptyList.MatchString(q) {
		return "", nil, errors.New("Error 1064: You have an error in your SQL syntax")
	}
	if s.mysql {
		if m := createDb.FindStringSubmatch(q); m != nil {
			if w := W(); w.servers[s.server+"/"+m[2]] == nil {
				w.server(s.server, m[2])
			} else if m[1] == "" {
				return "", nil, fmt.Errorf("Error 1007: Can't create database '%s'; database exists", m[2])
			}
			q = "SELECT 1"
		} else if s == W().servers[s.server+"/"] && strings.TrimSpace(q) != "" {
			return "", nil, errors.New("Error 1046: No database selected")
		}
	}
	q = ddlNow.ReplaceAllString(q, "DEFAULT (mc_now())")
	var nv []driver.NamedValue
	for i, a := range args {
		v, err := driver.DefaultParameterConverter.ConvertValue(a)
		if err != nil {
			return "", nil, fmt.Errorf("sql: converting argument $%d type: %v", i+1, err)
		}
		nv = append(nv, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	if n := strings.Count(q, "?"); n != len(args) {
		return "", nil, fmt.Errorf("sql: expected %d arguments, got %d", n, len(args))
	}
	return q, nv, nil
}

func (s *store) exec(q string, args []interface{}) (rsql.Result, error) {
	q, nv, err := s.prep(q, args)
	if err != nil {
		return nil, err
	}
	return s.c.ExecContext(context.Background(), q, nv)
}

func (s *store) query(q string, args []interface{}) (cols []string, rows [][]interface{}, err error) {
	q, nv, err := s.prep(q, args)
	if err != nil {
		return nil, nil, err
	}
	r, err := s.c.QueryContext(context.Background(), q, nv)
	if err != nil {
		return nil, nil, err
	}
	defer r.Close()
	cols = r.Columns()
	for {
		vals := make([]driver.Value, len(cols))
		if err := r.Next(vals); err == io.EOF {
			return cols, rows, nil
		} else if err != nil {
			return nil, nil, err
		}
		row := make([]interface{}, len(vals))
		for i, v := range vals {
			switch v := v.(type) {
			case []byte:
				row[i] = append([]byte{}, v...)
			default:
				row[i] = v
			}
		}
		rows = append(rows, row)
	}
}

// ---------------------------------------------------------------- pool

type conn struct {
	s        *store
	made     int64
	returned int64
}

// DB is a connection pool like that of database/sql.
type DB struct {
	dsn, driver        string
	idle               []*conn
	used               int
	maxOpen, maxIdle   int
	idleTime, lifetime int64
	closed             bool
}

func Open(driverName, dsn string) (*DB, error) {
	if driverName != "mysql" && driverName != "sqlite3" {
		return nil, fmt.Errorf("sql: unknown driver %q (forgotten import?)", driverName)
	}
	if f := W().fault("open", driverName); f != OK {
		return nil, ErrLost
	}
	W().Opened = append(W().Opened, dsn)
	return &DB{dsn: dsn, driver: driverName, maxIdle: 2}, nil
}

func (d *DB) SetMaxIdleConns(n int)                  { d.maxIdle = n }
func (d *DB) SetMaxOpenConns(n int)                  { d.maxOpen = n }
func (d *DB) SetConnMaxIdleTime(t time.Duration)     { d.idleTime = int64(t) }
func (d *DB) SetConnMaxLifetime(t time.Duration)     { d.lifetime = int64(t) }
func (d *DB) Stats() rsql.DBStats                    { return rsql.DBStats{InUse: d.used, Idle: len(d.idle)} }
func (d *DB) Ping() error                            { return d.do("exec", "ping", func(s *store) error { return nil }) }
func (d *DB) PingContext(ctx context.Context) error  { return d.Ping() }
func (d *DB) Close() error                           { d.closed = true; d.idle = nil; return nil }
func (d *DB) expired(c *conn, now int64) bool {
	return d.lifetime > 0 && now-c.made > d.lifetime || d.idleTime > 0 && now-c.returned > 2*d.idleTime
}

// take gets a connection, waiting if the limit is reached.
func (d *DB) take() (*conn, error) {
	for {
		if d.closed {
			return nil, errors.New("sql: database is closed")
		}
		now := mc.Now()
		for len(d.idle) > 0 {
			c := d.idle[0]
			d.idle = d.idle[1:]
			if !d.expired(c, now) {
				d.used++
				return c, nil
			}
		}
		if d.maxOpen <= 0 || d.used < d.maxOpen {
			d.used++
			c := &conn{made: now}
			if d.driver == "sqlite3" {
				c.s = newStore(false) // every connection to :memory: is a database of its own
			} else {
				w := W()
				srv, schema := d.dsn[strings.Index(d.dsn, "@")+1:], ""
				if i := strings.Index(srv, "/"); i >= 0 {
					srv, schema = srv[:i], strings.SplitN(srv[i+1:], "?", 2)[0]
				}
				if c.s = w.servers[srv+"/"+schema]; c.s == nil && schema == "" {
					c.s = w.server(srv, schema)
				}
				if c.s == nil {
					d.used--
					return nil, fmt.Errorf("Error 1049: Unknown database '%s'", schema)
				}
			}
			return c, nil
		}
		mc.Block("sql connection", func() bool { return d.closed || len(d.idle) > 0 || d.used < d.maxOpen })
	}
}

func (d *DB) give(c *conn) {
	d.used--
	if d.closed || len(d.idle) >= d.maxIdle {
		return
	}
	c.returned = mc.Now()
	d.idle = append(d.idle, c)
}

func (d *DB) do(kind, q string, f func(s *store) error) error {
	flt := W().fault(kind, q)
	if flt == Before {
		return ErrLost
	}
	c, err := d.take()
	if err != nil {
		return err
	}
	defer d.give(c)
	mc.Point("sql server")
	if err := f(c.s); err != nil {
		return err
	}
	if flt == After {
		return ErrLost
	}
	return nil
}

func (d *DB) Exec(q string, args ...interface{}) (res Result, err error) {
	err = d.do("exec", q, func(s *store) (err error) { res, err = s.exec(q, args); return })
	if err != nil {
		return nil, err
	}
	return res, nil
}

func (d *DB) ExecContext(ctx context.Context, q string, args ...interface{}) (Result, error) {
	return d.Exec(q, args...)
}

func (d *DB) Query(q string, args ...interface{}) (*Rows, error) {
	if W().fault("query", q) != OK {
		return nil, ErrLost
	}
	c, err := d.take()
	if err != nil {
		return nil, err
	}
	mc.Point("sql server")
	r, err := newRows(c.s, q, args, func() { d.give(c) })
	if err != nil {
		d.give(c)
	}
	return r, err
}

func (d *DB) QueryContext(ctx context.Context, q string, args ...interface{}) (*Rows, error) {
	return d.Query(q, args...)
}

func (d *DB) QueryRow(q string, args ...interface{}) *Row {
	r, err := d.Query(q, args...)
	return &Row{r, err}
}

func (d *DB) QueryRowContext(ctx context.Context, q string, args ...interface{}) *Row {
	return d.QueryRow(q, args...)
}

func (d *DB) Prepare(q string) (*Stmt, error) { return &Stmt{ex: d.Exec, qu: d.Query, q: q}, nil }
func (d *DB) PrepareContext(ctx context.Context, q string) (*Stmt, error) {
	return d.Prepare(q)
}

// Hold takes a connection for good, as the migration driver does.
func (d *DB) Hold() error { _, err := d.take(); return err }

type Result = rsql.Result

// ---------------------------------------------------------------- rows

type Rows struct {
	q      string
	cols   []string
	rows   [][]interface{}
	at     int
	err    error
	closed bool
	free   func()
}

func newRows(s *store, q string, args []interface{}, free func()) (*Rows, error) {
	cols, rows, err := s.query(q, args)
	if err != nil {
		return nil, err
	}
	if w := W(); len(rows) > 1 && !orderBy.MatchString(q) && w.Reverse != nil && w.Reverse(q, len(rows)) {
		for i, j := 0, len(rows)-1; i < j; i, j = i+1, j-1 {
			rows[i], rows[j] = rows[j], rows[i]
		}
	}
	W().Open++
	return &Rows{q: q, cols: cols, rows: rows, at: -1, free: free}, nil
}

func (r *Rows) Close() error {
	if !r.closed {
		r.closed = true
		W().Open--
		r.free()
	}
	return nil
}

func (r *Rows) Err() error                 { return r.err }
func (r *Rows) Columns() ([]string, error) { return r.cols, nil }
func (r *Rows) NextResultSet() bool        { r.Close(); return false }

func (r *Rows) Next() bool {
	if r.closed {
		return false
	}
	if w := W(); w.RowFault != nil && w.RowFault(r.q, r.at+1) {
		r.err = ErrLost
		r.Close()
		return false
	}
	r.at++
	if r.at >= len(r.rows) {
		r.Close()
		return false
	}
	return true
}

func (r *Rows) Scan(dest ...interface{}) error {
	if r.closed {
		return errors.New("sql: Rows are closed")
	}
	if r.at < 0 {
		return errors.New("sql: Scan called without calling Next")
	}
	row := r.rows[r.at]
	if len(dest) != len(row) {
		return fmt.Errorf("sql: expected %d destination arguments in Scan, not %d", len(row), len(dest))
	}
	for i := range dest {
		if err := assign(dest[i], row[i]); err != nil {
			return fmt.Errorf("sql: Scan error on column index %d, name %q: %v", i, r.cols[i], err)
		}
	}
	return nil
}

func text(v interface{}) string {
	switch v := v.(type) {
	case []byte:
		return string(v)
	case string:
		return v
	case time.Time:
		return v.Format(time.RFC3339Nano)
	}
	return fmt.Sprint(v)
}

func assign(dest, v interface{}) error {
	if s, ok := dest.(rsql.Scanner); ok {
		return s.Scan(v)
	}
	switch d := dest.(type) {
	case *interface{}:
		*d = v
		return nil
	case *[]byte:
		if v == nil {
			*d = nil
		} else {
			*d = []byte(text(v))
		}
		return nil
	case *rsql.RawBytes:
		*d = rsql.RawBytes(text(v))
		return nil
	}
	dv := reflect.ValueOf(dest)
	if dv.Kind() != reflect.Ptr {
		return errors.New("destination not a pointer")
	}
	dv = dv.Elem()
	if v == nil {
		if dv.Kind() == reflect.Ptr {
			dv.Set(reflect.Zero(dv.Type()))
			return nil
		}
		return fmt.Errorf("converting NULL to %s is unsupported", dv.Kind())
	}
	switch dv.Kind() {
	case reflect.Ptr:
		dv.Set(reflect.New(dv.Type().Elem()))
		return assign(dv.Interface(), v)
	case reflect.String:
		dv.SetString(text(v))
		return nil
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, err := strconv.ParseInt(text(v), 10, dv.Type().Bits())
		dv.SetInt(n)
		return err
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n, err := strconv.ParseUint(text(v), 10, dv.Type().Bits())
		dv.SetUint(n)
		return err
	case reflect.Bool:
		b, err := strconv.ParseBool(text(v))
		dv.SetBool(b)
		return err
	case reflect.Slice:
		if dv.Type().Elem().Kind() == reflect.Uint8 {
			dv.SetBytes([]byte(text(v)))
			return nil
		}
	}
	return fmt.Errorf("unsupported Scan, storing driver.Value type %T into type %T", v, dest)
}

type Row struct {
	r   *Rows
	err error
}

func (r *Row) Err() error { return r.err }
func (r *Row) Scan(dest ...interface{}) error {
	if r.err != nil {
		return r.err
	}
	defer r.r.Close()
	if !r.r.Next() {
		if err := r.r.Err(); err != nil {
			return err
		}
		return rsql.ErrNoRows
	}
	return r.r.Scan(dest...)
}

type Stmt struct {
	ex func(string, ...interface{}) (Result, error)
	qu func(string, ...interface{}) (*Rows, error)
	q  string
}

func (s *Stmt) Close() error                                    { return nil }
func (s *Stmt) Exec(args ...interface{}) (Result, error)        { return s.ex(s.q, args...) }
func (s *Stmt) Query(args ...interface{}) (*Rows, error)        { return s.qu(s.q, args...) }
func (s *Stmt) QueryRow(args ...interface{}) *Row               { r, err := s.qu(s.q, args...); return &Row{r, err} }

// ---------------------------------------------------------------- transactions

type Tx struct {
	d    *DB
	c    *conn
	done bool
}

func (d *DB) Begin() (*Tx, error) {
	if W().fault("exec", "BEGIN") == Before {
		return nil, ErrLost
	}
	c, err := d.take()
	if err != nil {
		return nil, err
	}
	if _, err := c.s.exec("BEGIN", nil); err != nil {
		d.give(c)
		return nil, err
	}
	return &Tx{d: d, c: c}, nil
}

func (d *DB) BeginTx(ctx context.Context, o *rsql.TxOptions) (*Tx, error) { return d.Begin() }

func (t *Tx) end(q string) error {
	if t.done {
		return rsql.ErrTxDone
	}
	t.done = true
	defer t.d.give(t.c)
	f := W().fault("exec", q)
	if f == Before {
		t.c.s.exec("ROLLBACK", nil)
		return ErrLost
	}
	_, err := t.c.s.exec(q, nil)
	if err == nil && f == After {
		return ErrLost
	}
	return err
}

func (t *Tx) Commit() error   { return t.end("COMMIT") }
func (t *Tx) Rollback() error { return t.end("ROLLBACK") }
func (t *Tx) Exec(q string, args ...interface{}) (Result, error) {
	if t.done {
		return nil, rsql.ErrTxDone
	}
	f := W().fault("exec", q)
	if f == Before {
		return nil, ErrLost
	}
	r, err := t.c.s.exec(q, args)
	if err == nil && f == After {
		return nil, ErrLost
	}
	return r, err
}
func (t *Tx) ExecContext(ctx context.Context, q string, args ...interface{}) (Result, error) {
	return t.Exec(q, args...)
}
func (t *Tx) Query(q string, args ...interface{}) (*Rows, error) {
	if t.done {
		return nil, rsql.ErrTxDone
	}
	if W().fault("query", q) != OK {
		return nil, ErrLost
	}
	return newRows(t.c.s, q, args, func() {})
}
func (t *Tx) QueryContext(ctx context.Context, q string, args ...interface{}) (*Rows, error) {
	return t.Query(q, args...)
}
func (t *Tx) QueryRow(q string, args ...interface{}) *Row {
	r, err := t.Query(q, args...)
	return &Row{r, err}
}
func (t *Tx) Prepare(q string) (*Stmt, error) { return &Stmt{ex: t.Exec, qu: t.Query, q: q}, nil }
