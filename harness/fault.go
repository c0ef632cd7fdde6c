package main

import (
	"database/sql"
	"database/sql/driver"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/liliang-cn/cortexdb/v2/pkg/core"
	sqlite "modernc.org/sqlite"
)

// Fault points: a trigger calls verif_point('key'), which runs the registered action inside the
// statement that fired the trigger.
var (
	points   sync.Map // key -> func() error
	pointSeq atomic.Int64
)

func init() {
	sqlite.MustRegisterScalarFunction("verif_point", 1, func(ctx *sqlite.FunctionContext, args []driver.Value) (driver.Value, error) {
		k, _ := args[0].(string)
		if f, ok := points.Load(k); ok {
			if err := f.(func() error)(); err != nil {
				return nil, err
			}
		}
		return int64(0), nil
	})
}

// sqlQuote makes an SQL string literal.
func sqlQuote(s string) string { return "'" + strings.ReplaceAll(s, "'", "''") + "'" }

// arm installs a trigger that runs action at a point; the result removes it.
// when is e.g. "BEFORE INSERT ON embeddings", cond e.g. "new.id = 'x'" or "".
func arm(db *sql.DB, when, cond string, action func() error) (func(), error) {
	key := fmt.Sprintf("p%d", pointSeq.Add(1))
	name := "zzverif_" + key
	if cond != "" {
		cond = " WHEN " + cond
	}
	points.Store(key, action)
	if _, err := db.Exec("CREATE TRIGGER " + name + " " + when + cond + " BEGIN SELECT verif_point('" + key + "'); END"); err != nil {
		return nil, err
	}
	return func() {
		db.Exec("DROP TRIGGER IF EXISTS " + name)
		points.Delete(key)
	}, nil
}

// armRaise installs a trigger that fails with RAISE(kind).
func armRaise(db *sql.DB, when, cond, kind string) (func(), error) {
	name := fmt.Sprintf("zzverif_r%d", pointSeq.Add(1))
	if cond != "" {
		cond = " WHEN " + cond
	}
	if _, err := db.Exec("CREATE TRIGGER " + name + " " + when + cond + " BEGIN SELECT RAISE(" + kind + ", 'injected fault'); END"); err != nil {
		return nil, err
	}
	return func() { db.Exec("DROP TRIGGER IF EXISTS " + name) }, nil
}

// idle checks that no connection is in use, so no transaction, statement or result set was left
// open by the operations that have returned. A rollback after a cancellation runs in the
// background, hence the waiting.
func idle(c *Case, db *sql.DB, op string) {
	for i := 0; db.Stats().InUse > 0; i++ {
		if i > 3000 {
			c.Fail("left-open:"+op, "%d database connections are still in use after %s: a transaction or result set was left open", db.Stats().InUse, op)
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Count("idle_checks", 1)
}

func idleStore(c *Case, s core.Store) {
	if x, ok := s.(interface{ GetDB() *sql.DB }); ok {
		idle(c, x.GetDB(), "the operations of this case")
	}
}
