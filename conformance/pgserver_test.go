package h

import (
	"testing"

	"github.com/stretchr/testify/require"

	"github.com/inklabs/rangedb"
	"github.com/inklabs/rangedb/pkg/clock"
	"github.com/inklabs/rangedb/pkg/shortuuid"
	"github.com/inklabs/rangedb/provider/postgresstore"
	"github.com/inklabs/rangedb/rangedbtest"
)

// The stand-in for PostgreSQL has to pass the repository's own test of stores
// on PostgreSQL.
func TestPgServerConforms(t *testing.T) {
	for _, kind := range []string{"pg", "pg-notify"} {
		t.Run(kind, func(t *testing.T) {
			verifier := rangedbtest.NewStoreVerifier(rangedbtest.GSNStyleExact)
			verifier.Verify(t, func(t *testing.T, clock clock.Clock, uuidGenerator shortuuid.Generator) rangedb.Store {
				srv := newPgServer(nil)
				opts := []postgresstore.Option{postgresstore.WithClock(clock), postgresstore.WithUUIDGenerator(uuidGenerator)}
				if kind == "pg-notify" {
					opts = append(opts, postgresstore.WithPgNotify())
				}
				store, err := postgresstore.New(pgConfig, opts...)
				require.NoError(t, err)
				rangedbtest.BindEvents(store)
				require.NoError(t, store.InitDB())
				t.Cleanup(func() {
					require.NoError(t, store.CloseDB())
					srv.close()
				})
				return store
			})
		})
	}
}
