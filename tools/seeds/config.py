M="cmd/ratus/main.go"; MG="internal/engine/mongodb/mongodb.go"; MD="internal/engine/memdb/memdb.go"; CF="internal/config/config.go"
def demo(body):
    return '''package main

import (
	"os"
	"testing"

	"github.com/alexflint/go-arg"
)

func parse(t *testing.T, env map[string]string, flags ...string) (a args) {
	for k, v := range env {
		t.Setenv(k, v)
	}
	os.Args = append([]string{"ratus"}, flags...)
	p, err := arg.NewParser(arg.Config{}, &a)
	if err != nil {
		t.Fatal(err)
	}
	if err := p.Parse(flags); err != nil {
		t.Fatal(err)
	}
	return a
}

func TestDemo(t *testing.T) {
''' + body + "}\n"

seed("memdb-retention-from-mongodb-variable", "C38", [(MD, "env:MEMDB_RETENTION_PERIOD", "env:MONGODB_RETENTION_PERIOD")], "cmd/ratus", demo('''	a := parse(t, map[string]string{"MEMDB_RETENTION_PERIOD": "1h"})
	if a.memdbConfig.RetentionPeriod.Hours() != 1 {
		t.Fatal(a.memdbConfig.RetentionPeriod)
	}
'''), "An instance configured through environment variables.", "The retention period of the in-memory engine cannot be set through the environment, and follows that of the other engine.")

seed("atomic-poll-variable-on-other-option", "C38", [(MG, "--mongodb-disable-auto-fallback,env:MONGODB_DISABLE_AUTO_FALLBACK", "--mongodb-disable-auto-fallback,env:MONGODB_DISABLE_ATOMIC_POLL"), (MG, "--mongodb-disable-atomic-poll,env:MONGODB_DISABLE_ATOMIC_POLL", "--mongodb-disable-atomic-poll,env:MONGODB_DISABLE_AUTO_FALLBACK")], "cmd/ratus", demo('''	a := parse(t, map[string]string{"MONGODB_DISABLE_ATOMIC_POLL": "true"})
	if !a.DisableAtomicPoll || a.DisableAutoFallback {
		t.Fatal("MONGODB_DISABLE_ATOMIC_POLL does not disable atomic polling")
	}
'''), "The environment variable recommended for recent MongoDB servers.", "Atomic polling stays enabled, and fallbacks are disabled instead.")

seed("snapshots-by-default", "C38", [(MD, '''help:"path to the snapshot file" default:""`''', '''help:"path to the snapshot file" default:"ratus.db"`''')], "cmd/ratus", demo('''	if a := parse(t, nil); a.SnapshotPath != "" {
		t.Fatal("the engine is not ephemeral by default:", a.SnapshotPath)
	}
'''), "An instance without any options.", "The engine is documented to be ephemeral by default, but writes a file and restores old tasks from it.")
