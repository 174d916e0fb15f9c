M="cmd/ratus/main.go"; MG="internal/engine/mongodb/mongodb.go"; MD="internal/engine/memdb/memdb.go"; CF="internal/config/config.go"
A=["C38"]
def bug(n,f,a,b,ids=A): return (n,"bug",ids,[(f,a,b)])
def bugs(n,ids,*e): return (n,"bug",ids,list(e))
def same(n,*e): return (n,"same",["C38","C25","C26","C17","C12","C07","C15","C16"],list(e))
MUT=[
 bug("env of other engine",MD,"env:MEMDB_RETENTION_PERIOD","env:MONGODB_RETENTION_PERIOD"),
 bug("env missing",CF,"--chore-interval,env:CHORE_INTERVAL","--chore-interval"),
 bug("env default name",CF,"--chore-initial-random,env:CHORE_INITIAL_RANDOM","--chore-initial-random,env"),
 bug("env typo",MG,"env:MONGODB_DISABLE_INDEX_CREATION","env:MONGODB_DISABLE_INDEX_CREATIONS"),
 bug("short shared",CF,'arg:"-b,--bind','arg:"-p,--bind'),
 bug("short help",CF,'arg:"-b,--bind','arg:"-h,--bind'),
 bug("flag renamed",MG,"--mongodb-collection,","--mongodb-col,"),
 bug("required",MG,"--mongodb-uri,env","required,--mongodb-uri,env"),
 bug("positional",M,"--engine,env","positional,--engine,env"),
 bug("default engine",M,'default:"memdb"','default:"mongodb"'),
 bug("default port",CF,'default:"80"','default:"8080"'),
 bug("default interval off",CF,'default:"10s"','default:"0s"'),
 bug("default bind local",CF,'default:"0.0.0.0"','default:"127.0.0.1"'),
 bug("default not a duration",MD,'default:"5m"','default:"5"'),
 bug("default not bool",MG,'help:"disable atomic polling and fallback to optimistic locking"`','help:"disable atomic polling and fallback to optimistic locking" default:"no"`'),
 bug("atomic poll off",MG,'help:"disable atomic polling and fallback to optimistic locking"`','help:"disable atomic polling and fallback to optimistic locking" default:"true"`'),
 bug("snapshots by default",MD,'help:"path to the snapshot file" default:""`','help:"path to the snapshot file" default:"ratus.db"`'),
 bug("chore config not embedded",M,"\tconfig.ChoreConfig\n","\tconfig.ChoreConfig `arg:\"-\"`\n"),
 bug("pointer embedded",CF,'MaxLimit  int `arg:"--pagination-max-limit','maxLimit2 int `arg:"--pagination-max-offsets,env:PAGINATION_MAX_OFFSETS"`\n\tMaxLimit  int `arg:"--pagination-max-limit'),
 bugs("flags swapped",["C38","C15","C16"],(MG,"--mongodb-disable-auto-fallback,env:MONGODB_DISABLE_AUTO_FALLBACK","--mongodb-disable-atomic-poll,env:MONGODB_DISABLE_ATOMIC_POLL"),(MG,'DisableAtomicPoll    bool `arg:"--mongodb-disable-atomic-poll,env:MONGODB_DISABLE_ATOMIC_POLL"','DisableAtomicPoll    bool `arg:"--mongodb-disable-auto-fallback,env:MONGODB_DISABLE_AUTO_FALLBACK"')),
 bugs("uri database swapped",["C16"],(MG,'URI        string `arg:"--mongodb-uri,env:MONGODB_URI"','URI        string `arg:"--mongodb-collection,env:MONGODB_COLLECTION"'),(MG,'Collection string `arg:"--mongodb-collection,env:MONGODB_COLLECTION"','Collection string `arg:"--mongodb-uri,env:MONGODB_URI"')),
 bugs("interval and retention swapped",["C07","C12"],(MD,'SnapshotInterval time.Duration `arg:"--memdb-snapshot-interval,env:MEMDB_SNAPSHOT_INTERVAL"','SnapshotInterval time.Duration `arg:"--memdb-retention-period,env:MEMDB_RETENTION_PERIOD"'),(MD,'RetentionPeriod time.Duration `arg:"--memdb-retention-period,env:MEMDB_RETENTION_PERIOD"','RetentionPeriod time.Duration `arg:"--memdb-snapshot-interval,env:MEMDB_SNAPSHOT_INTERVAL"')),
 same("rename fields",(CF,"Port uint","Listen uint"),(M,"a.ServerConfig.Port","a.ServerConfig.Listen")) if 0 else same("reorder",(M,"\tconfig.ServerConfig\n\tconfig.ChoreConfig\n","\tconfig.ChoreConfig\n\tconfig.ServerConfig\n")),
 same("new option",(CF,'MaxLimit  int `arg:"--pagination-max-limit','Extra int `arg:"--pagination-extra,env:PAGINATION_EXTRA" default:"3"`\n\tMaxLimit  int `arg:"--pagination-max-limit')),
 same("longer default",(CF,'default:"10s"','default:"15s"')),
 same("rename snapshot path",(MD,"SnapshotPath ","Path ")) if 0 else same("help text",(CF,"port on which to listen","TCP port on which to listen")),
]
