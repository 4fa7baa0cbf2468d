CONC = "stateless model checking of the real code: all thread interleavings, select orders and timer firings up to the preemption bound"
CONCNOTE = "every schedule within the stated deviation bound of the listed small scenarios is executed on the real code under a controlled scheduler; assumes sequentially consistent memory and that goleveldb's own goroutines behave as documented"
CLAIMED.update({
 "C02": (CONC + "; every complete history checked for linearizability", "model_checking", CONCNOTE),
 "C07": (CONC + "; every complete history checked for linearizability", "model_checking", CONCNOTE),
 "C08": (CONC + "; deadlock and unfinished-thread detection at quiescence", "model_checking", CONCNOTE),
 "C10": (CONC + "; delivered records compared with the stored records", "model_checking", CONCNOTE),
 "C11": (CONC + "; delivered records compared with real-time order of saves", "model_checking", CONCNOTE),
 "C12": (CONC + "; with slow, blocked, stopped and cancelled subscribers and leak detection", "model_checking", CONCNOTE),
})
SEQNOTE = "every operation sequence up to the stated depth over the listed alphabet is executed on the real code; beyond the depth and alphabet nothing is claimed"
CLAIMED.update({
 "C09": ("explicit enumeration on the real code: every consumer/failure behaviour script up to a bound for every reader, plus all interleavings up to a preemption bound", "model_checking", CONCNOTE),
 "C15": ("explicit enumeration on the real code: every partition of records over inputs with every failure and consumption behaviour, plus all interleavings up to a preemption bound", "model_checking", CONCNOTE),
 "C13": ("explicit enumeration on the real code: every operation sequence to a depth, a crash before every device operation, every pattern of lost unsynced bytes, also a second crash during recovery", "model_checking", "the device model is append-only files with fsync and an atomic current pointer, as goleveldb's storage interface has it; torn writes lose a suffix of unsynced bytes of any file"),
 "C14": ("explicit enumeration on the real code: every operation sequence to a depth, every single device operation of a following operation failing in every mode", "model_checking", "single storage faults, once, half-written, or persistent for one operation"),
})
CLAIMED.update({
 "C22": ("explicit enumeration on the real code: every text length, key length, single-byte change, truncation and extension within bounds, through every cipher", "model_checking", "inputs are enumerated within the stated lengths; the random reader is a fixed stream"),
})
CLAIMED.update({
 "C21": (CONC + "; plus every operation sequence to a depth with every single failing call of either cache layer", "model_checking", CONCNOTE),
 "C23": (CONC + ", with brute-force linearizability against the key state machine; plus every operation sequence to a depth", "model_checking", CONCNOTE + "; DynamoDB, Vault and PostgreSQL are in-process stand-ins for the requests the key stores send"),
})
CLAIMED.update({
 "C20": ("explicit enumeration on the real code: every sequence of saves, failures with retries and deletes to a depth compared with a plain model, plus all interleavings of savers, readers and subscribers up to a preemption bound", "model_checking", CONCNOTE),
})
CLAIMED.update({
 "C16": ("explicit enumeration on the real code: the product of per-field value alphabets through every format; every cut, byte change, read chunking, read failure and write failure position of short streams", "model_checking", "inputs, stream lengths and damage are enumerated within the stated bounds; strings are valid UTF-8"),
})
CLAIMED.update({
 "C17": ("explicit enumeration on the real client, server and gRPC stack in one process: every operation sequence to a depth, every failing read position, plus all interleavings of clients, handlers and writers up to a preemption bound", "model_checking", CONCNOTE + "; the gRPC library's own goroutines run in one fixed order"),
})
CLAIMED.update({
 "C19": (CONC + ", with clients that stall, break and disconnect; received records compared with the stored records", "model_checking", CONCNOTE + "; connections are in-process"),
})
CLAIMED.update({
 "C18": ("explicit enumeration on the real API handler: every operation sequence to a depth through HTTP, every prefix and single-character change of request bodies, every failing read position, plus interleavings of conflicting requests", "model_checking", SEQNOTE + "; net/http itself is not explored"),
})
CLAIMED.update({
 "C26": ("explicit enumeration on the real code: every set of positions and page size within bounds, every page reachable by links from every start, through the link builder and the web UI", "model_checking", SEQNOTE + "; pages are reached through the UI's handler and an HTML parser"),
 "C27": ("explicit enumeration on the real code: all pairs from a boundary alphabet of 64-bit values, in every wrapping, through the parser, gRPC and HTTP", "model_checking", SEQNOTE),
 "C31": ("explicit enumeration on the real handler: every text of a markup alphabet in every field on every page, every save sequence to a depth, every failing read position; pages are parsed as a browser does; every interleaving, up to a preemption bound, of saves with the websocket feeds of the live pages", "model_checking", SEQNOTE + "; Vue is assumed to interpret ${...} only in the mounted element outside v-pre"),
})
CLAIMED.update({
 "C24": ("explicit enumeration on the real code: every event sequence to a length with a snapshot at every cut, every truncation of snapshots, a crash at every statement and written piece of a save, every sequence of saves, deletions and API restarts to a depth, plus all interleavings of events, snapshots and reads up to a preemption bound", "model_checking", CONCNOTE),
 "C25": ("explicit enumeration on the real dispatcher and stores: every command sequence to a depth with every handler outcome and failing save, compared with a list model; the example application's command sequences compared with a model of its aggregates", "model_checking", SEQNOTE),
})
CLAIMED.update({
 "C30": ("explicit enumeration of programs: every declaration of a grammar to a size, generated, compiled and run against the declaration's meaning, with every failing encryption call", "model_checking", "every declaration within the grammar and bounds is generated, compiled with the installed Go toolchain and run; assumes the toolchain is correct"),
})
CLAIMED.update({
 "C28": ("explicit enumeration on the real store, database/sql and lib/pq over an in-process PostgreSQL server: every operation sequence to a depth, every statement failing in every way, plus all interleavings of clients' statements up to a preemption bound with linearizability and subscription oracles", "model_checking", "the server is a stand-in (SQL parser, multi-version rows, locks, notifications) that passes the repository's own store test suite; goroutines of lib/pq and database/sql run in one fixed order"),
})

NA["C29"] = "the provider (marked experimental by the repository) is a thin client of an external EventStoreDB server; none can run here, and a model checker would explore a stand-in for that server's undocumented ordering, projection and deletion behaviour rather than the code: nothing would bind such a model to the real server offline"
CLAIMED.update({
 "C32": ("explicit enumeration on the real programs: every sequence of requests, interrupts, kills, restarts and cut connections to a depth, each run against the server program over loopback and compared with a model", "model_checking", SEQNOTE + "; scheduling inside the programs is left to the system"),
})
