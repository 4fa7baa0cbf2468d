LIST = "A list model of the store (`Model` in mc/h): records in append order, one counter per stream and one global; each operation's result and, after each step, every read view from every start, all counts and the records of watching subscriptions are compared field by field."
LIN = "Complete histories (call and return order of every operation, results, and each read's records) are checked for linearizability against the list model by exhaustive search; at quiescence no thread may be blocked and the final contents must match."
SUB = "The records a subscription delivered, compared with the records the store finally holds and with the call/return order of the saves: no gap, no repetition, increasing numbers, right types; blocked goroutines and leaks at quiescence are reported."
ORACLE.update({
 "C01": LIST + " A rejected save must leave the model, and everything observable, unchanged.",
 "C02": LIN, "C03": LIST + " Numbers are additionally kept in a set over the whole execution, across reopening, so that no number is ever given twice.",
 "C04": LIST + " The three views are also compared with each other.",
 "C05": LIST + " The alphabet of names is chosen from prefixes, separators, the LevelDB key syntax and empty names.",
 "C06": LIST, "C07": LIN,
 "C08": "Every operation of every thread has returned when nothing can run any more (the scheduler knows every blocked goroutine and what it waits for), no panic, and the store still accepts a save and a read afterwards.",
 "C09": "An iterator that stopped before the model's last matching record must hold an error, must stay stopped, must not produce records afterwards, and after cancellation no goroutine of the read is left.",
 "C10": SUB, "C11": SUB, "C12": SUB + " Writers and other subscribers have to finish and stay complete whatever one subscriber does.",
 "C13": "After the crash the store is opened from what the device kept; its contents must equal the model after the acknowledged operations, or after those plus the operation in flight, in all views; then a further save has to get the next number.",
 "C14": "As C13, with the result of the faulted operation: an acknowledged operation must be there, a failed one wholly or not at all, a read is complete or reports an error.",
 "C15": "The merge of the inputs' numbers sorted, or a prefix of it with the error of a failing input.",
 "C16": "Field-by-field equality with what was written (Go types for bound events, generic values for others), and for damaged or cut streams: the records read are a prefix and an error is reported unless the stream is complete; a failing writer is reported.",
 "C17": LIST + " Reads, errors and subscriptions are compared with those of the store behind the server; concurrent histories are checked for linearizability.",
 "C18": "The list model and the direct store: each response's records are parsed from each format and compared, status and body against the operation's outcome; after each request the contents must be exactly those of the model.",
 "C19": SUB + " Clients stall, disconnect and break; the server's subscriptions must be gone afterwards.",
 "C20": "The list model holding plaintext events for what users see; every byte kept by the parent store, its serialized form and what its subscribers got is searched for each marked plaintext.",
 "C21": "After the acknowledged deletion of a subject's key no lookup, decryption or read through any of the layers gives that key or plaintext, other subjects are unaffected; histories are checked against the key state machine.",
 "C22": "Decrypt(Encrypt(x)) = x; anything else gives an error (or, for CBC, bytes), never a panic; authenticated ciphers reject each modified text; two encryptions differ.",
 "C23": "The state machine unset -> set(k) -> deleted per subject; concurrent histories are linearizable with respect to it (brute force over orders), and all callers' ciphertexts of a first-encryption race decrypt with the stored key.",
 "C24": "The fold of the events in a plain map; projections restored from each snapshot and resumed; interrupted saves leave the old or the new snapshot; each truncated or foreign file is refused or equals a fold at some point.",
 "C25": "A list model of the dispatcher: for every command the events the handler produced, which of them were stored, in which stream, and the aggregate's loaded history.",
 "C26": "The set of positions partitioned into pages; pages walked by next links and back by previous links; clamping table for parameters; ReadN against min(N, available) and no goroutine left.",
 "C27": "The two numbers put in have to come out; any text not made by the error type has to stay an ordinary error.",
 "C30": "The declaration itself: the generated package is compiled together with a driver that calls each generated method and compares with the declared values, encrypts/decrypts with a recording engine, makes each encryption call fail and folds events through generated aggregates.",
 "C31": "The list model for records and totals; each page is parsed by an HTML parser and its element/attribute/script structure must equal that of the same page with harmless text, stored text must appear as text nodes; links are followed through the handler. The live feeds (a websocket over a pipe) must deliver the type's events from the last one the statistics had, each with the true count, and the list of types must end with the true counts, for saves at every moment.",
})
ORACLE["C28"] = LIST + " Concurrent histories are checked for linearizability; a first read must be a prefix of a later one; what a subscription received must equal what is stored; a failed statement must leave the model's contents (or, if the connection was lost after executing, the operation's whole effect); no transaction, connection or goroutine may be left."
COST.update({"C28": 70, "C23": 60})
ORACLE["C32"] = "A list of records kept by the driver (mc/e2e): responses, every read in every format, list-aggregate-types and its links, all pages reachable by links (each event on its stream's and type's page, none of a deleted or refused one), what websocket and gRPC subscriptions and the subscriber program received, the exit status after an interrupt. The programs are built without instrumentation."
COST["C32"] = 80
