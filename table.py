"""What each property's check runs. Read by check and by tools/manifest.py.

builds: plain (as users build it), race (race detector on), sched (instrumented copies of the
library's files laid over the originals at build time, so that generated schedules decide where
goroutines are preempted). scale multiplies the number of quick cases per build.
"""

TABLE = {}

TRUST = "Trusts the Go toolchain, rapid and the oracle in harness/props; sampled, so absence of a violation is no proof."


def add(pid, technique, note, builds=("plain",), scale=None, **kw):
    s = scale or {}
    if isinstance(s, int):
        s = {b: s for b in builds}
    TABLE[pid] = dict(builds=list(builds), technique=technique, note=note + " " + TRUST, scale=s, **kw)


ALL = ("plain", "race", "sched")

add("C01", "property-based testing with structured input generators against a reference sort and a permutation/stability oracle",
    "Every exported sort routine and predicate on generated slices of every element kind, sizes across the algorithm's thresholds, adversarial patterns; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 10})
add("C02", "property-based testing against a linear-scan oracle", "Every exported search on sorted slices with duplicates, targets below, inside and above; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 15})
add("C03", "property-based differential testing (round trip both ways against crypto/aes, crypto/cipher)", "Keys and data of generated lengths up to megabytes, both directions, histories through reused buffers, concurrent calls.", builds=("plain", "race"), scale={"plain": 4})
add("C04", "mutation-based fuzzing of valid ciphertexts against an accept/reject oracle", "Single and multiple alterations, all single-bit flips of small messages, splices, other keys.", scale=6)
add("C05", "generated malformed inputs against an error-not-panic oracle with independent decryption of the well-formed ones", "Lengths and alignments around every boundary, in every mode.", scale=6)
add("C06", "metamorphic and statistical property testing over generated histories (repeat-call inequality, per-bit variation)", "Repeated calls with equal arguments, concurrent calls; also runs a whole process more than once.")
add("C07", "property-based differential testing against golang.org/x/crypto/bcrypt with an independent key derivation", "Passwords of any length through hashing and verification, cheap costs, concurrent verifications.", builds=("plain", "race"))
add("C08", "property-based testing (verify after hash, other password refused) over all levels", "Argon2 at its real cost, so few hundred cases; concurrent calls.", builds=("plain", "race"))
add("C09", "structured fuzzing of stored hashes against an independent Argon2 verifier", "Arbitrary bytes, arbitrary text and single alterations of valid hashes.")
add("C10", "property-based differential testing of the stored format against an independent encoder/decoder", "Independent Argon2id computation with the documented parameters; fixed stored hashes.")
add("C11", "stateful model-based property testing (deque against an ideal sequence)", "Operation histories crossing block boundaries; drained and refilled; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 8})
add("C12", "stateful model-based property testing (list against an ideal sequence)", "Operation histories with every position class, both implementations; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 20})
add("C13", "stateful model-based property testing (queue against an ideal FIFO)", "Operation histories with drain/refill cycles; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 20})
add("C14", "stateful model-based property testing (bounded queue against an ideal FIFO)", "Capacities and histories with wrap-arounds; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 20})
add("C15", "stateful model-based property testing (stacks against an ideal LIFO)", "Operation histories with empty/refill cycles; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 20})
add("C16", "stateful model-based property testing (slice edits against an ideal sequence)", "Edit histories with valid positions; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 12})
add("C17", "property-based testing with boundary integers against a clamping model", "Positions from the smallest to the largest integer; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 12})
add("C18", "property-based testing (partition invariants)", "Sizes including zero, huge and overflowing sums; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 12})
add("C19", "metamorphic property testing with guarded backing arrays (canaries behind every slice)", "Copies, arguments with spare capacity, views of the slice itself; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 8})
add("C20", "property-based testing against direct definitions and algebraic laws", "Whole-slice operations and their compositions; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 8})
add("C21", "stateful model-based property testing (skip list against an ideal sorted map)", "Histories over several key types and sizes into the ten thousands; separate maps in separate goroutines.", builds=("plain", "race"), scale={"plain": 4})
add("C22", "stateful model-based property testing of iterators interleaved with edits", "Several iterators over one map, seeks, exhaustion; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 10})
add("C23", "stateful model-based property testing (ordered map against an ideal sorted map)", "Histories with overwrites, deletes, clears, early stops; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 10})
add("C24", "linearizability checking (porcupine) of generated histories under generated schedules, plus the race detector", "Concurrent histories on real threads, under the race detector and under drawn preemption schedules.", builds=ALL, scale=3)
add("C25", "stateful model-based property testing (bit set against an ideal set)", "All widths, repeated positions; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 6})
add("C26", "generated concurrent histories under drawn schedules with a construction-count and happens-before oracle", "Real threads, race detector and drawn schedules.", builds=ALL, scale={"plain": 4})
add("C27", "property-based testing with recording handlers", "Handlers of every result arity, nil values and errors; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 4})
add("C28", "stateful model-based property testing (decoupler against an ideal bounded FIFO) with a hang watchdog", "Single-goroutine histories, buffers reused by the caller; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 8})
add("C29", "generated concurrent histories under drawn schedules against a delivery/drop oracle, plus the race detector", "Writers and one reader; virtual time makes schedules deterministic.", builds=ALL, scale=4)
add("C30", "property-based testing with injected failures and panics, runners used inside their own functions and from several goroutines under drawn schedules", "Closers that fail, functions that panic.", builds=ALL, scale={"plain": 8, "race": 2, "sched": 2})
add("C31", "property-based testing with injected failures, generated concurrent appends", "Failing closers, wrapped errors, concurrent append under schedules.", builds=ALL, scale={"plain": 3, "race": 2, "sched": 2})
add("C32", "process-level generated signal sequences against an exactly-once oracle", "A child process per case receives generated signals; only the check's own child is signalled.", scale=4)
add("C33", "generated concurrent histories under drawn schedules with an exactly-once oracle, plus the race detector", "Submissions, blocking handlers, idle periods, stops.", builds=ALL, scale=2)
add("C34", "generated concurrent histories under drawn schedules with a limit invariant and a saturation oracle", "Goroutine counts and running handlers compared to the configured maximum.", builds=ALL, scale=3)
add("C35", "generated histories in virtual time with a retirement-time oracle", "Idle timeouts and collection periods drawn, virtual clock, goroutine census.", builds=ALL)
add("C36", "generated concurrent histories under drawn schedules with a mutual-exclusion oracle, plus the race detector", "Several variables, equal values, nesting.", builds=ALL, scale={"plain": 1, "race": 3, "sched": 3})
add("C37", "generated concurrent histories under drawn schedules with an ownership oracle, plus the race detector", "Objects identified by construction number.", builds=ALL, scale={"plain": 4, "race": 3, "sched": 3})
add("C38", "generated histories in virtual time with an exact-deadline oracle, plus the race detector", "Sleeps, wake-ups and second sleepers at drawn virtual instants.", builds=ALL, scale=3)
add("C39", "property-based differential testing against an independent calendar", "Instants across many centuries and around every unit boundary; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 2})
add("C40", "property-based differential testing against independent arithmetic and virtual time", "Seconds and nanoseconds over their whole range.", scale=2)
add("C41", "property-based testing against a brute-force oracle, plus permutation and shift relations", "Interval sets with ties, nesting, disjoint groups; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 3})
add("C42", "property-based differential testing against Go conversions and an independent decimal reader/writer", "Every pair of built-in types with boundary values; several goroutines with instances of their own under the race detector.", builds=("plain", "race"), scale={"plain": 2})
add("C43", "stateful model-based property testing (registry against an ideal table)", "Registrations and removals over many named types.", scale=3)
add("C44", "generated concurrent histories under drawn schedules with a consistency oracle, nesting converters, plus the race detector", "Real threads, race detector and drawn schedules; hang watchdog.", builds=ALL, scale=3)
add("C45", "process-level generated directory trees with a recording stand-in for the Go tool", "The commands run with a PATH holding only the stand-in, inside a scratch tree.", scale=3)
