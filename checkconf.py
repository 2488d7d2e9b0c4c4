# What each property's check runs. Read by ./check and mkmanifest.py.
STUBS = [
    'Go scheduler: replaced by a seeded scheduler that may switch tasks at every statement of the code under test',
    'sync, sync/atomic ordering, channels, select, context, time: re-implemented on simulated tasks and a virtual clock',
    'os, syscall, path/filepath, io/ioutil: an in-memory file system with faults (file contents live in real shared memory mappings)',
    'net, os/signal: an in-memory network and signal delivery; net/http server loop re-implemented (request parsing is the real one)',
    'crypto/rand, math/rand: functions of the seed',
]
ASSUME = [
    'a process crash keeps every completed store to a mapped file and every completed file system call (kill -9, not power loss)',
    'sequentially consistent memory between statements; torn stores inside one statement only where a crash is injected (C19 covers unsynchronised access)',
    'the simulated file system, network and scheduler behave as Linux and the Go runtime allow',
]
_FS_REAL = ['database/files (all of it: metric, file, record, file cache, lock pool, queue and workers, listing)', 'gzipless data files mapped into real memory', 'internal packages it uses']
def _s1(what, **kw):
    d = dict(bin='s1', scenarios='s1', what=what, real=_FS_REAL, quick=80, thorough=600,
             state='hash of the whole simulated disk and of the stored values at the end of the run')
    d.update(kw)
    return d
def _s2(what, **kw):
    d = dict(bin='s2', scenarios='s2', what=what, real=['data (writer, page, aggregation)', 'dist/tdigest and github.com/zeebo/tdigest (not instrumented)', 'a second distribution supplied by the harness that keeps every value'], quick=60, thorough=600,
             state='hash of all records delivered')
    d.update(kw)
    return d
def _s7(what, **kw):
    d = dict(bin='s7', scenarios='s7', what=what, real=['api, api/query', 'merge, data/load, draw and the drawing packages (not instrumented for scheduling where they are pure)', 'database/files', 'net/http request parsing and responses, encoding/json, image/png (standard library)'], quick=60, thorough=600,
             state='hash of every request, status and response length in order')
    d.update(kw)
    return d
_S5_REAL = ['the whole program from rothko.Main to its exit: cli, config, registry, run.go, internal/junk', 'listener/graphite, data, dump, database/files, api', 'dist/tdigest (through a wrapper that keeps every value a centroid)', 'BurntSushi/toml, net/http request parsing (not instrumented)']
def _s5(what, **kw):
    d = dict(bin='s5', scenarios='s5', what=what, real=_S5_REAL, quick=100, thorough=900,
             state='hash of everything stored, how every start of the program ended, and the simulated disk', assume=['adds that overlap a capture may be lost (documented in the code)'])
    d.update(kw)
    return d
def _s8(what, real, state, **kw):
    d = dict(bin='s8', scenarios='s8', what=what, real=real, quick=50, thorough=400, state=state)
    d.update(kw)
    return d
CONF = {
    'C19': dict(bin='s1 s5 s2 s7 s3 s8 s4 s6', scenarios='s1 s2 s3 s4 s5 s6 s7 s8', race=True, quick=120, thorough=900,
        what='the plans of all scenarios (database; writer; dumper; graphite listener; launcher; API; whole program; registry and site), run with the race detector watching the code under test: the simulator gives it exactly the happens-before edges of the synchronisation operations that were executed',
        real=['everything the other checks run, built with race instrumentation'],
        state='as in the scenarios', assume=['the race detector of the Go toolchain; accesses to mapped files are outside its view', 'races are judged on the interleavings that were run, by happens-before']),
    'C15': _s5('the program is started on one directory again and again, fed over the network by several clients, queried over its API, and interrupted at any moment (once or twice); services fail at start-up or later (no such database, distribution, occupied address, failing accept); some starts are killed'),
    'C16': _s5('as C15, but most starts end in a kill before any statement, in the middle of one, at a system call or in a database callback; the clock jumps forward between starts'),
    'C20': _s5('the program runs over storage that fails for a while (errors of every system call, full disk, descriptor and mapping limits, operations that take minutes) and then works again, is fed and queried meanwhile and afterwards, interrupted, killed and restarted'),
    'C25': _s5('the program is interrupted while its API answers requests: over a database that takes up to hours, to clients that read at once, slowly or never, disconnect, or are idle on their connection', quick=50, thorough=400),
    'C26': _s5('the program is started with valid configurations, plain and encrypted, and with ones that cannot work in 30 ways (files, kinds, types, plugins, certificates, addresses, services that fail later), on directories with history and while clients connect', quick=50, thorough=400, state='hash of everything stored, how every start of the program ended, and the simulated disk', assume=['encryption itself is stood for by a greeting; loading and checking of certificates is real; loading a plugin always fails in the simulation']),
    'C01': _s1('clients writing and reading several metrics, crashes at any statement, file system call or callback, restarts'),
    'C02': _s1('clients with self-describing values and recycled buffers, crashes, torn stores, flipped stored bytes, I/O errors'),
    'C03': _s1('concurrent writers and queries with random bounds and early stops over many file layouts'),
    'C04': _s1('values in and out of order and of every size from empty to larger than a file, restarts and crashes'),
    'C05': _s1('long write histories over small files, restarts, crashes and failing unlinks'),
    'C06': _s1('queueing before, during and after runs of the database, cancelled contexts, full buffers, drop mode, nil callbacks'),
    'C07': _s1('overlapping and successive runs of one database instance, stops at any moment'),
    'C08': _s1('concurrent writes, listings and re-scans, awkward names, restarts'),
    'C09': _s1('failing and short system calls of every kind, descriptor, mapping and space limits, for a while and then healed'),
    'C11': _s2('concurrent adds, captures and iterations, wall clock jumps', assume=['adds that overlap a capture may be lost (documented in the code)']),
    'C12': _s2('concurrent adds, captures and iterations, early stops, distributions that refuse to be created'),
    'C13': dict(bin='s3', scenarios='s3', what='adds, direct dumps (some cancelled) and periodic dumpers over a database that completes at once, late, out of order or from other tasks, rejects, fails and refuses values', real=['dump', 'data (writer, page, aggregation, record encoding)', 'a database and a distribution supplied by the harness'], quick=60, thorough=600,
             state='hash of the sequence of records handed to the database', assume=['adds that overlap a capture may be lost (documented in the code)', 'a direct dump whose context is cancelled may give up the records it captured (documented in the code)']),
    'C14': dict(bin='s4', scenarios='s4', what='clients that send well-formed, malformed, overlong and binary lines in fragments, stay, end, half-close or reset; the listener is cancelled at any moment and run again', real=['listener/graphite', 'data.Writer', 'bufio, bytes, strconv (standard library, not instrumented)'], quick=60, thorough=600,
             state='hash of everything delivered to the handlers and how each connection ended'),
    'C17': dict(bin='s6', scenarios='s6', what='launched and queued tasks that return, fail, wait for their context or ignore it; cancelled contexts; concurrent queueing and runs', real=['internal/junk launcher and its tests of error classes'], quick=40, thorough=300,
             state='hash of the outcome of every run'),
    'C18': _s7('render and query requests on shared and separate connections with concurrent writes and re-scans, a database that fails, hangs, is slow or returns undecodable records in the middle of a request, clients that disappear, parameters of every size'),
    'C35': _s7('requests with right and wrong credentials on shared and separate connections, passwords that are empty or contain colons', quick=40, thorough=300),
    'C21': _s8('several tasks register makers under few names and build components of all kinds, with makers that take time, fail, and use the registry themselves',
        ['registry', 'components supplied by the harness'], 'hash of which registration made each component', quick=30, thorough=300),
    'C22': _s8('the demo command is run on one directory again and again, killed at any statement or interrupted, over storage that fails, with a database that ends early, refuses records or fails to write them, and distributions that cannot be created',
        ['the demo command from rothko.Main to its exit: cli, config, registry, internal/junk', 'data (record encoding), data/load', 'database/files (through a wrapper that watches it)', 'a distribution supplied by the harness'], 'hash of everything stored', quick=70, thorough=600),
    'C23': _s8('init commands that start at the same time, while a user creates the same file, with failing, short and stalled system calls and kills at any statement; the program is started with the result',
        ['the init command from rothko.Main to its exit: cli, config', 'the run command started with the initial configuration: everything as in C15 without wrappers'], 'hash of how the commands ended and what is on the disk', quick=30, thorough=300),
    'C24': _s8('a server with a generated site answers concurrent browsers on shared and separate connections: pages, other files, directories, paths that do not exist, parts of files, wrong methods and credentials; slow and disappearing clients; incomplete sites',
        ['the run command, api, internal/tgzfs, internal/tmplfs', 'net/http file server and request parsing, html/template, archive/tar, compress/gzip (standard library, not instrumented)'], 'hash of every request, status and response length', quick=50, thorough=400),
    'C10': _s1('more files than handles, failing opens and maps, stops with operations in flight'),
}
