#!/usr/bin/env python3
# Writes properties.jsonl. Kept so the property list has one editable source.
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],
                   observe_at=observe,hook_needed=None)))
F='database/files/'
p('C01','Acknowledged writes survive a process crash at any instant',
 'Once the completion callback of a queued value has reported it written, then after the process is killed at any instant and restarted on the same directory, queries for that metric return that value with its exact start, end and bytes until retention evicts it. After the restart the metric is usable again: reads succeed without error and later values are accepted.',
 ['crash_points','histories','schedules'],'every instant (between any two statements) at which the process may be killed, including inside a record write, a metadata update, file creation and file removal; every history of writes, reads, restarts and repeated crashes before it',
 'No test crashes the process; the tests only reopen files after orderly writes, so no torn record, torn metadata or half-created file is ever seen.',
 [F+'metric.go',F+'file.go',F+'file_helpers.go',F+'file_ops.go',F+'file_cache.go',F+'record.go',F+'db_write.go'],
 [('records are written before the head moves',F+'metric.go Write'),('head pointer is only a hint',F+'file_ops.go getHeadPointer'),('checksummed records',F+'record.go')],
 ['DB.Queue callback','DB.Query','DB.QueryLatest after re-opening the directory'])
p('C02','Reads never return fabricated, mixed or corrupted data',
 'Every value delivered by a query is exactly one value that was queued earlier for exactly that metric: same start, same end, same bytes, never a mixture of two values and never a value of another metric. This holds whatever crashes, torn writes, flipped stored bytes or I/O errors happened before, and the buffers handed to or received from the database may be reused by the caller without affecting what is stored.',
 ['histories','crash_points','fault_sequences','schedules'],'every history of writes (single and multi-record values, awkward metric names), crash points, bit flips in stored files, and concurrent queries, writers and callers that reuse their buffers',
 'Unit tests check one flipped byte of one record; they never read back files torn by a crash in the middle of a multi-record value, nor run concurrent callers that recycle buffers.',
 [F+'record.go',F+'metric.go',F+'db_write.go',F+'db_read.go',F+'convert.go'],
 [('per-record checksum',F+'record.go'),('begin/continue/end kinds',F+'metric.go Read'),('private copy of queued data',F+'db_write.go Queue'),('per metric lock',F+'lock_pool.go')],
 ['DB.Query','DB.QueryLatest'])
p('C03','Queries return every retained value below the bound, newest first',
 'A query with an end bound delivers the values that end strictly before the bound, in strictly decreasing order of end, each exactly once, with no retained value skipped, and it stops when the callback returns false, returns an error (which is what the query then returns), or the context is cancelled. The latest-value query returns the newest value, or zeros and no data when the metric is empty. Concurrent writes and queries on a metric behave as if executed one at a time in some order consistent with real time.',
 ['schedules','histories','inputs'],'every interleaving of concurrent writers, query callers and workers, every bound, and every file/slot layout reached by histories of single- and multi-record values across several files',
 'Tests query a single-threaded metric with a handful of bounds; completeness for every bound over every multi-file layout and atomicity under concurrency are not exercised.',
 [F+'metric.go',F+'db_read.go',F+'lock_pool.go',F+'file_ops.go'],
 [('newest file to oldest, low slot to high slot',F+'metric.go Read'),('lock per metric',F+'lock_pool.go'),('per-file smallest end',F+'metric.go')],
 ['DB.Query','DB.QueryLatest','DB.Queue callback'])
p('C04','Values are accepted exactly when they are chronologically later',
 'A value is reported written without error if and only if its end is strictly greater than the end of every value already stored for that metric and the value fits in one data file; otherwise it is reported not written. A value that is not written leaves everything stored readable and unaltered, except that the oldest file may already have been evicted to make room when storing it then failed, and the rule keeps holding across retention, restarts and crashes.',
 ['histories','schedules','inputs','crash_points'],'every sequence and interleaving of values in and out of order, of every size from empty to larger than a file, for every size/cap/files configuration, before and after restarts',
 'Tests write increasing times only, with one configuration; equal and older ends, exactly-full and oversized values at file boundaries and after a restart are not covered.',
 [F+'metric.go',F+'record.go',F+'db_write.go'],
 [('comparison with the last record',F+'metric.go Write'),('capacity check',F+'metric.go Write')],
 ['DB.Queue callback','DB.Query'])
p('C05','Retention keeps the newest values and disk use stays bounded',
 'For each metric the stored values always are a contiguous run of the newest accepted values: only the oldest are ever evicted, and at least the newest files x cap record slots worth of accepted values stay queryable (counting as used the slots at the end of a file that a larger value could not fit into and slots torn by a crash). The directory never holds more than files+1 data files of size x (cap+1) bytes per metric.',
 ['histories','configurations','crash_points'],'every history long enough to wrap the retention window several times, every configuration of size, cap and files, single- and multi-record values, oversized values, restarts and crashes in between',
 'One test writes through a small window once with single-record values; rollover combined with multi-record values, caching, restart, and crash is not sampled.',
 [F+'metric.go',F+'file_cache.go',F+'db.go'],
 [('oldest file removed when a new one is allocated',F+'metric.go Write'),('cache eviction of the removed file',F+'file_cache.go evictFile')],
 ['DB.Query','files in the database directory'])
p('C06','Every queued value gets exactly one completion callback',
 'For every value handed to the database the completion callback is called exactly once by the time the enclosing run of the database has returned (or the hand-off itself was given up), and never again: whether the value was stored, rejected, failed, dropped on a full buffer, abandoned by a cancelled context, or overtaken by shutdown. It reports written only if the value was really stored, and in drop mode handing over a value never waits for buffer space.',
 ['schedules','fault_sequences','configurations'],'every interleaving of producers, workers, context cancellation and database shutdown/restart, every buffer size including zero, drop mode on and off, with and without write errors',
 'The tests queue values one at a time and wait; the shutdown race between senders, close and drain is never scheduled.',
 [F+'db_write.go',F+'db.go'],
 [('recovered send on closed queue',F+'db_write.go Queue'),('swap, close and drain of the queue',F+'db.go Run')],
 ['DB.Queue callback','DB.Run return'])
p('C07','The database runs once at a time, stops when asked and can run again',
 'At most one run of the database is active: an overlapping second run fails at once and does not disturb the first. After its context is cancelled the run returns within bounded work with no worker of it left doing anything, values queued before, during and after the stop are handled without blocking forever, and a later run on the same instance works like the first, with all stored data still readable and no file contents lost.',
 ['schedules','histories','fault_sequences'],'every interleaving of run, cancel, overlapping run, re-run, producers and queries, any number of workers and buffer sizes',
 'Tests start and stop a single run without concurrent activity; overlap, re-run and shutdown under load are never scheduled.',
 [F+'db.go','internal/junk/flag.go','internal/junk/launcher.go',F+'file_cache.go'],
 [('running flag',F+'db.go Run'),('launcher waits for all workers','internal/junk/launcher.go'),('cache closed and queue replaced at the end',F+'db.go Run')],
 ['DB.Run','DB.Queue','DB.Query'])
p('C08','Metric listing names every stored metric exactly once',
 'Once a write to a metric has been acknowledged, and forever after in that process, every listing that starts later names that metric exactly once in sorted order, whatever writes, other listings and directory re-scans run concurrently; after a restart the same holds once the start-up scan has finished. A listing never names a metric that nobody ever wrote to, and stops when its callback says so.',
 ['schedules','histories','crash_points'],'every interleaving of writers (one set of names per worker), listings and re-scans; every set of metric names including dotted prefixes of each other, leading, trailing and repeated dots, slashes and percents; directories larger than one directory-read batch; restarts',
 'Tests list a static, single-threaded database; the three-way race between worker name sets, merging listings and the re-scan is never scheduled.',
 [F+'db_read.go',F+'db_write.go',F+'internal/sset/set.go',F+'convert.go',F+'internal/system/dirent.go'],
 [('per-worker sets merged on read',F+'db_read.go Metrics'),('directory walk',F+'db_read.go populate'),('copy-on-write set',F+'internal/sset/set.go')],
 ['DB.Metrics','DB.PopulateMetrics'])
p('C09','I/O errors are reported, lose nothing, and are recovered from',
 'When opening, creating, sizing, mapping, listing or removing files fails (disk full, no memory, no descriptors, I/O error), the affected write or query reports an error instead of claiming success or returning a silently incomplete answer, and no previously acknowledged value within the retention guarantee is lost or altered. Once the faults stop, reads again return everything acknowledged before and during the faults, and new writes to every metric succeed without a restart.',
 ['fault_sequences','histories','schedules'],'every placement of transient errors on any file-system call made by a write, query, listing or re-scan, including disk-full periods during file rollover, repeated and combined',
 'No test injects an I/O error other than opening a malformed file.',
 [F+'metric.go',F+'file.go',F+'file_cache.go',F+'db_read.go',F+'internal/system/mmap.go',F+'internal/system/alloc_linux.go'],
 [('error returns of create and open',F+'file.go'),('error propagation to the callback',F+'db_write.go worker')],
 ['DB.Queue callback','DB.Query error','DB.PopulateMetrics error'])
p('C10','Open descriptors and mappings stay bounded and are never used after release',
 'The number of data files the database keeps mapped while idle never exceeds the configured handle count, no descriptor or mapping is leaked by any operation, successful or failed, and when a run of the database has returned and no operation overlapped its end none is left open. A mapping is never accessed after it was released and never released twice.',
 ['histories','schedules','fault_sequences','configurations'],'every handle count including zero, smaller and larger than the working set, histories that reuse, evict, roll over and remove files, failures in open and create, concurrent workers and queries, shutdown at any time',
 'Unit tests of the cache never map files under concurrency or fail an open half way; leaks and use after unmap are invisible to them.',
 [F+'cache.go',F+'file_cache.go',F+'file.go',F+'metric.go',F+'internal/system/mmap.go'],
 [('random-eviction cache',F+'cache.go'),('acquire/release/evict tokens',F+'file_cache.go'),('close at end of run',F+'db.go Run')],
 ['descriptor and mapping tables of the operating system'])
p('C11','Captured records account for every observation exactly once',
 'Each finite value added to a metric by a call that does not overlap a capture is counted in exactly one record of exactly one capture, even when several captures run concurrently; the record of that window has as many observations as values added, the exact minimum and maximum with the ids they were added under, and a distribution of the same count. The windows of successive captures tile time: each record starts exactly where the previous capture ended, whatever the clock does.',
 ['schedules','histories','inputs'],'every interleaving of concurrent adders on shared and distinct metrics, concurrent captures and iterations, clock jumps, and values including equal, negative, huge, infinite and not-a-number ones',
 'Tests add from a single goroutine; lost updates, wrong extremes and double captures need particular interleavings.',
 ['data/writer.go','data/agg.go','dist/tdigest/wrapper.go'],
 [('compare-and-swap of the page','data/writer.go Capture'),('aggregate mutex','data/agg.go'),('first writer wins per metric','data/writer.go Add')],
 ['Writer.Capture','Writer.Iterate','Record'])
p('C12','Records delivered while values are being added are consistent snapshots',
 'A record delivered by an iteration or capture that runs concurrently with adds is a consistent snapshot of the values added so far: its observation count equals the count of its serialized distribution, its minimum and maximum (with their ids) are the extremes of exactly that many added values, it contains every add that completed before it and none that began after it, and successive iterations never go backwards. No interleaving of adds, iterations and captures, and no failing distribution configuration, makes any of them panic or block forever.',
 ['schedules','fault_sequences'],'every interleaving of adders, iterations and captures, including the instant a metric first appears, and distribution parameters that refuse to create distributions',
 'Tests are single threaded; the snapshot is only wrong inside windows of a few instructions.',
 ['data/agg.go','data/writer.go','dist/tdigest/wrapper.go'],
 [('aggregate mutex','data/agg.go Observe/Finish')],
 ['Writer.Iterate','Writer.Capture'])
p('C13','A dump stores every captured record and waits for all outcomes',
 'A dump that is not cancelled hands each captured record to the database exactly once under its own metric, start and end, with bytes that decode to that record and stay intact until its completion callback has run, and it returns only after every completion callback has run, also when the database fails, rejects or completes late, out of order or from other threads. The periodic dumper dumps once per period while it runs, keeps dumping after failures, and when cancelled finishes the dump in progress, starts no dump that was not due before, and returns.',
 ['schedules','fault_sequences','histories'],'every interleaving and completion order of database callbacks, synchronous and asynchronous failures, cancellation before, during and after a dump, any number of metrics and record sizes above and below the buffer size',
 'The package has no tests; buffer reuse and early return only show with delayed and reordered completions.',
 ['dump/dump.go','data/writer.go'],
 [('wait group over callbacks','dump/dump.go Dump'),('pooled marshal buffers','dump/dump.go'),('ticker loop','dump/dump.go Run')],
 ['DB.Queue arguments and timing','Dumper.Dump return','Dumper.Run return'])
p('C14','The graphite listener ingests every complete line once and stops cleanly',
 'Every well-formed line of at most 64 KiB that a connection delivers completely before it ends or is cut, however it is fragmented, delayed or interleaved with other connections, is added exactly once with its metric name and value; malformed lines are ignored without affecting other lines or connections. When its context is cancelled the listener closes its socket and every connection, waits for its handlers and returns without error; a failing or reset connection never stops the listener, nor does a passing lack of descriptors for new ones.',
 ['schedules','fault_sequences','inputs'],'every fragmentation, delay, reset and half-close of the byte streams, every interleaving of connections, adders and cancellation, connects during shutdown, lines with missing, extra, empty and non-numeric fields',
 'The test sends whole lines over one loopback connection; fragmentation, resets, shutdown with open connections and concurrent connections are not sampled.',
 ['listener/graphite/listener.go','data/writer.go'],
 [('line scanner per connection','listener/graphite/listener.go handleConn'),('wait groups and context','listener/graphite/listener.go')],
 ['Writer contents','Listener.Run return','socket tables'])
p('C15','Graceful shutdown stores everything received before exiting',
 'When a running server is interrupted at any moment, it stops its listeners, performs a final dump, and exits with status 0 within bounded time; everything it had received and aggregated before the interrupt, under names a file system can hold, is durable and queryable after a restart, each observation exactly once. If a service fails the whole process stops with a non-zero status instead of hanging.',
 ['schedules','fault_sequences','histories'],'every moment of the interrupt relative to ingestion, periodic dumps, API requests, database start-up and worker progress; repeated interrupts; failing services; repeated restarts',
 'The root package has no tests; shutdown ordering between listener, dumper and database is only visible in the whole process.',
 ['run.go','main.go','internal/junk/launcher.go','internal/junk/signal.go','dump/dump.go',F+'db.go','listener/graphite/listener.go'],
 [('nested launchers keep the database running for the last dump','run.go'),('signal context','internal/junk/signal.go'),('final dump','run.go')],
 ['process exit status','API and DB contents after restart'])
p('C16','After a crash everything from completed dumps is served again',
 'When the whole server process is killed at any instant and restarted with the same configuration and directory, the API lists every metric covered by a completed dump and serves its data, each observation of a completed dump is stored exactly once, and an observation that was not yet dumped is either stored once or lost, never duplicated or attributed to another metric or period. The server starts serving again without manual repair. While it runs it dumps every period, so that a kill loses nothing that was received more than about a period before.',
 ['crash_points','schedules','histories'],'every instant of a kill during ingestion, periodic dump, start-up scan or API request; repeated crashes; clock jumps between incarnations',
 'The root package has no tests and no test kills the process.',
 ['run.go','dump/dump.go',F+'db.go',F+'metric.go','api/server.go','data/writer.go'],
 [('write-through of mapped files',F+'metric.go'),('start-up scan',F+'db.go Run')],
 ['HTTP API after restart','files in the database directory'])
p('C17','The launcher supervises its tasks to the end',
 'Launched tasks all start; when the first task returns the context of all others is cancelled, the launcher waits for every task before returning, and it returns no error exactly when no task failed, and otherwise the error of a failing task that no other failing task preceded; cancelling its context reaches every task. A task queued on a launcher runs in exactly one run of it.',
 ['schedules','fault_sequences'],'every order and interleaving of task returns, errors, cancellation and queueing, any number of tasks including none',
 'The helper has no tests and every service depends on it.',
 ['internal/junk/launcher.go','run.go',F+'db.go'],
 [('error channel, cancel and wait group','internal/junk/launcher.go Launch')],
 ['Launcher.Run return','task contexts'])
p('C18','The API answers from current data and reports failures',
 'For any stored data, a render request returns columns computed only from that metric\'s stored records that overlap the requested window (and at most the newest record before it), and a query request returns only stored metric names matching the query and all of them up to the requested number; both reflect every write acknowledged before the request began, under concurrent writes and requests. When the database fails the response is an error status, never a success with partial or other data, and one failing, slow or aborted request does not affect any other. Every request, whatever its parameters, is answered, and an image is the drawing of exactly the data the same request returns as JSON.',
 ['schedules','fault_sequences','histories'],'every interleaving of requests with writes and re-scans; database errors at any point of a request; client aborts and slow readers; every parameter value',
 'The API package has no tests beyond the query matcher.',
 ['api/server.go','api/query/search.go','merge/merger.go','merge/merge.go','data/load/load.go'],
 [('query callback accumulates into a per-request merger','api/server.go serveRender'),('error to status mapping','api/common.go')],
 ['HTTP responses'])
p('C19','Concurrent use of the public API is free of data races',
 'No interleaving of concurrent calls to the database, writer, dumper, launcher and API server, as the running server makes them, contains two unsynchronised accesses to the same memory of which one is a write, crashes the process through concurrent modification, or deadlocks.',
 ['schedules'],'every interleaving of concurrent writes, queries, listings, re-scans, shutdowns, adds, captures, iterations, dumps and API requests',
 'The tests are almost entirely single threaded and are not run with the race detector.',
 ['data/agg.go','data/writer.go',F+'db.go',F+'db_read.go',F+'db_write.go',F+'file_cache.go',F+'lock_pool.go','internal/junk/launcher.go','dump/dump.go'],
 [('mutexes, atomics, channels','data, database/files, dump, internal/junk')],
 ['happens-before relation of the execution'])
p('C35','API credentials are checked on every request',
 'When a user name is configured, every request without exactly the configured user name and password is answered with status 401 and no stored data is read for it, and a request with exactly them is never refused with 401, regardless of what other requests on the same or other connections presented before or present at the same time.',
 ['inputs','histories','schedules'],'every configured password (also empty or with colons), every presented credential, every sequence and interleaving of requests on shared and separate connections',
 'The API has no tests.',
 ['api/server.go'],[('constant time comparison','api/server.go validAuth')],['HTTP status'])
# --- not claimed: pure functions -------------------------------------------------
p('C20','A failing disk does not take the running server down',
 'While storage operations of a running server fail or stall (I/O errors, full disk, no descriptors for files or connections, no memory), the server keeps running: its listeners keep accepting and aggregating lines, requests are answered (with an error where the data cannot be read), every dump comes to an end, and an interrupt still ends the process with status 0 within bounded time. Only records whose own write failed may be lost: each observation is handed to the database exactly once and never stored twice. Once the failures stop, every later record is stored, and everything stored before, during and after them is listed and served, without a restart.',
 ['fault_sequences','schedules','crash_points','histories'],'every sequence of failing or stalled file system calls during start-up, dumps, requests, the start-up scan and the final dump, for any time, with clients, requests, interrupts and kills at any moment',
 'No test runs the assembled server at all, and none makes the storage fail.',
 ['run.go','dump/dump.go',F+'db.go',F+'db_write.go',F+'db_read.go',F+'metric.go',F+'file_cache.go','api/server.go'],
 [('errors are reported to the completion callback',F+'db_write.go worker'),('dump counts errors and goes on','dump/dump.go Dump'),('scan is retried',F+'db.go Run')],
 ['process exit status','/api/query','/api/render','database contents after restart'])
p('C21','The component registry builds what was registered last',
 'Building a listener, database or distribution by name calls exactly one maker, exactly once, with the caller\'s context and configuration, and returns exactly what that maker returned, component or error. The maker is one registered under that name for that kind, and not one that a later registration completed before the call began had replaced; building fails without calling a maker only if no registration under that name completed before the call. This holds for every interleaving of concurrent registrations and constructions, and makers may take time and use the registry themselves: no call waits for ever.',
 ['schedules'],'every interleaving of registrations and constructions of all kinds under any names, and makers that block, fail or call the registry',
 'The registry has no tests of concurrent use, and none with makers that use it.',
 ['registry/registry.go','registry/common.go','data/load/load.go'],
 [('one map per kind behind a mutex','registry/registry.go')],
 ['values and errors returned by New*','calls of makers'])
p('C22','The demo command stores all of its data or reports that it did not',
 'The demo command ends with status 0 only if the completion of every record it handed to the database was reported without an error, and then a gapless series of records covering the last 24 hours was handed over for every demo metric; if the database, a distribution or the configuration fails at any point, it ends with a non-zero status within bounded time. Every record it hands over decodes to the counts, extremes and time span it states. After any failure, interrupt, kill or restart, every record reported as written is readable and nothing else is stored.',
 ['fault_sequences','schedules','crash_points','histories'],'every moment at which the database stops, refuses or fails a record, the storage fails or the process is killed, and every interleaving of the generator with the database',
 'The root package has no tests.',
 ['demo.go','internal/junk/launcher.go',F+'db.go',F+'db_write.go','data/record.proto','data/load/load.go'],
 [('generator waits for each completion','demo.go addDemoData'),('launcher','demo.go demo')],
 ['process exit status','records in the database'])
p('C23','The init command creates a complete configuration or nothing',
 'The init command ends with status 0 only if it created the configuration file and the file holds exactly the initial configuration; of several commands run at once at most one does. It never changes or replaces a file or directory that somebody else created before or while it runs, and then ends with a non-zero status. When it fails for any reason but being killed it leaves no file behind, so that running it again works. The initial configuration is one with which the server starts, listens on the documented addresses, stores data and ends with status 0 when interrupted.',
 ['fault_sequences','schedules','crash_points'],'every interleaving of commands and other programs creating the file, every failing or short system call, every full disk',
 'The root package has no tests; the only test of the initial configuration parses it.',
 ['init.go','config/initial.go','run.go'],
 [('exclusive creation','init.go')],
 ['process exit status','rothko.toml'])
p('C24','The web site is served as it was packed',
 'Every GET request for the path of a file of the packed site is answered with exactly the bytes of that file, or the requested part of them; files ending in .html are rendered as templates from the query of that very request, whatever other requests are served at the same time. Paths that lead to no file are answered with the site\'s default page, or status 404 if there is none. Directories, broken templates and archives without directory entries never leave a request unanswered. Other methods are refused, requests without the configured credentials get nothing of the site, and the server refuses to start with an incomplete site rather than serve part of it.',
 ['inputs','schedules','fault_sequences'],'every packed site, path, query, range and method; every interleaving of requests; slow and disappearing clients; truncated archives',
 'Neither internal/tgzfs nor internal/tmplfs nor the serving of the site has a test.',
 ['internal/tgzfs/fs.go','internal/tgzfs/file.go','internal/tmplfs/fs.go','api/server.go','run.go'],
 [('path lookup with default file','internal/tgzfs/fs.go getFile'),('per-request rendering','internal/tmplfs/fs.go Open')],
 ['HTTP responses'])
p('C25','Requests in flight are answered before the program exits',
 'When the program is interrupted, every API request whose handling had begun is still answered completely and correctly before the process exits with status 0, provided the database answers and the client reads it within the minute the program gives the server to clean up; clients that never read, that are idle or that disconnect do not keep the program from exiting.',
 ['schedules','histories','fault_sequences'],'every moment of the interrupt relative to each request; every duration of a request and every speed of its client',
 'Nothing tests the program as a whole; whether an answer is cut off depends on the moment of the interrupt.',
 ['run.go','api/server.go','internal/junk/launcher.go'],
 [('shutting down the server','run.go runServer'),('order of the services','run.go run')],
 ['HTTP responses','process exit'])
p('C26','The program starts completely as configured or not at all',
 'With a valid configuration the program listens on every configured address within bounded time, and serves its API only encrypted if a certificate is configured. If the configuration file is missing, unreadable or invalid, or it names an unknown kind of component, a setting of the wrong type, a plugin that cannot be loaded, a certificate or key that is missing or does not fit, or an address that cannot be listened on, the program ends with a non-zero status within bounded time instead of running with only a part of what is configured. The same holds when a service fails later. What was stored before is untouched.',
 ['inputs','fault_sequences','schedules','histories'],'every combination of a way to fail with other valid settings, at any start on a directory with history, with clients that already connect, and every interleaving of the services that are starting',
 'The root package has no tests.',
 ['run.go','main.go','config/load.go','registry/registry.go','internal/junk/launcher.go','internal/typeassert/typeassert.go','listener/graphite/listener.go'],
 [('creating the services','run.go run'),('first failure stops all','internal/junk/launcher.go Run'),('serving','run.go runServer')],
 ['process exit status','listening sockets','HTTP responses'])
p('C30','Metric names and directory names map one to one',
 'Every metric name maps to one directory path inside the database directory and that path maps back to the same name; two different names never share a directory.',
 ['inputs'],'every metric name','Tests cover a table of names; the property quantifies over all strings.',
 [F+'convert.go'],[('escaping of dots, slashes and percents',F+'convert.go')],['metric to path conversion'])
p('C31','Metric search matches the documented query rules',
 'A search returns exactly the names its query matches, component by component and glob by glob, and at most the requested number.',
 ['inputs'],'every query string and set of names','Tests cover a table of patterns.',
 ['api/query/glob.go','api/query/search.go','api/query/spec.go'],[('matcher','api/query')],['search results'])
p('C32','Merging records preserves counts, extremes and time span',
 'Merging records yields a record spanning exactly their time range, with the summed observations and merge count and the overall extremes, and rendered columns depend only on the records overlapping them.',
 ['inputs'],'every list of records','No tests cover merge.',
 ['merge/merge.go','merge/merger.go','merge/resample.go'],[('merge','merge')],['merged record'])
p('C33','Configuration files parse to what they say or are rejected',
 'Every configuration either loads with each documented option taking its stated value or is rejected with an error before any service starts.',
 ['inputs'],'every configuration text','One test loads one configuration.',
 ['config/load.go','config/config.go','registry/registry.go','internal/typeassert/asserter.go'],[('typed assertions','internal/typeassert')],['loaded configuration'])
p('C34','Rendering draws each column and axis at its pixel position',
 'Graphs, axes, keys and heat maps draw each value at the documented pixel and colour and never write outside the canvas.',
 ['inputs'],'every set of columns and measurements','Tests cover a few fixed drawings.',
 ['draw/heatmap/heatmap.go','draw/axis/axis.go','draw/graph/graph.go','draw/key/key.go'],[('drawing','draw')],['canvas'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
