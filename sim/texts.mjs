// What each check's evidence says about how cases are made, what was real and
// what was a stand-in, and what is taken for granted.
const LOG = 'two runs count as different when the hash of their whole event log (every choice the simulator made, every fault, every byte written, every answer) differs';
const SCHED = 'the Go runtime of the installed toolchain, patched through a build overlay at one point (findRunnable asks the host which runnable goroutine runs next)';
const MEM = 'a copy of the Go compiler that keeps race-detector instrumentation on for wasm: each memory access of the library and of the standard library packages it uses may switch goroutines there (host decision) and is compared with the last accesses of the same memory by vector clocks (go/rt/zz_verif_hb.go)';
const WASI = 'WASI host (clock, random numbers, environment, file descriptors, polling): simulator';
const TRUST = ['the installed Go compiler, runtime and standard library (go1.27.3, targeting wasm) and the WebAssembly engine of node 22 execute code correctly', 'the wasm build of the code behaves like a native build of the same source (no file of the repository is specific to an architecture)'];
const LIB_ORACLE = 'the expected answer of a call is what the same code answers in a fresh simulated process that makes only that call; whether that answer is right for EDTF is a property of inputs alone and is not judged here';

export const texts = {
  C01: {
    rule: 'Each run draws from its seed 2-10 goroutines with 1-5 calls each over a vocabulary of generated operations (every exported function; every EDTF feature, valid, nearly valid and junk), optionally dates shared by all goroutines, warm-up calls, forced collections, and a scheduling style (uniform, sticky, priority). It is non-trivial when at least one goroutine was suspended inside a call, between two memory accesses.',
    measure: LOG + '; each distinct run is a distinct interleaving of calls and preemption points',
    components: { real: ['all library packages, compiled from the working tree', SCHED, MEM], stub: [WASI, 'callers: the harness go/libsim'] },
    assumptions: [...TRUST, LIB_ORACLE, 'sequential consistency: preemption happens between memory accesses, reordering by weak hardware is represented only by the happens-before check (a data race is itself a violation)', 'at most 10 goroutines and about 50 calls per run'],
  },
  C02: {
    rule: 'Each run draws a history of 8-120 operations in one process: calls over a small vocabulary (so inputs recur), overwriting of values handed out earlier (all fields, through every pointer and slice), re-reading of values handed out earlier, forced collections, and bursts of up to 2200 calls on fresh strings (to overflow any table of bounded size). 60% of the runs are long histories (60-300 calls) over families of strings that differ in one component only, made in one order here and in the reverse order in a second process; answers that differ are decided by the call alone in a fresh process. Non-trivial: more than one call.',
    measure: LOG,
    components: { real: ['all library packages, compiled from the working tree', 'Go runtime and garbage collector'], stub: [WASI, 'caller: the harness go/libsim'] },
    assumptions: [...TRUST, LIB_ORACLE, 'a caller can overwrite only what exported fields, pointers and slices of a returned value reach'],
  },
  C03: {
    rule: 'Each run draws a start time (among them leap days, year ends, 1960, 1970, 9999), clock jumps forwards and backwards, time passing between and inside calls, a local time zone (fixed offsets and rules with daylight saving, set through time.Local), environment variables, an entropy stream and 8-100 calls (half the runs: strings about the simulated present), and compares each answer with that of the same call at a fixed time in UTC. Non-trivial: at least one of them differs from the reference process.',
    measure: LOG,
    components: { real: ['all library packages, compiled from the working tree', 'package time of the Go standard library'], stub: [WASI, 'time zone database: zones given as POSIX TZ rules'] },
    assumptions: [...TRUST, LIB_ORACLE],
  },
  C04: {
    rule: 'Each run draws functions, kinds of strings, 1-4 concurrent callers and a phase length, makes several phases of calls on ever-new strings, and after each phase forces collections and reads heap bytes, heap objects and goroutines. When they grow from the second phase on beyond a small slack, the run is repeated with phases 24 times as long, and only growth that keeps pace is a violation. Every run is non-trivial.',
    measure: LOG,
    components: { real: ['all library packages, compiled from the working tree', SCHED, 'Go memory allocator and garbage collector'], stub: [WASI, 'callers: the harness go/libsim'] },
    assumptions: [...TRUST, 'growth slower than about 100 objects or 50 kB over the longest run (some tens of thousands of calls) is not distinguished from a bounded table filling up'],
  },
  C05: cliText('cmd/parse'), C06: cliText('cmd/matches'), C07: cliText('cmd/parse-wasi'),
  C08: {
    ...cliText('cmd/parse and cmd/matches'),
    rule: 'Each run draws one of the two tools, 0-200 arguments, mostly with unparsable ones among them, and a plan of faults: the process is killed before or inside the k-th write, or writes to standard output and standard error fail, are short, are interrupted or would block. The seeded decider then fixes the fate of every single write. Non-trivial: at least one fault happened.',
  },
  C18: {
    ...cliText('cmd/parse, cmd/matches and cmd/parse-wasi'),
    rule: 'Each run draws one of the tools, its arguments (some of them dates around the simulated present), and everything around the process: start time, speed and jumps of the clock, local time zone, environment variables, the answer for any variable nobody set, a file under every path, contents or failure of standard input, kinds of descriptors, the name the program was called by, entropy, and the order of goroutines. Output and exit status are compared with a run in a plain environment, and those with the library. Non-trivial: something around the process differs.',
  },
  C09: {
    rule: 'Each run draws 1-3 streams with sequences of dates each, one way of writing (encoder, marshal and join, append to a reused buffer) and of reading (decoder, scanner, whole buffer) per stream, and lets the decider split, delay, merge, cut or fail each read and write; streams progress interleaved in separate goroutines, and callers overwrite their buffers after use. Non-trivial: at least one fault or split happened.',
    measure: LOG,
    components: { real: ['date, timestamp and year-month-day types of the library, compiled from the working tree', 'encoding/json of the Go standard library', SCHED], stub: ['streams (io.Reader, io.Writer): simulator', WASI] },
    assumptions: [...TRUST, 'encoding/json reports the errors of the streams it reads and writes', 'the stream changes no bytes: only splitting, delay, merging, truncation and errors are injected'],
  },
  C10: {
    rule: 'Each run loads the compiled module in a simulated JavaScript realm (documented build, build with host-scheduled goroutines, or with preemption at memory accesses; two versions of the Go glue), draws up to about 50 overlapping calls from several tasks and from reactions of other calls, and lets the decider order tasks, timers and goroutines. Non-trivial: more than one call and at least one ordering choice.',
    measure: LOG,
    components: jsParts(), assumptions: [...TRUST, LIB_ORACLE],
  },
  C11: {
    rule: 'As for C10, with arguments of every type (missing, many, numbers, BigInt, symbols, proxies, objects whose conversion throws, ill-formed and very long strings), calls as constructor, through apply and bind, modules started twice, and a console whose writes fail, stall, are short or complete late; afterwards the module must still answer. Non-trivial: at least one unusual argument, console fault or second module.',
    measure: LOG, components: jsParts(), assumptions: [...TRUST, LIB_ORACLE, 'the console is reached through the fs object of the glue (as in node) or console.log (as in a browser)'],
  },
  C12: {
    rule: 'Each run draws a kind of string (each EDTF feature, failing strings, all), a batch size of overlapping calls and a phase length, makes 5 phases of calls, lets all promises settle and forces collections after each phase, and reads the reference table of the glue, the callback table, goroutines, heap and linear memory. Growth beyond a slack is confirmed with phases 12 times as long. Every run is non-trivial.',
    measure: LOG, components: jsParts(), assumptions: [...TRUST, 'finalizers and weak references of the JavaScript engine are not used by the glue for references held by Go (as in the installed glue)'],
  },
  C13: {
    rule: 'Each run starts the real server program in the simulated process and draws 1-20 client connections with 1-6 requests each (methods, paths known and unknown, path tricks, ranges, conditional requests, pipelining, keep-alive and close, HTTP/1.0, malformed input), latencies, buffer sizes, how bytes are split into reads and writes, clients that abort or stop reading, and connection faults at chosen operations. The decider orders goroutines, deliveries, readiness and faults. Every complete answer is compared with the published file; undisturbed clients must get one. Non-trivial: a fault, or more than one goroutine to choose from.',
    measure: LOG, components: srvParts(), assumptions: srvAssume(),
  },
  C14: {
    rule: 'As for C13 with 1-300 misbehaving clients (silent, half a request, byte by byte, not reading, body that never comes, aborting at chosen bytes, half closed, vanished without a word, malformed) beside well-behaved ones, which must be answered within 60 simulated seconds; goroutines are counted when the first clients have come and gone and 400 s have passed, and again 700 s after all others left. Non-trivial: at least one misbehaving client reached the server.',
    measure: LOG, components: srvParts(), assumptions: srvAssume(),
  },
  C15: {
    rule: 'Each run draws host and port flags and faults of resolving, opening, binding and listening at start-up and of accepting later (transient and permanent, in sequences), and checks address, continued service, exit status and message. Non-trivial: at least one fault, or more than one goroutine to choose from.',
    measure: LOG, components: srvParts(), assumptions: srvAssume(),
  },
  C19: {
    rule: 'Each run starts the real server program and sends it five waves of 10 to 50 clients with ever-new paths, queries, user agents, headers, hosts, conditions, ranges, methods or encodings (one kind, a few or all), among them misbehaving and disturbed ones. Each wave is followed by 700 s of simulated quiet and forced collections, after which the process says what it holds. Growth is confirmed with waves 12 times as large, and must be there still after 100 hours of quiet, a few more visitors and another 100 hours. Non-trivial: every wave reached the server.',
    measure: LOG, components: srvParts(), assumptions: srvAssume(),
  },
  C16: {
    rule: 'Each run loads the published page, its scripts and the compiled parser in a simulated browser, draws what the user types and clicks and when, delays of scripts, fetch, body and compilation, failures of each (network error, 404, 503, cut body, stall, wrong content, script missing) and whether streaming compilation exists; the decider orders all events. After every quiet state the visible result is compared with the outcome of the latest accepted submission. Non-trivial: at least one ordering or delay choice.',
    measure: LOG,
    components: { real: ['index.html, index.js, the vendored glue bundle and the style sheets of the working tree', 'cmd/parse-wasm and the library, compiled for js/wasm (documented build, or with host-scheduled goroutines)'], stub: ['browser: document, events, form submission, event loop, timers, fetch, WebAssembly compilation timing (simulator)', 'the web server: the published files are read from the tree, the parser is compiled from it', 'the user'] },
    assumptions: [...TRUST, LIB_ORACLE, 'style sheets hide or show elements only through display and visibility rules of simple id and class selectors'],
  },
  C17: {
    rule: 'Each run starts the real server program and opens its page in a simulated browser over simulated connections, one to three times, and has a user type and submit. It draws latencies, jitter, buffer sizes, segment sizes, connection faults and connections that break, end or stall after a drawn number of bytes; the decider orders goroutines, deliveries, readiness, faults, browser events and the user. Requests of the page are served to a fixed point. Non-trivial: more than one goroutine to choose from.',
    measure: LOG,
    components: { real: ['cmd/server-wasm with its embedded files, among them the parser module compiled from the working tree', 'index.html, index.js, glue bundle, style sheets as the server delivered them', 'cmd/parse-wasm and the library, running in the page from the delivered bytes', 'net/http and package net above the socket layer', SCHED], stub: ['sockets and network: simulator', 'browser: HTTP client with cache, redirects, content codings, content security policy and media type rules, document, events, event loop, WebAssembly compilation timing (simulator)', 'the user', WASI] },
    assumptions: [...TRUST, LIB_ORACLE, 'the browser rules modelled are the ones that decide whether this page runs', 'TCP delivers bytes in order'],
  },
};
function cliText(tool) {
  return {
    rule: 'Each run draws 0-200 arguments, environment, start time, kind of descriptor (file, terminal, socket, blocking or not) and a plan of faults for standard output and standard error; the seeded decider then fixes the fate of every single write (complete, short, interrupted, would block, disk full, quota, file too large, I/O error, closed pipe, bad descriptor, part of the data and then failure for good). Non-trivial: at least one fault happened.',
    measure: LOG,
    components: { real: [`${tool}, unmodified, with the library, compiled from the working tree by the stock compiler for wasip1`, 'Go runtime and packages os, bufio, fmt, encoding/json'], stub: [WASI + '; it decides each fd_write and poll'] },
    assumptions: [...TRUST, 'the fault-free output is itself compared with the answers of the library', 'writes reach the process through fd_write; a write that reports success has delivered its bytes'],
  };
}
function jsParts() { return { real: ['cmd/parse-wasm and the library, compiled for js/wasm from the working tree', 'wasm_exec.js of the Go installation and the glue bundle of the page', 'promises and microtasks of the JavaScript engine'], stub: ['event loop, timers, clock, random numbers, console and file descriptors: simulator', 'goroutine choice and, in some runs, preemption at memory accesses: host'] }; }
function srvParts() { return { real: ['cmd/server-wasm with its embedded files, compiled from the working tree', 'net/http and package net above the socket layer', SCHED], stub: ['sockets, network, name files: simulator (package net obtains listening sockets from it; accepted connections go through the normal poll and read and write paths)', 'WebAssembly files that git ignores: small stand-ins embedded in their place', 'clients: the harness', WASI] }; }
function srvAssume() { return [...TRUST, 'net/http reports and handles the errors of the connections it is given', 'TCP delivers bytes in order: connections split, delay, stop or break, but do not reorder or alter bytes']; }
