// Builds the simulation toolchain from the installed Go: a copy of the Go
// compiler that can instrument memory accesses for wasm, and a set of patched
// runtime files.  Nothing under GOROOT or /repo is written: patched files are
// generated into /verif/build and handed to `go build -overlay`.
import fs from 'node:fs';
import path from 'node:path';
import { spawnSync } from 'node:child_process';
import { createHash } from 'node:crypto';
import { fileURLToPath } from 'node:url';

export const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));
export const REPO = process.env.VERIF_REPO || '/repo';
export const GOROOT = process.env.VERIF_GOROOT || '/opt/veriftools/go1.27.3';
export const BUILD = path.join(VERIF, 'build');
const SRC = path.join(GOROOT, 'src');

export class BuildError extends Error {}

export function goEnv(extra = {}) {
  const env = {
    PATH: `${GOROOT}/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin`,
    HOME: path.join(BUILD, 'home'), GOPATH: path.join(BUILD, 'home', 'go'),
    GOROOT, GOTOOLCHAIN: 'local', GOPROXY: 'off', GOFLAGS: '-mod=readonly',
    GOWORK: 'off', GOTELEMETRY: 'off', GOENV: 'off', CGO_ENABLED: '0',
    GOCACHE: path.join(BUILD, 'gocache'), LC_ALL: 'C',
    ...extra,
  };
  fs.mkdirSync(env.HOME, { recursive: true });
  return env;
}

export function go(args, { cwd = REPO, env = {}, quiet = false } = {}) {
  const r = spawnSync(path.join(GOROOT, 'bin/go'), args, { cwd, env: goEnv(env), encoding: 'utf8', maxBuffer: 1 << 28 });
  if (r.error) throw r.error;
  if (r.status !== 0 && !quiet) throw new BuildError(`go ${args.join(' ')} (in ${cwd})\n${r.stdout}${r.stderr}`);
  return r;
}

function replaceOnce(text, from, to, what) {
  const i = text.indexOf(from);
  if (i < 0 || text.indexOf(from, i + 1) >= 0) throw new BuildError(`patch does not apply: ${what}: ${JSON.stringify(from.slice(0, 80))}`);
  return text.slice(0, i) + to + text.slice(i + from.length);
}
function replaceAll(text, from, to, what) {
  if (!text.includes(from)) throw new BuildError(`patch does not apply: ${what}: ${from}`);
  return text.split(from).join(to);
}

function writeIfChanged(file, text) {
  fs.mkdirSync(path.dirname(file), { recursive: true });
  try { if (fs.readFileSync(file, 'utf8') === text) return; } catch {}
  fs.writeFileSync(file, text);
}

function patched(rel, edit, outdir) {
  const out = path.join(outdir, rel.replaceAll('/', '__'));
  writeIfChanged(out, edit(fs.readFileSync(path.join(SRC, rel), 'utf8')));
  return out;
}

// ---- the compiler ---------------------------------------------------------

export function ensureCompiler() {
  const dir = path.join(BUILD, 'toolchain');
  const bin = path.join(dir, 'compile');
  const ov = path.join(dir, 'compiler-overlay.json');
  const P = (rel, edit) => patched(rel, edit, path.join(dir, 'compiler-src'));
  const replace = {};
  const put = (rel, edit) => { replace[path.join(SRC, rel)] = P(rel, edit); };
  put('cmd/compile/internal/base/flag.go', t => {
    t = replaceOnce(t, 'if Flag.Race && !platform.RaceDetectorSupported(buildcfg.GOOS, buildcfg.GOARCH) {', 'if Flag.Race && buildcfg.GOARCH != "wasm" {', 'race support');
    return replaceOnce(t, 'if Flag.Race || Flag.MSan || Flag.ASan {\n\t\t// -race', 'if Flag.MSan || Flag.ASan {\n\t\t// -race', 'checkptr');
  });
  put('cmd/compile/internal/ssagen/ssa.go', t => {
    t = replaceOnce(t, 'else if base.Flag.Race && t.NumComponents(types.CountBlankFields) > 1 {', 'else if base.Flag.Race {', 'race width');
    return replaceOnce(t, 'if base.Flag.Race {\n\t\t\t\ts.instrumentEnterExit = true\n\t\t\t}', '', 'race enter/exit');
  });
  writeIfChanged(ov, JSON.stringify({ Replace: replace }, null, 1));
  const stamp = createHash('sha256').update(fs.readFileSync(ov));
  for (const f of Object.values(replace).sort()) stamp.update(fs.readFileSync(f));
  const want = stamp.digest('hex').slice(0, 24);
  const stampFile = path.join(dir, 'compile.stamp');
  let have = ''; try { have = fs.readFileSync(stampFile, 'utf8'); } catch {}
  if (have !== want || !fs.existsSync(bin)) {
    go(['build', '-overlay', ov, '-o', bin, 'cmd/compile'], { cwd: path.join(SRC, 'cmd'), env: { GOFLAGS: '-mod=vendor' } });
    fs.writeFileSync(stampFile, want);
  }
  // -toolexec wrapper: swaps in the patched compiler
  const wrap = path.join(dir, 'toolexec');
  writeIfChanged(wrap, `#!/bin/sh
tool="$1"; shift
case "$tool" in
*/compile)
  if [ "$1" = "-V=full" ]; then echo "compile version go1.27.3 verifsim-${want}"; exit 0; fi
  exec ${bin} "$@";;
esac
exec "$tool" "$@"
`);
  fs.chmodSync(wrap, 0o755);
  return wrap;
}

// ---- the runtime ----------------------------------------------------------

const GENERATED_ROOT = path.join(BUILD, 'goroot-patched');

// Overlay entries that put goroutine scheduling and (when instrumented) memory
// accesses under the host's control.
export function runtimeOverlay({ raceMaps = true, net = false } = {}) {
  const replace = {};
  const put = (rel, edit) => { replace[path.join(SRC, rel)] = patched(rel, edit, GENERATED_ROOT); };
  put('runtime/proc.go', t => {
    if (raceMaps) {
      t = replaceOnce(t, 'newg.parentGoid = callergp.goid\n', 'newg.parentGoid = callergp.goid\n\tverifGoStart(callergp, newg)\n', 'newproc1');
      t = replaceOnce(t, 'casgstatus(gp, _Grunning, _Gdead)\n', 'casgstatus(gp, _Grunning, _Gdead)\n\tverifGoEnd(gp)\n', 'gdestroy');
    }
    t = replaceOnce(t, 'if pp.schedtick%61 == 0 && !sched.runq.empty() {', 'if false && pp.schedtick%61 == 0 && !sched.runq.empty() {', 'schedtick');
    return replaceOnce(t, '\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {',
      '\tif gp := verifRunnable(pp); gp != nil {\n\t\treturn gp, false, false\n\t}\n\n\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {', 'findRunnable');
  });
  // waiting for signals, which never come here, sleeps instead of spinning
  put('runtime/lock_wasip1.go', t => replaceOnce(t, '\tdeadline := nanotime() + ns\n\tfor {\n', '\tfor ns < 0 && n.key == 0 {\n\t\ttimeSleep(3600e9)\n\t}\n\tdeadline := nanotime() + ns\n\tfor {\n', 'notetsleepg'));
  if (raceMaps) {
    const raceOn = t => replaceAll(t, 'if raceenabled ', 'if verifRaceHooks ', 'raceenabled');
    put('runtime/slice.go', raceOn);
    put('runtime/string.go', raceOn);
    put('runtime/mbarrier.go', t => replaceAll(t, 'if raceenabled {', 'if verifRaceHooks {', 'raceenabled'));
    for (const f of ['chan', 'select', 'map', 'metrics', 'type', 'runtime']) put(`runtime/${f}.go`, t => replaceAll(t, 'if raceenabled ', 'if verifRaceHooks ', 'raceenabled'));
    // finalizers and cleanups come after everything that happened before the collection
    put('runtime/mfinal.go', t => replaceOnce(t, '\t\tif raceenabled {\n\t\t\tracefingo()\n', '\t\tif verifRaceHooks {\n\t\t\tverifAfterAll()\n', 'finalizers'));
    put('runtime/mcleanup.go', t => replaceOnce(t, '\t\t\t// Execute the next cleanup.\n', '\t\t\tverifAfterAll()\n', 'cleanups'));
    put('runtime/mgc.go', t => replaceOnce(t, '\tsetGCPhase(_GCmarktermination)\n', '\tsetGCPhase(_GCmarktermination)\n\tverifGCDone()\n', 'mark termination'));
    put('runtime/atomic_pointer.go', t => {
      const i = t.indexOf('//go:linkname sync_atomic_StoreUintptr'), j = t.indexOf('func sync_atomic_CompareAndSwapPointer');
      if (i < 0 || j < i) throw new BuildError('patch does not apply: atomic_pointer');
      return t.slice(0, i) + t.slice(t.indexOf('\n}\n', j) + 3);
    });
    const at = path.join(GENERATED_ROOT, 'sync-atomic');
    writeIfChanged(at + '.go', atomicsGo());
    writeIfChanged(at + '_empty.go', 'package atomic\n');
    writeIfChanged(at + '.s', '// all of it is in Go\n');
    replace[path.join(SRC, 'sync/atomic/doc.go')] = at + '.go';
    replace[path.join(SRC, 'sync/atomic/doc_64.go')] = replace[path.join(SRC, 'sync/atomic/doc_32.go')] = at + '_empty.go';
    replace[path.join(SRC, 'sync/atomic/asm.s')] = at + '.s';
    put('runtime/race0.go', t => {
      for (const f of ['raceacquire', 'raceacquireg', 'raceacquirectx', 'racerelease', 'racereleaseg', 'racereleaseacquire', 'racereleaseacquireg', 'racereleasemerge', 'racereleasemergeg',
        'raceReadObjectPC', 'raceWriteObjectPC', 'racewritepc', 'racereadpc', 'racereadrangepc', 'racewriterangepc'])
        t = t.replace(new RegExp(`^func ${f}\\(.*$`, 'm'), '');
      return t;
    });
    put('internal/race/norace.go', t => {
      t = replaceOnce(t, 'const Enabled = false', 'const Enabled = true', 'race.Enabled');
      for (const [f, a, c] of [
        ['Acquire', 'addr unsafe.Pointer', 'verifRaceSync(addr, 0)'],
        ['Release', 'addr unsafe.Pointer', 'verifRaceSync(addr, 1)'],
        ['ReleaseMerge', 'addr unsafe.Pointer', 'verifRaceSync(addr, 1)'],
        ['Disable', '', 'verifRaceSync(nil, 2)'],
        ['Enable', '', 'verifRaceSync(nil, 3)'],
        ['Read', 'addr unsafe.Pointer', 'verifAccess(addr, 1, 0, 0)'],
        ['Write', 'addr unsafe.Pointer', 'verifAccess(addr, 1, 1, 0)'],
        ['ReadPC', 'addr unsafe.Pointer, callerpc, pc uintptr', 'verifAccess(addr, 1, 0, callerpc)'],
        ['WritePC', 'addr unsafe.Pointer, callerpc, pc uintptr', 'verifAccess(addr, 1, 1, callerpc)'],
        ['ReadObjectPC', 't *abi.Type, addr unsafe.Pointer, callerpc, pc uintptr', 'verifAccess(addr, t.Size_, 0, callerpc)'],
        ['WriteObjectPC', 't *abi.Type, addr unsafe.Pointer, callerpc, pc uintptr', 'verifAccess(addr, t.Size_, 1, callerpc)'],
        ['ReadRange', 'addr unsafe.Pointer, len int', 'verifAccess(addr, uintptr(len), 0, 0)'],
        ['WriteRange', 'addr unsafe.Pointer, len int', 'verifAccess(addr, uintptr(len), 1, 0)'],
      ]) t = replaceOnce(t, `func ${f}(${a}) {\n}`, `func ${f}(${a}) {\n\t${c}\n}`, f);
      return t + '\n//go:linkname verifAccess\nfunc verifAccess(addr unsafe.Pointer, size, write, pc uintptr)\n\n//go:linkname verifRaceSync\nfunc verifRaceSync(addr unsafe.Pointer, op int)\n';
    });
  }
  replace[path.join(SRC, 'runtime/zz_verif_sched.go')] = path.join(VERIF, 'go/rt/zz_verif_sched.go');
  replace[path.join(SRC, 'runtime/zz_verif_poll.go')] = path.join(VERIF, `go/rt/zz_verif_${net ? 'poll' : 'nopoll'}.go`);
  if (raceMaps) for (const f of ['mem', 'hb']) replace[path.join(SRC, `runtime/zz_verif_${f}.go`)] = path.join(VERIF, `go/rt/zz_verif_${f}.go`);
  return replace;
}

// sync/atomic in Go, each operation announced to the simulator before it
// happens (the simulated process has one thread and switches goroutines only
// where the simulator says, so plain code is atomic).
function atomicsGo() {
  let t = '// Package atomic, as the simulator builds it.\npackage atomic\n\nimport "unsafe"\n\n//go:linkname verifAtomic runtime.verifAtomic\n//go:noescape\nfunc verifAtomic(addr unsafe.Pointer, size uintptr, kind int)\n';
  const fn = (sig, T, kind, body) => { t += `\n//go:norace\nfunc ${sig} {\n\tverifAtomic(unsafe.Pointer(addr), unsafe.Sizeof(*addr), ${kind})\n${body.map(l => '\t' + l + '\n').join('')}}\n`; };
  for (const [N, T] of [['Int32', 'int32'], ['Uint32', 'uint32'], ['Uintptr', 'uintptr'], ['Int64', 'int64'], ['Uint64', 'uint64'], ['Pointer', 'unsafe.Pointer']]) {
    fn(`Load${N}(addr *${T}) (val ${T})`, T, 0, ['return *addr']);
    fn(`Store${N}(addr *${T}, val ${T})`, T, 1, ['*addr = val']);
    fn(`Swap${N}(addr *${T}, new ${T}) (old ${T})`, T, 3, ['old = *addr', '*addr = new', 'return old']);
    fn(`CompareAndSwap${N}(addr *${T}, old, new ${T}) (swapped bool)`, T, 3, ['if *addr != old {', '\treturn false', '}', '*addr = new', 'return true']);
    if (N === 'Pointer') continue;
    fn(`Add${N}(addr *${T}, delta ${T}) (new ${T})`, T, 3, ['*addr += delta', 'return *addr']);
    fn(`And${N}(addr *${T}, mask ${T}) (old ${T})`, T, 3, ['old = *addr', '*addr &= mask', 'return old']);
    fn(`Or${N}(addr *${T}, mask ${T}) (old ${T})`, T, 3, ['old = *addr', '*addr |= mask', 'return old']);
  }
  return t;
}

export function writeOverlay(name, replace) {
  const f = path.join(BUILD, 'overlay', name + '.json');
  writeIfChanged(f, JSON.stringify({ Replace: replace }, null, 1));
  return f;
}

// ---- artifacts --------------------------------------------------------------

function overlayDir(replace, dir, pkgPath) {
  for (const f of fs.readdirSync(path.join(VERIF, 'go', dir))) if (f.endsWith('.go')) replace[path.join(REPO, pkgPath, f)] = path.join(VERIF, 'go', dir, f);
}

// An environment variable nobody set may be set all the same, and the local
// time zone is any, if the host says so.
function ambientOverlay(replace) {
  replace[path.join(SRC, 'syscall/env_unix.go')] = patched('syscall/env_unix.go', t => replaceOnce(t, '\ti, ok := env[key]\n\tif !ok {\n\t\treturn "", false\n\t}\n\ts := envs[i]\n', '\ti, ok := env[key]\n\tif !ok {\n\t\treturn verifGetenv(key)\n\t}\n\ts := envs[i]\n', 'Getenv'), GENERATED_ROOT);
  replace[path.join(SRC, 'syscall/zz_verif_env.go')] = path.join(VERIF, 'go/syscall/zz_verif_env.go');
  replace[path.join(SRC, 'time/zoneinfo_wasip1.go')] = path.join(VERIF, 'go/time/zz_verif_zone.go');
}

// The library under the simulated runtime. mem: memory accesses interleaved.
export function buildLib({ mem }) {
  const wrap = mem ? ensureCompiler() : null;
  const replace = runtimeOverlay({ raceMaps: mem });
  overlayDir(replace, 'libsim', 'zzverif/libsim');
  ambientOverlay(replace);
  const name = mem ? 'libsim-mem' : 'libsim';
  const ov = writeOverlay(name, replace);
  const out = path.join(BUILD, name + '.wasm');
  const args = core => ['build', '-trimpath', '-overlay', ov, ...(mem ? ['-toolexec', wrap, '-gcflags=all=-race'] : []),
    '-tags', [mem ? 'verifsim' : 'verifplain', ...(core ? ['verifcore'] : [])].join(','), '-o', out, './zzverif/libsim'];
  const env = { GOOS: 'wasip1', GOARCH: 'wasm' };
  const r = go(args(false), { env, quiet: true });
  if (r.status === 0) return { file: out, core: false };
  go(args(true), { env });
  return { file: out, core: true };
}

// A command for wasip1.  stock: unmodified, stock compiler and runtime; sched:
// its goroutines are scheduled by the host from the start; mem: also preempted
// at memory accesses, and watched for data races.
export function buildTool(name, pkg, kind = 'stock') {
  const env = { GOOS: 'wasip1', GOARCH: 'wasm' };
  const out = path.join(BUILD, name + (kind === 'stock' ? '' : '-' + kind) + '.wasm');
  if (kind === 'stock') { go(['build', '-trimpath', '-o', out, pkg], { env }); return out; }
  const mem = kind === 'mem';
  const wrap = mem ? ensureCompiler() : null;
  const replace = runtimeOverlay({ raceMaps: mem });
  overlayDir(replace, 'toolsim', pkg);
  ambientOverlay(replace);
  const ov = writeOverlay(`${name}-${kind}`, replace);
  go(['build', '-trimpath', '-overlay', ov, ...(mem ? ['-toolexec', wrap, '-gcflags=all=-race', '-tags', 'verifsim'] : []), '-o', out, pkg], { env });
  return out;
}

// The web server for wasip1, its sockets opened and driven by the host, and
// the WebAssembly files that git ignores replaced by small stand-ins.
export const STAND_IN = { 'parse-js.wasm': 300_001, 'parse-p1.wasm': 70_003 };
export function standIn(name) {
  const b = Buffer.alloc(STAND_IN[name]); let x = 0x2545f491 ^ STAND_IN[name];
  for (let i = 0; i < b.length; i++) { x ^= x << 13; x ^= x >>> 17; x ^= x << 5; b[i] = x >>> 11; }
  Buffer.from([0, 0x61, 0x73, 0x6d, 1, 0, 0, 0]).copy(b); return b;
}
export function buildServer(kind) {
  const mem = kind === 'mem';
  const wrap = mem ? ensureCompiler() : null;
  const replace = runtimeOverlay({ raceMaps: mem, net: true });
  ambientOverlay(replace);
  overlayDir(replace, 'toolsim', './cmd/server-wasm'); // kind 'site': with the parser module as it is compiled from the tree
  const put = (rel, edit) => { replace[path.join(SRC, rel)] = patched(rel, edit, GENERATED_ROOT); };
  put('net/net_fake.go', t => replaceOnce(t, '\tfd := &netFD{\n\t\tfamily: family,\n\t\tsotype: sotype,\n\t\tnet:    net,\n\t}\n\tfd.fakeNetFD = newFakeNetFD(fd)\n',
    '\tif raddr != nil || sotype != syscall.SOCK_STREAM {\n\t\treturn nil, os.NewSyscallError("connect", syscall.ECONNREFUSED)\n\t}\n\tif true {\n\t\treturn verifListen(net, family, laddr)\n\t}\n\tfd := &netFD{\n\t\tfamily: family,\n\t\tsotype: sotype,\n\t\tnet:    net,\n\t}\n\tfd.fakeNetFD = newFakeNetFD(fd)\n', 'socket'));
  put('net/fd_fake.go', t => {
    t = replaceOnce(t, '\tnetfd = newFD("tcp", d)\n', '\tnetfd = newFD("tcp", d)\n\tverifPeer(fd, netfd)\n', 'accept');
    return t;
  });
  put('syscall/syscall_wasip1.go', t => replaceOnce(t, 'e == EINTR || e == EMFILE ||', 'e == EINTR || e == EMFILE || e == ENFILE ||', 'Temporary')); // as on Linux
  put('runtime/netpoll_wasip1.go', t => replaceOnce(t, 'func netpoll(delay int64) (gList, int32) {\n', '//go:wasmimport verif idle\nfunc verif_idle(n uint32)\n\nfunc netpoll(delay int64) (gList, int32) {\n\tverif_idle(uint32(gcount(false)))\n', 'netpoll'));
  replace[path.join(SRC, 'net/zz_verif_net.go')] = path.join(VERIF, 'go/net/zz_verif_net.go');
  for (const f of Object.keys(STAND_IN)) {
    const out = path.join(BUILD, kind === 'site' ? 'standin-site' : 'standin', f); fs.mkdirSync(path.dirname(out), { recursive: true });
    const b = kind === 'site' && f === 'parse-js.wasm' ? fs.readFileSync(buildJs('stock')) : standIn(f); let have = null; try { have = fs.readFileSync(out); } catch {}
    if (!have || !have.equals(b)) fs.writeFileSync(out, b);
    replace[path.join(REPO, 'wasm', f)] = out;
  }
  const ov = writeOverlay('server-' + kind, replace);
  const out = path.join(BUILD, 'server-' + kind + '.wasm');
  go(['build', '-trimpath', '-overlay', ov, ...(mem ? ['-toolexec', wrap, '-gcflags=all=-race', '-tags', 'verifsim'] : []), '-o', out, './cmd/server-wasm'], { env: { GOOS: 'wasip1', GOARCH: 'wasm' } });
  return out;
}

// The JavaScript program: the documented build, or with the simulated runtime
// and the stand-in controls laid over it.
export function buildJs(kind) {
  const out = path.join(BUILD, `parse-js-${kind}.wasm`);
  const env = { GOOS: 'js', GOARCH: 'wasm' };
  if (kind === 'stock') { go(['build', '-trimpath', '-ldflags=-s -w', '-tags', 'wasmjs', '-o', out, './cmd/parse-wasm'], { env }); return out; }
  const mem = kind === 'mem';
  const wrap = mem ? ensureCompiler() : null;
  const replace = runtimeOverlay({ raceMaps: mem });
  overlayDir(replace, 'jssim', 'cmd/parse-wasm');
  const ov = writeOverlay('js-' + kind, replace);
  go(['build', '-trimpath', '-overlay', ov, ...(mem ? ['-toolexec', wrap, '-gcflags=all=-race'] : []), '-tags', 'wasmjs' + (mem ? ',verifsim' : ''), '-o', out, './cmd/parse-wasm'], { env });
  return out;
}

// short string literals of the tree's own sources: names and values a program
// might look for in its surroundings (only used to draw inputs from)
export function dictionary() {
  const out = new Set();
  const walk = (dir, deep) => {
    for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
      if (/^[._]/.test(e.name) || ['node_modules', 'docs', 'tests', 'testdata'].includes(e.name)) continue;
      const f = path.join(dir, e.name);
      if (e.isDirectory()) walk(f);
      else if (/\.go$/.test(e.name) && !/(_test|^tests)\.go$/.test(e.name)) for (const m of fs.readFileSync(f, 'utf8').replace(/^\s*import \((.|\n)*?\n\)/m, '').matchAll(/"([\w.:\/=,+%?&*!~-]{1,24})"|`([\w.:\/=,+-]{1,24})`/g)) out.add(m[1] ?? m[2]);
    }
  };
  walk(REPO); return [...out].sort();
}
