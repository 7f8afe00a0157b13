// A WASI preview-1 host owned by the simulator.  It implements what Go's
// wasip1 port calls; clocks, entropy, scheduling, standard streams and polling
// are all answered from the run's plan and Decider.
import { Rng } from './prng.mjs';
import { overlay } from './disk.mjs';

export class Exit { constructor(code) { this.code = code; } }
export class Abort { constructor(kind, detail) { this.kind = kind; this.detail = detail; } }

export const E = { SUCCESS: 0, ACCES: 2, AGAIN: 6, BADF: 8, DQUOT: 19, EXIST: 20, FBIG: 22, INTR: 27, INVAL: 28, IO: 29, NOENT: 44, NOSPC: 51, NOSYS: 52, PIPE: 64, NOTCAPABLE: 76 };
const enc = new TextEncoder();
const dec = new TextDecoder();

// opts: args, env (array of K=V), stdin (Uint8Array), decider, clock {wall, mono, tick, jumps}, entropy,
//       onWrite(fd, bytes, n) -> {errno} | {n} | {block:true} | {abort}, nonblock:Set(fd), limits {picks, calls},
//       verif: extra imports, sched: draw function for picks
export class Host {
  constructor(module, opts) {
    this.module = module; this.o = opts; this.d = opts.decider;
    this.wall = BigInt(opts.clock?.wall ?? 1700000000) * 1000000000n;
    this.mono = BigInt(opts.clock?.mono ?? 1) * 1000000n;
    this.tick = BigInt(opts.clock?.tick ?? 1000);
    this.ent = new Rng('entropy/' + (opts.entropy ?? 0));
    this.out = { 1: [], 2: [] };
    this.open = new Map();
    this.nCalls = 0; this.nPicks = 0; this.nMulti = 0; this.clockReads = 0; this.idleNs = 0n;
    this.frames = [[], []];
    this.memPos = [0, 0];
    this.maxCalls = opts.limits?.calls ?? 2_000_000;
  }
  dv() { const b = this.mem.buffer; if (this._b !== b) { this._b = b; this._dv = new DataView(b); this._u8 = new Uint8Array(b); } return this._dv; }
  u8() { this.dv(); return this._u8; }
  str(p, n) { return dec.decode(this.u8().subarray(p, p + n)); }
  step() { if (++this.nCalls > this.maxCalls) throw new Abort('step-limit', `more than ${this.maxCalls} host calls`); }
  jump(i) { // clock faults: plan.clock.jumps = [[readIndex, wallDeltaSeconds]]
    for (const [at, delta] of this.o.clock?.jumps ?? []) if (at === i) { this.wall += BigInt(delta) * 1000000000n; this.d.fault('clock-jump'); this.d.event('clock jump ' + delta + 's'); }
  }
  imports() {
    const self = this, o = this.o, d = this.d;
    const list = (arr) => ({
      sizes: (pc, ps) => { const v = self.dv(); v.setUint32(pc, arr.length, true); v.setUint32(ps, arr.reduce((s, x) => s + enc.encode(x).length + 1, 0), true); return 0; },
      get: (pp, pb) => { for (const s of arr) { const e = enc.encode(s); self.dv().setUint32(pp, pb, true); pp += 4; self.u8().set(e, pb); self.u8()[pb + e.length] = 0; pb += e.length + 1; } return 0; },
    });
    const A = list(o.args ?? ['prog']), V = list(o.env ?? []);
    const gather = (iov, n) => {
      const parts = []; let total = 0;
      for (let i = 0; i < n; i++) { const p = self.dv().getUint32(iov + 8 * i, true), l = self.dv().getUint32(iov + 8 * i + 4, true); parts.push(self.u8().slice(p, p + l)); total += l; }
      if (parts.length === 1) return parts[0];
      const b = new Uint8Array(total); let k = 0; for (const p of parts) { b.set(p, k); k += p.length; } return b;
    };
    const wasi = {
      args_sizes_get: A.sizes, args_get: A.get, environ_sizes_get: V.sizes, environ_get: V.get,
      random_get: (p, n) => { const u = self.u8(); for (let i = 0; i < n; i++) u[p + i] = self.ent.u32() & 255; return 0; },
      clock_time_get: (id, prec, p) => {
        self.step();
        if (id === 0) { self.jump(self.clockReads); self.clockReads++; }
        self.wall += self.tick; self.mono += self.tick;
        self.dv().setBigUint64(p, id === 0 ? self.wall : self.mono, true); return 0;
      },
      sched_yield: () => 0,
      proc_exit: c => { throw new Exit(c); },
      fd_write: (fd, iov, n, pn) => {
        self.step();
        if (fd !== 1 && fd !== 2) return E.BADF;
        const b = gather(iov, n);
        const r = o.onWrite ? o.onWrite(fd, b, self) : { n: b.length };
        if (r.abort) throw r.abort;
        if (r.errno) return r.errno;
        self.out[fd].push(b.slice(0, r.n));
        self.dv().setUint32(pn, r.n, true);
        return 0;
      },
      fd_read: (fd, iov, n, pn) => {
        self.step();
        const f = fd === 0 ? self.fd0 ??= { data: o.stdin ?? new Uint8Array(0), pos: 0 } : self.open.get(fd);
        if (!f) return E.BADF;
        if (fd === 0 && o.stdinFate) { d.fault('stdin-' + o.stdinFate); if (o.stdinFate === 'silent') throw new Abort('hang', 'waits for standard input, which never comes'); return o.stdinFate === 'closed' ? E.BADF : E.IO; }
        let t = 0;
        for (let i = 0; i < n && f.pos < f.data.length; i++) {
          const p = self.dv().getUint32(iov + 8 * i, true), l = self.dv().getUint32(iov + 8 * i + 4, true);
          const k = Math.min(l, f.data.length - f.pos);
          self.u8().set(f.data.subarray(f.pos, f.pos + k), p); f.pos += k; t += k;
        }
        self.dv().setUint32(pn, t, true); return 0;
      },
      fd_close: fd => { self.open.delete(fd); return 0; },
      fd_fdstat_get: (fd, p) => {
        if (fd > 2 && !self.open.has(fd) && !(o.files && fd === 3)) return E.BADF;
        if (fd > 2) { self.u8().fill(0, p, p + 24); self.dv().setUint8(p, fd === 3 ? 3 : 4); self.dv().setBigUint64(p + 8, 0xffffffffn, true); self.dv().setBigUint64(p + 16, 0xffffffffn, true); return 0; }
        self.u8().fill(0, p, p + 24); const v = self.dv();
        v.setUint8(p, o.filetype?.[fd] ?? 2); v.setUint16(p + 2, o.nonblock?.has(fd) ? 4 : 0, true); v.setBigUint64(p + 8, 0xffffffffn, true); return 0;
      },
      fd_fdstat_set_flags: () => 0,
      fd_filestat_get: (fd, p) => { const f = self.open.get(fd); if (fd > 2 && !f) return E.BADF; self.u8().fill(0, p, p + 64); self.dv().setUint8(p + 16, f ? 4 : o.filetype?.[fd] ?? 2); if (fd === 0 && o.filetype?.[0] === 4 && o.stdin) self.dv().setBigUint64(p + 32, BigInt(o.stdin.length), true); if (f) self.dv().setBigUint64(p + 32, BigInt(f.data.length), true); return 0; },
      fd_prestat_get: (fd, p) => { if (!o.files || fd !== 3) return E.BADF; self.dv().setUint32(p, 0, true); self.dv().setUint32(p + 4, 1, true); return 0; },
      fd_prestat_dir_name: (fd, p) => { if (!o.files || fd !== 3) return E.BADF; self.u8()[p] = 47; return 0; },
      path_open: (dir, lookup, pp, pn, oflags, r1, r2, fl, pfd) => {
        self.step();
        const name = self.str(pp, pn), data = o.files?.(name);
        if (!data) return E.NOENT;
        d.fault('unexpected-file'); d.event('open ' + name);
        let fd = 4; while (self.open.has(fd)) fd++;
        self.open.set(fd, { data, pos: 0 }); self.dv().setUint32(pfd, fd, true); return 0;
      },
      path_filestat_get: (dir, lookup, pp, pn, p) => {
        self.step();
        const name = self.str(pp, pn), data = o.files?.(name);
        if (!data) return E.NOENT;
        d.fault('unexpected-file'); d.event('stat ' + name);
        self.u8().fill(0, p, p + 64); self.dv().setUint8(p + 16, 4); self.dv().setBigUint64(p + 32, BigInt(data.length), true); return 0;
      },
      poll_oneoff: (pin, pout, n, pn) => {
        self.step();
        const v = self.dv(); let best = null; const ready = [];
        for (let i = 0; i < n; i++) {
          const b = pin + 48 * i, tag = v.getUint8(b + 8), ud = v.getBigUint64(b, true);
          if (tag === 0) {
            const clk = v.getUint32(b + 16, true), to = v.getBigUint64(b + 24, true), abs = v.getUint16(b + 40, true) & 1;
            const now = clk === 0 ? self.wall : self.mono;
            const wait = abs ? (to > now ? to - now : 0n) : to;
            if (best === null || wait < best.wait) best = { wait, ud };
          } else ready.push({ ud, tag, fd: v.getUint32(b + 16, true) });
        }
        const evs = [];
        for (const r of ready) { const w = o.onPoll ? o.onPoll(r.fd, r.tag, self) : true; if (w) evs.push(r); }
        if (!evs.length) {
          if (best === null) throw new Abort('hang', 'every task waits for an event that cannot come');
          self.wall += best.wait; self.mono += best.wait; self.idleNs += best.wait;
          d.event('idle ' + best.wait);
          evs.push({ ud: best.ud, tag: 0 });
        }
        let p = pout;
        for (const e of evs) { self.u8().fill(0, p, p + 32); v.setBigUint64(p, e.ud, true); v.setUint8(p + 10, e.tag); if (e.tag) v.setBigUint64(p + 16, 65536n, true); p += 32; }
        v.setUint32(pn, evs.length, true); return 0;
      },
    };
    const verif = {
      pick: n => {
        self.step(); self.nPicks++;
        if (n > 1) self.nMulti++;
        const k = d.choose('pick' + (o.tag ?? ''), 0, r => (o.sched ? o.sched(r, n, self) : r.int(n)));
        d.hash.num(1, n, k); if (d.log) d.log.push(`schedule: runnable task #${k} of ${n}`);
        return k < n ? k : 0;
      },
      preempt: kind => {
        self.step();
        if (o.cpu && self.memPos[kind]) { self.mono += BigInt(o.cpu); self.wall += BigInt(o.cpu); }
        const from = self.memPos[kind];
        const dist = d.nextPos((kind ? 'hot' : 'mem') + (o.tag ?? ''), from, r => (o.preempt ? o.preempt(r, kind, self) : Infinity));
        if (!(dist < 0xfffffff0)) return 0xffffffff;
        self.memPos[kind] = from + dist + 1;
        d.hash.num(2, kind, dist); if (d.log && from) d.log.push(`preempt at ${kind ? 'contended' : 'plain'} access ${from - 1}`);
        return dist;
      },
      frame: (who, p, n, line) => { if (self.frames[who].length < 16) self.frames[who].push(self.str(p, n) + ':' + line); },
      race: (w, ow, gid, ogid) => {
        if (w & 2) throw new Abort('race', `goroutine ${gid} ${w & 1 ? 'writes' : 'reads'} memory that goroutine ${ogid} ${ow ? 'wrote' : 'read'} before, and nothing orders the two; here: ${trimFrames(self.frames[0])}; there: ${trimFrames(self.frames[1])}`);
        throw new Abort('race', `goroutine ${gid} about to ${w ? 'write' : 'read'} memory that goroutine ${ogid} is about to ${ow ? 'write' : 'read'}; here: ${trimFrames(self.frames[0])}; there: ${trimFrames(self.frames[1])}`);
      },
      getenv: (p, n, buf, size) => {
        const key = self.str(p, n), v = o.anyEnv?.(key);
        if (v === undefined || v === null) return -1;
        d.fault('unexpected-environment-variable'); d.event(`getenv ${key}=${v}`);
        const e = enc.encode(v).subarray(0, size); self.u8().set(e, buf); return e.length;
      },
      zone: (p, size) => {
        const z = o.zone; if (!z) return 0;
        d.fault('time-zone'); d.event('zone ' + z);
        const m = /^([+-])(\d+)$/.exec(z), s = m && Number(m[2]), two = n => String(n).padStart(2, '0');
        const e = enc.encode(m ? `<SIM>${m[1] === '+' ? '-' : ''}${two(Math.floor(s / 3600))}:${two(Math.floor(s / 60) % 60)}` : z === 'UTC' ? 'UTC0' : z).subarray(0, size); self.u8().set(e, p); return e.length;
      },
      limit: n => { throw new Abort('step-limit', `no completion within ${n} memory accesses`); },
      emit: (p, n) => { const s = self.str(p, n); d.event('emit ' + s); (self.emits ??= []).push(s); },
      ...(o.verif ? o.verif(self) : {}),
    };
    if (o.disk) overlay(self, wasi);
    const imp = {};
    for (const { module, name, kind } of WebAssembly.Module.imports(this.module)) {
      if (kind !== 'function') continue;
      const t = module === 'verif' ? verif : wasi;
      (imp[module] ??= {})[name] = t[name] ?? ((...a) => { self.step(); (self.unknown ??= {})[name] = (self.unknown?.[name] ?? 0) + 1; return name.startsWith('path_') ? E.NOENT : E.NOSYS; });
    }
    return imp;
  }
  run() {
    const inst = new WebAssembly.Instance(this.module, this.imports());
    this.mem = inst.exports.memory; this.inst = inst;
    let r = { exit: 0 };
    try { inst.exports._start(); }
    catch (e) {
      if (e instanceof Exit) r.exit = e.code;
      else if (e instanceof Abort) { r.exit = null; r.abort = e; }
      else if (e instanceof WebAssembly.RuntimeError || e instanceof RangeError) { r.exit = null; r.abort = new Abort('trap', String(e)); }
      else throw e;
    }
    r.stdout = cat(this.out[1]); r.stderr = cat(this.out[2]); r.emits = this.emits ?? [];
    return r;
  }
}
function trimFrames(fr) { const own = fr.filter(f => f.includes('go-edtf')); return (own.length ? own : fr).slice(0, 6).join(' < '); }
export function cat(parts) { let n = 0; for (const p of parts) n += p.length; const b = new Uint8Array(n); let k = 0; for (const p of parts) { b.set(p, k); k += p.length; } return b; }
export function text(b) { return dec.decode(b); }
