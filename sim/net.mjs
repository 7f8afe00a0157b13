// A network owned by the simulator: the host side of the server's sockets, a
// small file system for its resolver, and the clients, all in simulated time.
import { Host, Abort, E as WE } from './wasi.mjs';

export const E = { ...WE, ADDRINUSE: 3, ADDRNOTAVAIL: 4, AFNOSUPPORT: 5, CONNABORTED: 13, CONNRESET: 15, MFILE: 33, NETUNREACH: 40, NFILE: 41, NOBUFS: 42, NOMEM: 48, PROTO: 65, TIMEDOUT: 73 };
const NS = 1e6; // ms -> ns
const enc = new TextEncoder();

class Heap { // events by (time, order of scheduling)
  constructor() { this.a = []; this.n = 0; }
  less(x, y) { return x.t < y.t || (x.t === y.t && x.s < y.s); }
  push(t, fn) { const a = this.a; a.push({ t, s: this.n++, fn }); let i = a.length - 1; while (i > 0) { const p = (i - 1) >> 1; if (!this.less(a[i], a[p])) break;[a[i], a[p]] = [a[p], a[i]]; i = p; } }
  top() { return this.a[0]; }
  pop() { const a = this.a, r = a[0], l = a.pop(); if (a.length) { a[0] = l; let i = 0; for (;;) { let c = 2 * i + 1; if (c >= a.length) break; if (c + 1 < a.length && this.less(a[c + 1], a[c])) c++; if (!this.less(a[c], a[i])) break;[a[i], a[c]] = [a[c], a[i]]; i = c; } } return r; }
}

// what may happen to one read or write of a connection
export const IO = ['ok', 'short-1', 'short-half', 'EAGAIN', 'EINTR', 'ECONNRESET', 'ETIMEDOUT', 'EPIPE'];
export const ACC = ['ok', 'EAGAIN', 'EINTR', 'ECONNABORTED', 'EMFILE', 'ENFILE', 'EBADF', 'EINVAL', 'EIO', 'ENOBUFS', 'EPROTO'];
const ERRNO = { EAGAIN: E.AGAIN, EINTR: E.INTR, ECONNRESET: E.CONNRESET, ETIMEDOUT: E.TIMEDOUT, EPIPE: E.PIPE, ECONNABORTED: E.CONNABORTED, EMFILE: E.MFILE, ENFILE: E.NFILE, EBADF: E.BADF, EINVAL: E.INVAL, EIO: E.IO, ENOBUFS: E.NOBUFS, EPROTO: E.PROTO };
export const PERMANENT = new Set(['EBADF', 'EINVAL', 'EIO', 'ENOBUFS', 'EPROTO']);

// o.net: { files: {path: text | -errno}, listen: [errno, ...] by attempt, acceptFaults: {p, kinds, permanentAt}, tail: ms,
//          spurious: p, oneAtATime: p, deadPorts }
export class NetHost extends Host {
  constructor(module, o) {
    super(module, o);
    this.net = o.net; this.heap = new Heap(); this.fds = new Map(); this.nextFd = 10; this.listeners = []; this.attempts = [];
    this.nConns = 0; this.g = 0; this.idleLog = []; this.lastAcceptFault = 0; this.permanent = null; this.endAt = null; this.accepted = 0; this.activity = 0;
    this.fds.set(3, { dir: true });
  }
  get now() { return Number(this.mono); }
  at(ms, fn) { this.heap.push(this.now + Math.round(ms * NS), fn); }
  due() { let h; while ((h = this.heap.top()) && h.t <= this.now) { this.heap.pop(); this.activity = this.now; this.news = (this.news | 0) + 1; h.fn(); } }
  listener() { return this.listeners.find(l => !l.closed) ?? null; }
  // ---- a client's side
  connect(client) { // -> conn or null (refused)
    const l = this.listener();
    if (!l) return null;
    if (l.backlog.length >= 128) return undefined; // dropped: the client tries again
    const id = this.nConns++;
    const c = { id, client, fd: null, in: [], inLen: 0, eof: false, rst: 0, told: false, cap: client.spec.cap ?? 65536, inflight: 0, out: [], shutW: false, closed: false, finSent: false, peer: this.net.nat === 1 ? [10, 0, 0, 1] : this.net.nat ? [10, 0, 0, id % this.net.nat] : [10, (id >> 16) & 255, (id >> 8) & 255, id & 255], port: 40000 + id % 20000, faulty: client.spec.faulty };
    l.backlog.push(c);
    return c;
  }
  arrive(c, bytes) { if (c.closed) { this.resetClient(c); return; } if (c.rst || c.eof) return; c.in.push(bytes); c.inLen += bytes.length; }
  resetClient(c) { if (c.rstSent) return; c.rstSent = true; this.at(c.client.lat(), () => c.client.onReset()); }
  resetServer(c, errno) { c.rst = errno; c.in = []; c.inLen = 0; c.inflight = 0; c.out = []; }
  flush(c) { // bytes in the send buffer reach the client, if it reads
    if (!c.out.length && !c.finSent) return;
    this.at(c.client.lat(), () => this.deliver(c));
  }
  deliver(c) {
    const cl = c.client;
    if (cl.vanished) return;
    while (c.out.length && !c.rst) {
      if (cl.closed) { this.at(cl.lat(), () => { if (!c.closed) this.resetServer(c, E.CONNRESET); }); c.out = []; c.inflight = 0; return; }
      if (!cl.reading) { cl.blocked = c; return; }
      const b = c.out.shift(); c.inflight -= b.length; cl.onData(b);
    }
    if (c.finSent && !c.out.length && !c.finDone && !cl.closed) { if (!cl.reading) { cl.blocked = c; return; } c.finDone = true; cl.onFin(); }
  }
  // ---- the server's side
  io(c, dir, len) {
    if (!c.faulty) return 'ok';
    const f = c.faulty[dir]; if (!f) { this.d.next(dir + c.id); return 'ok'; }
    const v = this.d.choose(dir + c.id, 0, (r, i) => (f.at === i || (f.p && r.chance(f.p)) ? IO.indexOf(r.pick(f.kinds)) : 0));
    const k = IO[v] ?? 'ok';
    if (k !== 'ok') { this.d.fault((dir === 'r' ? 'read-' : 'write-') + k); this.d.event(`connection ${c.id}: ${dir === 'r' ? 'read' : 'write'} ${k}`); }
    return k;
  }
  breakConn(c, errno) { this.resetServer(c, errno); c.told = true; this.resetClient(c); }
  sockRead(c, max) {
    if (c.rst && !c.told) { c.told = true; return { errno: c.rst }; }
    if (c.rst) return { bytes: new Uint8Array(0) };
    let lim = max;
    const k = this.io(c, 'r', max);
    if (k === 'EAGAIN' || k === 'EINTR') return { errno: ERRNO[k] };
    if (k === 'ECONNRESET' || k === 'ETIMEDOUT') { this.breakConn(c, ERRNO[k]); return { errno: ERRNO[k] }; }
    if (!c.inLen) return c.eof ? { bytes: new Uint8Array(0) } : { errno: E.AGAIN };
    if (k === 'short-1') lim = 1; if (k === 'short-half') lim = Math.max(1, Math.min(max, c.inLen) >> 1);
    const n = Math.min(lim, c.inLen); const b = new Uint8Array(n); let j = 0;
    while (j < n) { const h = c.in[0]; const t = Math.min(h.length, n - j); b.set(h.subarray(0, t), j); j += t; if (t === h.length) c.in.shift(); else c.in[0] = h.subarray(t); }
    c.inLen -= n;
    return { bytes: b };
  }
  sockWrite(c, b) {
    if (c.rst) { const e = c.told ? E.PIPE : c.rst; c.told = true; return { errno: e }; }
    if (c.shutW) return { errno: E.PIPE };
    const k = this.io(c, 'w', b.length);
    if (k === 'EAGAIN' || k === 'EINTR') return { errno: ERRNO[k] };
    if (k === 'ECONNRESET' || k === 'ETIMEDOUT' || k === 'EPIPE') { this.breakConn(c, ERRNO[k]); return { errno: ERRNO[k] }; }
    const free = c.cap - c.inflight;
    if (free <= 0) return { errno: E.AGAIN };
    let n = Math.min(free, b.length);
    if (k === 'short-1') n = Math.min(1, n); if (k === 'short-half') n = Math.max(1, n >> 1);
    if (!b.length) return { n: 0 };
    c.inflight += n; c.out.push(b.slice(0, n)); c.lastWrite = this.now; this.flush(c);
    return { n };
  }
  sockClose(c) {
    if (c.closed) return; c.closed = true;
    if (c.rst) return;
    if (c.inLen) { this.resetClientAfterData(c); return; }
    c.finSent = true; this.flush(c);
  }
  resetClientAfterData(c) { this.at(c.client.lat(), () => { if (c.client.reading) this.deliver(c); }); this.resetClient(c); }
  ready(fd, tag) {
    const s = this.fds.get(fd); if (!s) return true;
    if (s.backlog) return s.closed || s.backlog.length > 0 || s.pendingError;
    if (s.conn) { const c = s.conn; return tag === 1 ? c.inLen > 0 || c.eof || !!c.rst : c.inflight < c.cap || !!c.rst || c.shutW; }
    return true;
  }
  die() { // the process is gone: its kernel closes its sockets
    for (const s of this.fds.values()) if (s.conn) this.sockClose(s.conn);
    for (const l of this.listeners) { if (!l.closed) for (const c of l.backlog) this.resetClient(c); l.closed = true; l.backlog = []; }
    const last = this.now + 3600e3 * NS;
    let h; while ((h = this.heap.top()) && h.t <= last) { this.heap.pop(); if (BigInt(Math.round(h.t)) > this.mono) this.mono = BigInt(Math.round(h.t)); h.fn(); }
  }
  imports() {
    const self = this, d = this.d;
    const base = super.imports();
    const w = base.wasi_snapshot_preview1, v = base.verif ?? (base.verif = {});
    const vec = (iov, n) => { const l = []; for (let i = 0; i < n; i++) l.push([self.dv().getUint32(iov + 8 * i, true), self.dv().getUint32(iov + 8 * i + 4, true)]); return l; };
    const gather = (iov, n, most) => { const l = vec(iov, n); let t = 0; for (const x of l) { x[1] = Math.min(x[1], most - t); t += x[1]; } const b = new Uint8Array(t); let k = 0; for (const [p, m] of l) { b.set(self.u8().subarray(p, p + m), k); k += m; } return b; };
    const scatter = (iov, n, b) => { let k = 0; for (const [p, m] of vec(iov, n)) { const t = Math.min(m, b.length - k); if (t <= 0) break; self.u8().set(b.subarray(k, k + t), p); k += t; } return k; };
    v.idle = g => { self.g = g; };
    v.poll = () => {
      self.due();
      if (self.news === self.newsSeen) return 0;
      self.newsSeen = self.news;
      const k = d.choose('early', 0, r => (r.chance(self.net.early ?? 0) ? 1 : 0));
      d.hash.num(6, k); return k;
    };
    v.sock_listen = (p, n) => {
      self.step(); self.due();
      const what = self.str(p, n); const errno = self.net.listen?.[self.net.listenForever ? Math.min(self.attempts.length, self.net.listen.length - 1) : self.attempts.length] ?? 0;
      const i = what.indexOf(' '); let addr = what.slice(i + 1);
      const inUse = !errno && self.listeners.some(l => !l.closed && l.addr === addr);
      self.attempts.push({ net: what.slice(0, i), addr, errno: errno || (inUse ? E.ADDRINUSE : 0) });
      d.event(`listen ${what} ${errno}`);
      if (errno) d.fault('listen-errno-' + errno);
      if (errno || inUse) return -(errno || E.ADDRINUSE);
      const fd = self.nextFd++; const port = Number(addr.slice(addr.lastIndexOf(':') + 1)) || 34567;
      const l = { backlog: [], closed: false, addr, port, fd, at: self.now }; self.listeners.push(l); self.fds.set(fd, l);
      return fd;
    };
    v.account = (heap, objects, g) => { // net.account: when (ms) the process is to say what it holds
      const s = self.net.account; if (!s) return -1n;
      if (heap >= 0n) { const conns = [...self.fds.values()].filter(f => f.conn && !f.conn.closed).length; self.held ??= []; self.held.push([Number(heap), Number(objects), Number(g), conns]); d.event('holds ' + self.held[self.held.length - 1]); }
      const next = s[self.held?.length ?? 0]; if (next === undefined) return -1n;
      const dt = BigInt(next) * 1_000_000n - self.mono; return dt > 0n ? dt : 0n;
    };
    v.sock_port = fd => self.fds.get(fd)?.port ?? 0;
    v.sock_peer = fd => { const c = self.fds.get(fd)?.conn; if (!c) return 0n; return (BigInt(c.peer[0]) << 40n) | (BigInt(c.peer[1]) << 32n) | (BigInt(c.peer[2]) << 24n) | (BigInt(c.peer[3]) << 16n) | BigInt(c.port); };
    w.sock_accept = (fd, flags, pn) => {
      self.step(); self.due();
      const l = self.fds.get(fd);
      if (!l || !l.backlog) return E.BADF;
      if (l.closed) return E.INVAL;
      const f = self.net.acceptFaults;
      let k = 'ok';
      if (l.broken) k = l.broken;
      else if (f) {
        const x = d.choose('acc', 0, (r, i) => (i === f.permanentAt ? ACC.indexOf(r.pick([...PERMANENT])) : f.bursts?.some(([a, n]) => i >= a && i < a + n) || (f.p && r.chance(f.p)) ? ACC.indexOf(r.pick(f.kinds)) : 0));
        k = ACC[x] ?? 'ok';
        if (k !== 'ok') { d.fault('accept-' + k); d.event('accept ' + k); self.lastAcceptFault = self.now; if (PERMANENT.has(k)) { l.broken = k; self.permanent ??= { k, at: self.now }; } }
      }
      if (k === 'ECONNABORTED') { if (!l.backlog.length) return E.AGAIN; const c = l.backlog.shift(); self.resetClient(c); return E.CONNABORTED; }
      if (k !== 'ok') return ERRNO[k];
      if (!l.backlog.length) return E.AGAIN;
      const c = l.backlog.shift(); c.fd = self.nextFd++; self.fds.set(c.fd, { conn: c }); self.accepted++;
      self.dv().setInt32(pn, c.fd, true);
      d.event('accept ' + c.id);
      return 0;
    };
    w.sock_shutdown = (fd, how) => { self.step(); const c = self.fds.get(fd)?.conn; if (!c) return E.BADF; if (how & 2 && !c.shutW) { c.shutW = true; c.finSent = true; self.flush(c); } return 0; };
    const write0 = w.fd_write, read0 = w.fd_read, fs0 = w.fd_fdstat_get, fst0 = w.fd_filestat_get;
    w.fd_write = (fd, iov, n, pn) => {
      if (fd <= 2) return write0(fd, iov, n, pn);
      self.step(); self.due();
      const c = self.fds.get(fd)?.conn; if (!c) return E.BADF;
      const b = gather(iov, n, Math.max(1, c.cap - c.inflight));
      const r = self.sockWrite(c, b);
      d.hash.num(3, c.id, r.errno ?? -1, r.n ?? 0);
      if (r.errno) return r.errno;
      self.dv().setUint32(pn, r.n, true); return 0;
    };
    w.fd_read = (fd, iov, n, pn) => {
      const s = self.fds.get(fd);
      if (fd <= 2) return read0(fd, iov, n, pn);
      self.step(); self.due();
      if (!s) return E.BADF;
      let max = 0; for (const x of vec(iov, n)) max += x[1];
      if (s.file) { const b = s.file.subarray(s.pos, s.pos + max); s.pos += b.length; scatter(iov, n, b); self.dv().setUint32(pn, b.length, true); return 0; }
      if (!s.conn) return E.BADF;
      const r = self.sockRead(s.conn, max);
      d.hash.num(4, s.conn.id, r.errno ?? -1, r.bytes?.length ?? 0);
      if (r.errno) return r.errno;
      scatter(iov, n, r.bytes); self.dv().setUint32(pn, r.bytes.length, true); return 0;
    };
    w.fd_close = fd => {
      self.step(); self.due();
      const s = self.fds.get(fd); if (!s) return fd <= 2 ? 0 : E.BADF;
      self.fds.delete(fd);
      if (s.conn) self.sockClose(s.conn);
      if (s.backlog) { s.closed = true; for (const c of s.backlog) self.resetClient(c); s.backlog = []; d.event('listener closed'); }
      return 0;
    };
    w.fd_fdstat_get = (fd, p) => {
      const s = self.fds.get(fd); if (fd <= 2) return fs0(fd, p); if (!s) return E.BADF;
      self.u8().fill(0, p, p + 24); const dv = self.dv();
      dv.setUint8(p, s.dir ? 3 : s.file ? 4 : 6); dv.setUint16(p + 2, s.file || s.dir ? 0 : 4, true); dv.setBigUint64(p + 8, 0xffffffffn, true); dv.setBigUint64(p + 16, 0xffffffffn, true); return 0;
    };
    w.fd_filestat_get = (fd, p) => {
      const s = self.fds.get(fd); if (fd <= 2) return fst0(fd, p); if (!s) return E.BADF;
      self.u8().fill(0, p, p + 64); self.dv().setUint8(p + 16, s.dir ? 3 : s.file ? 4 : 6); if (s.file) self.dv().setBigUint64(p + 32, BigInt(s.file.length), true); return 0;
    };
    w.fd_prestat_get = (fd, p) => { if (fd !== 3) return E.BADF; self.dv().setUint8(p, 0); self.dv().setUint32(p + 4, 1, true); return 0; };
    w.fd_prestat_dir_name = (fd, p, n) => { if (fd !== 3) return E.BADF; self.u8()[p] = 0x2f; return 0; };
    const file = path => { let t = self.net.files?.['/' + path.replace(/^\/+/, '')]; if (t === undefined && self.net.files?.['*'] && !/^\/*(etc|usr|proc|dev|sys)\//.test(path)) { t = 'unpublished ' + path; d.fault('disk-file'); } if (t === undefined) return E.NOENT; if (typeof t === 'number') { d.fault('open-errno-' + -t); return -t; } return t; };
    w.path_open = (dfd, df, p, n, of, rb, ri, ff, pfd) => {
      self.step();
      const t = file(self.str(p, n)); if (typeof t === 'number') return t;
      const fd = self.nextFd++; self.fds.set(fd, { file: enc.encode(t), pos: 0 }); self.dv().setInt32(pfd, fd, true); return 0;
    };
    w.fd_seek = (fd, off, whence, pn) => {
      const s = self.fds.get(fd); if (!s?.file) return E.BADF;
      const to = Number(off) + (whence === 0 ? 0 : whence === 1 ? s.pos : s.file.length); if (to < 0) return E.INVAL;
      s.pos = to; self.dv().setBigUint64(pn, BigInt(to), true); return 0;
    };
    w.path_filestat_get = (dfd, fl, p, n, out) => {
      self.step(); const t = file(self.str(p, n)); if (typeof t === 'number') return t;
      self.u8().fill(0, out, out + 64); self.dv().setUint8(out + 16, 4); self.dv().setBigUint64(out + 32, BigInt(enc.encode(t).length), true); return 0;
    };
    w.poll_oneoff = (pin, pout, n, pn) => {
      self.step();
      const dv = self.dv(); let timer = null; const subs = [];
      for (let i = 0; i < n; i++) {
        const b = pin + 48 * i, tag = dv.getUint8(b + 8), ud = dv.getBigUint64(b, true);
        if (tag === 0) {
          const clk = dv.getUint32(b + 16, true), to = dv.getBigUint64(b + 24, true), abs = dv.getUint16(b + 40, true) & 1;
          const now = clk === 0 ? self.wall : self.mono; const wait = abs ? (to > now ? to - now : 0n) : to;
          const t = self.mono + wait; if (timer === null || t < timer.t) timer = { t, ud };
        } else subs.push({ ud, tag, fd: dv.getUint32(b + 16, true) });
      }
      const answer = evs => {
        const q = self.dv(); let p = pout;
        for (const e of evs) { self.u8().fill(0, p, p + 32); q.setBigUint64(p, e.ud, true); q.setUint8(p + 10, e.tag); if (e.tag) q.setBigUint64(p + 16, 65536n, true); p += 32; }
        q.setUint32(pn, evs.length, true); return 0;
      };
      for (;;) {
        self.due();
        let evs = subs.filter(s => self.ready(s.fd, s.tag));
        if (evs.length) {
          if (evs.length > 1) {
            evs.sort((a, b) => a.fd - b.fd || a.tag - b.tag);
            const k = d.choose('ready', 0, r => (self.net.oneAtATime && r.chance(self.net.oneAtATime) ? 1 + r.int(evs.length) : 0));
            if (k) { d.hash.num(5, k, evs.length); evs = [evs[(k - 1) % evs.length]]; }
          }
          return answer(evs);
        }
        if (timer && timer.t <= self.mono) return answer([{ ud: timer.ud, tag: 0 }]);
        if (self.net.spurious && subs.length && (self.nSpurious ?? 0) < 3000) {
          const k = d.choose('spur', 0, r => (r.chance(self.net.spurious) ? 1 + r.int(subs.length) : 0));
          if (k) { self.nSpurious = (self.nSpurious ?? 0) + 1; subs.sort((a, b) => a.fd - b.fd || a.tag - b.tag); d.fault('spurious-readiness'); return answer([subs[(k - 1) % subs.length]]); }
        }
        if (!self.idleLog.length || self.idleLog[self.idleLog.length - 1][1] !== self.g) self.idleLog.push([self.now, self.g]);
        const h = self.heap.top();
        let to = h ? h.t : Infinity;
        if (!h && self.endAt === null) self.endAt = self.now + self.net.tail * NS;
        if (self.endAt !== null) to = Math.min(to, self.endAt);
        if (timer) to = Math.min(to, Number(timer.t));
        const t = BigInt(Math.ceil(to));
        if (t > self.mono) { const dt = t - self.mono; self.wall += dt; self.mono = t; self.idleNs += dt; }
        else self.mono += 1n;
        if (self.endAt !== null && self.now >= self.endAt) throw new Abort('end', 'the run is over');
      }
    };
    return base;
  }
  goroutinesAt(ms) { let g = null; for (const [t, n] of this.idleLog) if (t <= ms * NS) g = n; return g; }
}

// ---- clients --------------------------------------------------------------

const latin = s => { const b = new Uint8Array(s.length); for (let i = 0; i < s.length; i++) b[i] = s.charCodeAt(i) & 255; return b; };
export const str = b => Buffer.from(b.buffer, b.byteOffset, b.length).toString('latin1');

export function rawRequest(q) {
  if (q.raw !== undefined) return q.raw;
  const v = q.v ?? '1.1';
  let s = `${q.m} ${q.path} HTTP/${v}\r\n`;
  if (v === '1.1' || q.hostHeader) s += `Host: ${q.hostHeader ?? 'localhost:8080'}\r\n`;
  for (const [k, x] of q.h ?? []) s += `${k}: ${x}\r\n`;
  if (q.body !== undefined && !(q.h ?? []).some(([k]) => /^(content-length|transfer-encoding)$/i.test(k))) s += `Content-Length: ${q.body.length}\r\n`;
  return s + '\r\n' + (q.body ?? '');
}

// spec: { at, latency, cap, seg: [sizes], gap, steps, faulty, role }
export class Client {
  constructor(host, id, spec) {
    this.h = host; this.id = id; this.spec = spec; this.steps = spec.steps.slice(); this.reading = true; this.closed = false; this.pending = []; this.meta = []; this.responses = []; this.received = 0; this.buf = new Uint8Array(0);
    this.end = null; this.cur = null; this.doneAt = null; this.problems = []; this.lastIn = 0;
  }
  start() { this.h.at(this.spec.at, () => this.open()); if (this.spec.leave) this.h.at(this.spec.leave, () => { if (this.conn) this.reset(); }); }
  lat() { return this.spec.latency ?? 1; }
  // towards the server: delayed, now and then more, but in order
  toServer(fn) {
    const j = this.spec.jitter ? this.h.d.choose('late' + this.id, 0, r => (r.chance(0.15) ? 1 + r.int(this.spec.jitter) : 0)) : 0;
    if (j) this.h.d.fault('late-segment');
    const t = Math.max(this.h.now + Math.round((this.lat() + j) * NS), this.lastArrival ?? 0); this.lastArrival = t;
    this.h.heap.push(t, fn);
  }
  log(s) { this.h.d.event(`client ${this.id}: ${s}`); }
  open(tries = 0) {
    const c = this.h.connect(this);
    if (c === null) { // refused
      if (tries < (this.spec.retries ?? 0)) { this.h.at(500, () => this.open(tries + 1)); return; }
      this.log('refused'); this.end = 'refused'; this.doneAt = this.h.now; return;
    }
    if (c === undefined) { this.h.at(1000, () => this.open(tries)); return; }
    this.conn = c; this.openedAt = this.h.now; this.log('connected as ' + c.id);
    this.h.at(this.lat(), () => this.step());
  }
  send(bytes, then, meta = null) {
    const seg = this.spec.seg; let i = 0, k = 0;
    const next = () => {
      if (this.closed || this.end) return;
      const n = seg?.length ? Math.max(1, seg[k++ % seg.length]) : bytes.length;
      const part = bytes.subarray(i, i + n); i += n;
      const last = i >= bytes.length;
      this.toServer(() => { if (last && meta) meta.at = this.h.now; this.h.arrive(this.conn, part); });
      if (i < bytes.length) this.h.at(this.spec.gap ?? 1, next); else then();
    };
    next();
  }
  step() {
    if (this.closed || this.end) return;
    if (this.waiting) return;
    const s = this.steps.shift();
    if (!s) { this.doneAt ??= this.h.now; this.stepsDone = true; return; }
    const [op, a] = s;
    const soon = () => this.step();
    switch (op) {
      case 'req': { this.pending.push(a); const m = {}; this.meta.push(m); this.send(latin(rawRequest(a)), soon, m); break; }
      case 'raw': { if (s[2]) { this.pending.push({ raw: a, ...s[2] }); this.meta.push({}); } this.send(latin(a), soon); break; }
      case 'await': if (this.pending.length) { this.waiting = true; } else soon(); break;
      case 'sleep': this.h.at(a, soon); break;
      case 'until': this.h.heap.push(Math.max(this.h.now, Math.round(a * NS)), soon); break;
      case 'stop': this.reading = false; soon(); break;
      case 'resume': this.resume(); soon(); break;
      case 'stopAfter': this.stopAt = this.received + a; soon(); break;
      case 'rstAfter': this.rstAt = this.received + a; soon(); break;
      case 'closeAfter': this.closeAt = this.received + a; soon(); break;
      case 'fin': this.log('half-closes'); this.toServer(() => { this.conn.eof = true; }); soon(); break;
      case 'close': this.close(); break;
      case 'rst': this.reset(); break;
      case 'vanish': this.log('vanishes'); this.vanished = true; this.end = 'vanished'; this.doneAt = this.h.now; this.h.at(150_000, () => { if (!this.conn.closed && !this.conn.rst) this.h.resetServer(this.conn, E.TIMEDOUT); }); break;
      default: throw new Error('step ' + op);
    }
  }
  resume() { this.reading = true; this.stopAt = undefined; if (this.blocked) { const c = this.blocked; this.blocked = null; this.h.at(this.lat(), () => this.h.deliver(c)); } }
  close() { if (this.closed || this.end) return; this.log('closes'); this.closed = true; this.end = 'closed'; this.doneAt = this.h.now; this.toServer(() => { this.conn.eof = true; if (this.conn.out.length) this.h.deliver(this.conn); }); }
  reset() { if (this.closed || this.end) return; this.log('aborts'); this.closed = true; this.end = 'aborted'; this.doneAt = this.h.now; this.toServer(() => { if (!this.conn.closed) this.h.resetServer(this.conn, E.CONNRESET); }); }
  onReset() { if (this.closed || this.end) return; this.log('connection reset'); this.finish('reset'); }
  onFin() { if (this.closed || this.end) return; this.log('end of stream'); this.finish('fin'); this.toServer(() => { this.conn.eof = true; }); }
  finish(how) {
    this.end = how; this.doneAt = this.h.now;
    const c = this.cur;
    if (c) { this.cur = null; if (c.mode === 'close' && how === 'fin') this.complete(c); else this.responses.push({ ...c, complete: false, body: join(c.parts) }); }
    else if (this.buf.length) this.responses.push({ req: this.pending[0], head: str(this.buf), complete: false, status: 0, headers: new Map(), body: new Uint8Array(0) });
  }
  onData(b) {
    if (this.closed || this.end) return;
    this.received += b.length; this.lastIn = this.h.now;
    this.h.d.hash.num(6, this.id, b.length);
    this.feed(b);
    if (this.rstAt !== undefined && this.received >= this.rstAt) { this.reset(); return; }
    if (this.closeAt !== undefined && this.received >= this.closeAt) { this.close(); return; }
    if (this.stopAt !== undefined && this.received >= this.stopAt) { this.log('stops reading'); this.reading = false; this.stopAt = undefined; }
  }
  feed(b) {
    while (b.length || (this.cur === null && this.buf.length)) {
      if (!this.cur) {
        this.buf = this.buf.length ? join([this.buf, b]) : b; b = new Uint8Array(0);
        const s = str(this.buf.subarray(0, 65536)); const i = s.indexOf('\r\n\r\n');
        if (i < 0) { if (this.buf.length > 65536) this.problems.push('no end of header'); return; }
        const lines = s.slice(0, i).split('\r\n'); const m = /^HTTP\/(\d\.\d) (\d{3})(?: |$)/.exec(lines[0]);
        const rest = this.buf.subarray(i + 4); this.buf = new Uint8Array(0);
        if (!m) { this.problems.push('not a status line: ' + JSON.stringify(lines[0].slice(0, 200))); this.garbage = true; return; }
        const headers = new Map();
        for (const l of lines.slice(1)) { const j = l.indexOf(':'); if (j <= 0) { this.problems.push('bad header line ' + JSON.stringify(l.slice(0, 100))); continue; } const k = l.slice(0, j).toLowerCase(), x = l.slice(j + 1).trim(); headers.set(k, headers.has(k) ? headers.get(k) + ', ' + x : x); }
        const status = Number(m[2]);
        b = rest;
        if (status >= 100 && status < 200) { continue; }
        const req = this.pending[0];
        const cur = { req, version: m[1], status, headers, parts: [], got: 0, mode: 'close', at: this.h.now };
        // a client that takes its time, or never ends its request, may be told so before the connection is ended
        const since = this.responses.length ? this.responses[this.responses.length - 1].at : this.openedAt, sentAt = this.meta[0]?.at;
        if ((status === 400 || status === 408) && this.spec.role !== 'good' && (sentAt === undefined ? this.h.now - since > NS * 1000 : sentAt - since > NS * 1000)) { cur.early = true; this.h.d.event(`client ${this.id}: told it was too slow`); }
        if (this.early) this.problems.push(`response ${status} after the connection's last one`);
        this.early = cur.early;
        if (!req && !cur.early) this.problems.push(`unsolicited response ${status}`);
        const cl = headers.get('content-length');
        if (req?.m === 'HEAD' || status === 204 || status === 304) cur.mode = 'none';
        else if (/(^|,)\s*chunked\s*$/i.test(headers.get('transfer-encoding') ?? '')) { cur.mode = 'chunked'; cur.need = null; cur.line = ''; }
        else if (cl !== undefined) { if (!/^\d+$/.test(cl)) this.problems.push('content-length ' + cl); cur.mode = 'length'; cur.need = Number(cl); }
        this.cur = cur;
        if (cur.mode === 'none' || (cur.mode === 'length' && cur.need === 0)) this.complete(cur);
        continue;
      }
      const c = this.cur;
      if (c.mode === 'close') { c.parts.push(b); c.got += b.length; return; }
      if (c.mode === 'length') {
        const n = Math.min(b.length, c.need - c.got); c.parts.push(b.subarray(0, n)); c.got += n; b = b.subarray(n);
        if (c.got === c.need) this.complete(c);
        continue;
      }
      // chunked
      if (c.need === null || c.need === 'trailer') {
        const j = b.indexOf(10);
        if (j < 0) { c.line += str(b); return; }
        c.line += str(b.subarray(0, j + 1)); b = b.subarray(j + 1);
        const l = c.line.trim(); c.line = '';
        if (c.need === 'trailer') { if (l === '') this.complete(c); continue; }
        if (l === '' && c.any) continue; // after a chunk
        if (!/^[0-9a-f]+/i.test(l)) { this.problems.push('bad chunk size ' + JSON.stringify(l.slice(0, 60))); this.garbage = true; return; }
        const n = parseInt(l, 16); c.any = true;
        if (n === 0) c.need = 'trailer'; else { c.need = n; }
      } else {
        const n = Math.min(b.length, c.need); c.parts.push(b.subarray(0, n)); c.got += n; c.need -= n; b = b.subarray(n);
        if (c.need === 0) c.need = null;
      }
    }
  }
  complete(c) {
    this.cur = null; this.pending.shift(); this.meta.shift();
    this.responses.push({ early: c.early, req: c.req, version: c.version, status: c.status, headers: c.headers, body: join(c.parts), complete: true, mode: c.mode, at: this.h.now });
    this.log(`response ${c.status} of ${c.got} bytes`);
    if (this.waiting && !this.pending.length) { this.waiting = false; this.h.at(0.01, () => this.step()); }
  }
}
export function join(parts) { if (parts.length === 1) return parts[0]; let n = 0; for (const p of parts) n += p.length; const b = new Uint8Array(n); let k = 0; for (const p of parts) { b.set(p, k); k += p.length; } return b; }
