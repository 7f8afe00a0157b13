// A disk under one or more simulated processes: files outlive the process that wrote them, and
// what a crash leaves of them is decided.  overlay(host, wasi) replaces the WASI calls that
// concern files by ones that work on host.o.disk.
import { Abort, E } from './wasi.mjs';

const X = { ISDIR: 31, NOTDIR: 54, NOTEMPTY: 55, ROFS: 69, SPIPE: 70 };
const norm = s => { const out = []; for (const p of s.split('/')) { if (p === '' || p === '.') continue; if (p === '..') out.pop(); else out.push(p); } return out.join('/'); };
const parent = s => s.slice(0, Math.max(0, s.lastIndexOf('/')));

export class Disk {
  constructor({ readOnly = false, files = {} } = {}) {
    this.readOnly = readOnly; this.files = new Map(); this.ops = 0; this.written = 0;
    this.dirs = new Set(['', 'tmp', 'home', 'home/user', 'home/user/.cache', 'home/user/.config', 'work', 'etc', 'var', 'var/tmp', 'var/cache']);
    for (const [n, d] of Object.entries(files)) this.files.set(n, { data: d, safe: d, time: 0n });
  }
  // the power fails: of what was not synchronised, keep(length) bytes are still there
  lose(keep) { for (const [n, f] of this.files) if (f.safe !== f.data) { if (f.safe === null && keep(2) === 0) this.files.delete(n); else { f.data = f.data.slice(0, keep(f.data.length + 1)); f.safe = f.data; } } }
}

export function overlay(self, wasi) {
  const o = self.o, d = self.d, disk = o.disk, was = { ...wasi };
  const fault = () => { // a mutation of the disk, which may fail or be where the process dies
    if (disk.readOnly) { d.fault('disk-read-only'); return X.ROFS; }
    const n = disk.ops++;
    if (o.dieAt !== undefined && o.dieAt === (self.diskOps ?? 0)) { d.fault('killed-at-disk-write'); throw new Abort('killed', ''); }
    self.diskOps = (self.diskOps ?? 0) + 1;
    const v = d.choose('disk' + (o.tag ?? ''), 0, r => (o.diskErr && r.chance(o.diskErr) ? r.pick([E.NOSPC, E.IO, E.DQUOT]) : 0));
    if (v) { d.fault('disk-write-errno-' + v); d.event(`disk operation ${n}: errno ${v}`); }
    return v;
  };
  const find = name => disk.files.get(name) ?? (o.files && !disk.dirs.has(name) ? (x => x && { data: x, safe: x, time: self.wall })(o.files(name)) : undefined);
  const names = dir => { const out = new Set(), pre = dir ? dir + '/' : ''; for (const n of [...disk.files.keys(), ...disk.dirs]) if (n !== '' && n.startsWith(pre) && n.length > pre.length) out.add(n.slice(pre.length).split('/')[0]); for (const n of o.alsoThere ?? []) out.add(n); return [...out].sort(); };
  const at = (dir, pp, pn) => { const base = dir === 3 ? '' : self.open.get(dir)?.dir ?? ''; return norm(base + '/' + self.str(pp, pn)); };
  const stat = (p, f, dir) => { self.u8().fill(0, p, p + 64); const v = self.dv(); v.setUint8(p + 16, dir ? 3 : 4); v.setBigUint64(p + 24, 1n, true); if (!dir) { v.setBigUint64(p + 32, BigInt(f.data.length), true); for (const k of [40, 48, 56]) v.setBigUint64(p + k, BigInt.asUintN(64, f.time), true); } return 0; };
  const file = fd => { const h = self.open.get(fd); return h?.f ? h : null; };
  const put = (f, pos, b) => { const data = new Uint8Array(Math.max(f.data.length, pos + b.length)); data.set(f.data); data.set(b, pos); f.data = data; f.time = self.wall; disk.written += b.length; };
  const iov = (p, n) => { const out = []; for (let i = 0; i < n; i++) { const a = self.dv().getUint32(p + 8 * i, true), l = self.dv().getUint32(p + 8 * i + 4, true); out.push([a, l]); } return out; };
  const read = (h, pos, io, n, pn) => { let t = 0; for (const [a, l] of iov(io, n)) { const k = Math.max(0, Math.min(l, h.f.data.length - pos - t)); self.u8().set(h.f.data.subarray(pos + t, pos + t + k), a); t += k; } self.dv().setUint32(pn, t, true); return t; };
  const write = (h, pos, io, n, pn) => {
    const parts = iov(io, n).map(([a, l]) => self.u8().slice(a, a + l)), b = new Uint8Array(parts.reduce((s, x) => s + x.length, 0)); let k = 0; for (const x of parts) { b.set(x, k); k += x.length; }
    let e; try { e = fault(); } catch (x) { if (x instanceof Abort && b.length) put(h.f, pos, b.slice(0, Math.floor(b.length * (o.dieTorn ?? 0)))); throw x; }
    if (e) { if (e !== E.IO && b.length > 1) put(h.f, pos, b.slice(0, 1 + (disk.ops * 7) % (b.length - 1))); return [e, 0]; } // a full disk takes what still fits
    put(h.f, pos, b); d.event(`disk: ${b.length} bytes to ${h.name}`); self.dv().setUint32(pn, b.length, true); return [0, b.length];
  };
  Object.assign(wasi, {
    fd_prestat_get: (fd, p) => { if (fd !== 3) return E.BADF; self.dv().setUint32(p, 0, true); self.dv().setUint32(p + 4, 1, true); return 0; },
    fd_prestat_dir_name: (fd, p) => { if (fd !== 3) return E.BADF; self.u8()[p] = 47; return 0; },
    path_open: (dir, lookup, pp, pn, oflags, r1, r2, fl, pfd) => {
      self.step();
      const name = at(dir, pp, pn), isDir = disk.dirs.has(name); let f = isDir ? null : find(name);
      if (isDir && (oflags & 1)) return X.ISDIR;
      if (!isDir && (oflags & 2)) return f ? X.NOTDIR : E.NOENT;
      if (f && (oflags & 5) === 5) return E.EXIST;
      if (!isDir && !f) { if (!(oflags & 1)) return E.NOENT; if (!disk.dirs.has(parent(name))) return E.NOENT; const e = fault(); if (e) return e; f = { data: new Uint8Array(0), safe: null, time: self.wall }; disk.files.set(name, f); d.event('disk: create ' + name); }
      else if (f && (oflags & 8)) { const e = fault(); if (e) return e; f.data = new Uint8Array(0); f.time = self.wall; disk.files.set(name, f); }
      if (!isDir) { if (!disk.files.has(name)) d.fault('unexpected-file'); d.event('open ' + name); }
      let fd = 4; while (self.open.has(fd)) fd++;
      self.open.set(fd, isDir ? { dir: name } : { f, name, pos: 0, append: !!(fl & 1) }); self.dv().setUint32(pfd, fd, true); return 0;
    },
    path_filestat_get: (dir, lookup, pp, pn, p) => { self.step(); const name = at(dir, pp, pn), isDir = disk.dirs.has(name), f = isDir ? null : find(name); if (!isDir && !f) return E.NOENT; if (!isDir && !disk.files.has(name)) d.fault('unexpected-file'); d.event('stat ' + name); return stat(p, f, isDir); },
    path_create_directory: (dir, pp, pn) => { self.step(); const name = at(dir, pp, pn); if (disk.dirs.has(name) || find(name)) return E.EXIST; if (!disk.dirs.has(parent(name))) return E.NOENT; const e = fault(); if (e) return e; disk.dirs.add(name); return 0; },
    path_unlink_file: (dir, pp, pn) => { self.step(); const name = at(dir, pp, pn); if (!disk.files.has(name)) return disk.dirs.has(name) ? X.ISDIR : E.NOENT; const e = fault(); if (e) return e; disk.files.delete(name); return 0; },
    path_remove_directory: (dir, pp, pn) => { self.step(); const name = at(dir, pp, pn); if (!disk.dirs.has(name)) return E.NOENT; if (names(name).length) return X.NOTEMPTY; const e = fault(); if (e) return e; disk.dirs.delete(name); return 0; },
    path_rename: (d1, p1, n1, d2, p2, n2) => { self.step(); const a = at(d1, p1, n1), b = at(d2, p2, n2); if (!disk.files.has(a)) return E.NOENT; if (disk.dirs.has(b)) return X.ISDIR; const e = fault(); if (e) return e; disk.files.set(b, disk.files.get(a)); if (a !== b) disk.files.delete(a); d.event(`disk: rename ${a} to ${b}`); return 0; },
    path_filestat_set_times: () => 0, fd_filestat_set_times: () => 0, fd_advise: () => 0, fd_allocate: () => 0,
    path_readlink: () => E.INVAL,
    fd_close: fd => { self.open.delete(fd); return 0; },
    fd_fdstat_get: (fd, p) => { if (fd <= 2) return was.fd_fdstat_get(fd, p); const h = self.open.get(fd); if (fd !== 3 && !h) return E.BADF; self.u8().fill(0, p, p + 24); const v = self.dv(); v.setUint8(p, fd === 3 || h.dir !== undefined ? 3 : 4); v.setBigUint64(p + 8, 0xffffffffn, true); v.setBigUint64(p + 16, 0xffffffffn, true); return 0; },
    fd_filestat_get: (fd, p) => { if (fd <= 2) return was.fd_filestat_get(fd, p); const h = self.open.get(fd); if (fd !== 3 && !h) return E.BADF; return stat(p, h?.f, fd === 3 || h.dir !== undefined); },
    fd_filestat_set_size: (fd, n) => { const h = file(fd); if (!h) return E.BADF; const e = fault(); if (e) return e; const b = new Uint8Array(Number(n)); b.set(h.f.data.subarray(0, Number(n))); h.f.data = b; h.f.time = self.wall; return 0; },
    fd_sync: fd => { const h = file(fd); if (h) { const e = fault(); if (e) return e; h.f.safe = h.f.data; } return 0; },
    fd_datasync: fd => wasi.fd_sync(fd),
    fd_seek: (fd, off, whence, pn) => { const h = file(fd); if (!h) return fd <= 2 ? X.SPIPE : E.BADF; const base = whence === 0 ? 0 : whence === 1 ? h.pos : h.f.data.length; h.pos = base + Number(off); self.dv().setBigUint64(pn, BigInt(h.pos), true); return 0; },
    fd_tell: (fd, pn) => { const h = file(fd); if (!h) return fd <= 2 ? X.SPIPE : E.BADF; self.dv().setBigUint64(pn, BigInt(h.pos), true); return 0; },
    fd_read: (fd, io, n, pn) => { if (fd <= 2) return was.fd_read(fd, io, n, pn); self.step(); const h = file(fd); if (!h) return self.open.has(fd) ? X.ISDIR : E.BADF; h.pos += read(h, h.pos, io, n, pn); return 0; },
    fd_pread: (fd, io, n, off, pn) => { self.step(); const h = file(fd); if (!h) return E.BADF; read(h, Number(off), io, n, pn); return 0; },
    fd_write: (fd, io, n, pn) => { if (fd <= 2) return was.fd_write(fd, io, n, pn); self.step(); const h = file(fd); if (!h) return E.BADF; if (h.append) h.pos = h.f.data.length; const [e, k] = write(h, h.pos, io, n, pn); h.pos += k; return e; },
    fd_pwrite: (fd, io, n, off, pn) => { self.step(); const h = file(fd); if (!h) return E.BADF; return write(h, Number(off), io, n, pn)[0]; },
    fd_readdir: (fd, buf, len, cookie, pused) => {
      self.step();
      const h = fd === 3 ? { dir: '' } : self.open.get(fd); if (h?.dir === undefined) return E.BADF;
      const list = ['.', '..', ...names(h.dir)]; let used = 0;
      for (let i = Number(cookie); i < list.length && used < len; i++) {
        const nm = new TextEncoder().encode(list[i]), e = new Uint8Array(24 + nm.length), v = new DataView(e.buffer);
        v.setBigUint64(0, BigInt(i + 1), true); v.setBigUint64(8, BigInt(i + 1), true); v.setUint32(16, nm.length, true); v.setUint8(20, i < 2 || disk.dirs.has((h.dir ? h.dir + '/' : '') + list[i]) ? 3 : 4); e.set(nm, 24);
        const k = Math.min(e.length, len - used); self.u8().set(e.subarray(0, k), buf + used); used += k;
      }
      self.dv().setUint32(pused, used, true); return 0;
    },
  });
}
