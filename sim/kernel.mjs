// Simulated WASI host. One World is everything a guest can observe across all
// the processes of one execution; one Kernel is one host process (a chiwawa
// process, or the guest run directly by the reference engine).
import { Rng, hashBytes } from './rng.mjs';
import { Fs, E, FT } from './fs.mjs';
import { WASI, OBS_FD } from './wasm.mjs';

export class Signal extends Error { constructor(kind, info) { super(kind); this.kind = kind; this.info = info; } }
// what the current case exercised (reset by the worker for every case)
export const STATS = { procs: 0, polls: 0, vtime: 0, calls: 0, faults: {}, sig: [], ckpts: 0, restores: 0 };
// told when the reference engine (1) or the interpreter (0) is what runs
export const HOOKS = { phase() {} };
export function resetStats() { Object.assign(STATS, { procs: 0, polls: 0, vtime: 0, calls: 0, faults: {}, sig: [], ckpts: 0, restores: 0 }); }
export function injected(k, n = 1) { STATS.faults[k] = (STATS.faults[k] || 0) + n; }
const MAXSAID = 4e6;
export const LISTEN_FD = 101, IFD0 = 200;
const FDMAX = 500; // descriptors the guest may hold
const RIGHTS = 0x1fffffffn;
const hex = (b) => (b.length <= 24 ? Buffer.from(b).toString('hex') : b.length + '#' + hashBytes(b));

// lone surrogates U+DC80..U+DCFF stand for raw bytes that are not UTF-8
const bytesOfString = (s) => (/[\udc80-\udcff]/.test(s) ? Buffer.concat([...s].map((c) => { const u = c.codePointAt(0); return u >= 0xdc80 && u <= 0xdcff ? Buffer.of(u - 0xdc00) : Buffer.from(c); })) : Buffer.from(s));
export class World {
  constructor(cfg) { // {seed, host, faults:{idx:fault}, env, files}
    this.s = { gidx: 0, hist: [], fds: new Map(), gfs: new Fs().s, socks: 0, seg: 0, ended: false, clockOff: 0n, monoOff: 0n, bytes: 0 };
    this.gfs = new Fs(this.s.gfs);
    this.cfg = cfg;
    // preopened directories from descriptor 3 on; the guest's files are in the first, the interpreter's in '.'
    this.dirs = cfg.dirs || ['.'];
    this.hosts = cfg.hosts || [cfg.host || { seed: cfg.seed, epoch: '1700000000000000000', env: [] }];
    for (const [p, hx] of Object.entries(cfg.files || {})) this.seedFile(p, Buffer.from(hx, 'hex'));
    this.fired = {};
  }
  seedFile(path, data) {
    const parts = path.split('/'); let d = 1;
    for (const p of parts.slice(0, -1)) { let id = this.gfs.node(d).ent.get(p); if (!id) { const n = this.gfs.mknode(FT.dir, 0); this.gfs.setEntry(d, p, n.id); id = n.id; } d = id; }
    const n = this.gfs.mknode(FT.reg, 0); n.nlink = 1; this.gfs.write(n, 0, data); this.gfs.setEntry(d, parts[parts.length - 1], n.id);
  }
  snapshot() { return structuredClone(this.s); }
  rollback(snap) { this.s = structuredClone(snap); this.gfs = new Fs(this.s.gfs); }
  host() { return this.hosts[Math.min(this.s.seg, this.hosts.length - 1)]; }
  rng(tag) { return new Rng(this.host().seed + '/' + tag + this.s.gidx); }
  fault() { const f = this.cfg.faults && this.cfg.faults[this.s.gidx]; return f || null; }
  count(k) { this.fired[k] = (this.fired[k] || 0) + 1; injected('host_' + k); }
  time(id) {
    const h = this.host(), i = BigInt(this.s.gidx);
    const j = BigInt(new Rng(h.seed + '/t' + this.s.gidx).int(900000));
    const mono = i * 1000000n + j;
    if (id === 0) return BigInt(h.epoch) + mono * BigInt(h.drift || 1) + this.s.clockOff;
    return BigInt.asUintN(64, 5000000n + BigInt(h.mono || 0) + mono + this.s.monoOff);
  }
  fdAlloc() { let f = 3 + this.dirs.length; while (this.s.fds.has(f) || f === OBS_FD || f === LISTEN_FD) f++; return f; }
  full() { return this.s.fds.size >= FDMAX; }
}

export class Kernel {
  // opt: {world, disk, args, env, direct, onCall(kernel,name,when), iplan, capacity}
  constructor(opt) {
    Object.assign(this, opt);
    this.fds = new Map(); // internal descriptors
    // the interpreter's own randomness and clocks: different in every process
    this.own = new Rng('boot' + (this.boot?.seed ?? 'p' + STATS.procs)); this.ownClock = 0n;
    this.nextFd = IFD0;
    this.dirs = this.world?.dirs || ['.']; this.wd = 3 + this.dirs.indexOf('.');
    this.out = ['', '']; this.guestOut = [];
    this.running = !!opt.direct; this.moduleClosed = false;
    this.pendingLoads = new Set(opt.loadFiles || []);
    this.iop = 0; this.iops = []; this.inGuest = false;
    this.calls = 0; this.fired = {};
    this.maxGuestCalls = opt.maxGuestCalls || 200000;
  }
  pre(fd) { return fd >= 3 && fd < 3 + this.dirs.length; }
  std(fd) { return fd >= 0 && fd < 3 + this.dirs.length; }
  bind(memory) { this.memory = memory; }
  get u8() { if (!this._u8 || this._u8.buffer !== this.memory.buffer) { this._u8 = new Uint8Array(this.memory.buffer); this._dv = new DataView(this.memory.buffer); } return this._u8; }
  get dv() { this.u8; return this._dv; }
  // memory access that faults like a real host would
  rd(p, n) { p >>>= 0; if (p + n > this.u8.length) throw new Signal('efault', 'read ' + p + '+' + n); return this.u8.slice(p, p + n); }
  wr(p, b) { p >>>= 0; if (p + b.length > this.u8.length) throw new Signal('efault', 'write ' + p); this.u8.set(b, p); }
  w32(p, v) { p >>>= 0; if (p + 4 > this.u8.length) throw new Signal('efault', 'write ' + p); this.dv.setUint32(p, v >>> 0, true); }
  w64(p, v) { p >>>= 0; if (p + 8 > this.u8.length) throw new Signal('efault', 'write ' + p); this.dv.setBigUint64(p, BigInt.asUintN(64, v), true); }
  r32(p) { p >>>= 0; if (p + 4 > this.u8.length) throw new Signal('efault', 'read ' + p); return this.dv.getUint32(p, true); }
  str(p, n) { return Buffer.from(this.rd(p, n)).toString('latin1'); }
  iov(p, n) { const r = []; n >>>= 0; if (n > 1024) throw new Signal('efault', 'iovs ' + n); for (let i = 0; i < n; i++) { const l = this.r32(p + i * 8 + 4), b = this.r32(p + i * 8); if (l && b + l > this.u8.length) throw new Signal('efault', 'iov'); r.push([b, l]); } return r; }
  gather(iov) { const n = iov.reduce((a, [, l]) => a + l, 0), o = new Uint8Array(n); let k = 0; for (const [p, l] of iov) if (l) { o.set(this.rd(p, l), k); k += l; } return o; }
  scatter(iov, b) { let k = 0; for (const [p, l] of iov) { if (k >= b.length) break; const n = Math.min(l, b.length - k); if (n) this.wr(p, b.subarray(k, k + n)); k += n; } }

  imports() {
    const o = {};
    for (const n of Object.keys(WASI)) o[n] = (...a) => this.call(n, a);
    o.proc_raise = () => E.NOSYS;
    return o;
  }
  // which side of the interpreter is calling?
  isGuest(n, a) {
    if (this.direct) return true;
    switch (n) {
      case 'fd_write':
        if (a[0] === 1 || a[0] === 2) { const b = this.gather(this.iov(a[1], a[2])); return b.some((x) => x >= 0x80); }
        return !this.fds.has(a[0]);
      case 'fd_prestat_get': case 'fd_prestat_dir_name': return this.running;
      case 'path_open': case 'path_filestat_get': case 'path_filestat_set_times': case 'path_readlink':
        return this.guestPath(a[0], this.str(n === 'path_readlink' ? a[1] : a[2], n === 'path_readlink' ? a[2] : a[3]));
      case 'path_create_directory': case 'path_remove_directory': case 'path_unlink_file': return this.guestPath(a[0], this.str(a[1], a[2]));
      case 'path_link': return this.guestPath(a[0], this.str(a[2], a[3]));
      case 'path_rename': return this.guestPath(a[0], this.str(a[1], a[2]));
      case 'path_symlink': return this.guestPath(a[2], this.str(a[3], a[4]));
      case 'environ_get': case 'environ_sizes_get': case 'args_get': case 'args_sizes_get': return false;
      case 'fd_fdstat_get': return !this.std(a[0]) && !this.fds.has(a[0]); // the interpreter's libc probes its preopens too
      // generated guests mark these two (see gen.mjs); the interpreter's own uses never look like that
      case 'random_get': return this.running && (a[1] >>> 0) % 7 === 5;
      case 'clock_time_get': return this.running && BigInt(a[1]) !== 1n; // libc asks with precision 1
      case 'clock_res_get': case 'sched_yield': case 'poll_oneoff': return this.running;
      case 'proc_exit': return this.running && a[0] >>> 0 >= 16;
      default: return !this.fds.has(a[0]) && (a[0] >= 3 + this.dirs.length || this.running);
    }
  }
  // a trace that goes on and on is not worth following
  chat(fd, n) { if ((fd < 3 || this.args?.includes('--trace-output=' + (this.fds.get(fd) || {}).path)) && (this.said = (this.said || 0) + n) > MAXSAID) throw new Signal('flood', {}); }
  ownTime(id) {
    const b = this.boot || {}, r = this.own;
    this.ownClock += BigInt(b.step ?? 1000) * BigInt(1 + r.int(2000));
    return id === 0 ? BigInt(b.epoch ?? '1700000000000000000') + (b.back && r.chance(0.3) ? -BigInt(r.int(1e9)) : 1n) * this.ownClock : this.ownClock;
  }
  guestPath(fd, p) { return this.pre(fd) ? p === 'g' || p.startsWith('g/') : !this.fds.has(fd); }

  call(n, a) {
    this.calls++;
    if (this.onCall) this.onCall(n, 'before');
    const guest = this.isGuest(n, a);
    let r;
    if (guest) r = this.guestCall(n, a); else r = this.internalCall(n, a);
    if (this.onCall) this.onCall(n, 'after', guest);
    return r;
  }
  // ---------------------------------------------------------------- guest side
  guestCall(n, a) {
    const w = this.world, s = w.s;
    if (this.refuse) this.refuse(n);
    if (s.gidx >= this.maxGuestCalls) throw new Signal('runaway');
    this.guestCalls = (this.guestCalls || 0) + 1;
    const skip = (n === 'random_get' && (a[1] >>> 0) === 0) || (n === 'fd_fdstat_get' && this.std(a[0])) || ((n === 'environ_get' || n === 'environ_sizes_get' || n === 'args_get' || n === 'args_sizes_get'));
    this.rec = null;
    if (skip) { if (this.onSkip) this.onSkip(n, s.gidx, this); return this.sys(n, a, this.gcx()); }
    if (this.onGuest) this.onGuest(n, s.gidx, this);
    const f = w.fault();
    let e;
    this.note = '';
    this.fault = f;
    if (f && f.jump && (n === 'clock_time_get' || n === 'poll_oneoff')) { s[f.mono ? 'monoOff' : 'clockOff'] += BigInt(f.jump); w.count('clock_jump'); }
    if (f && f.errno && f.errno !== 0 && !NOFAIL.has(n) && !(n === 'fd_write' && a[0] === OBS_FD)) {
      e = f.errno; this.note = this.describe(n, a); w.count('errno'); w.count('errno:' + n);
    } else e = this.sys(n, a, this.gcx());
    this.fault = null;
    s.hist.push(n + ' ' + this.note + ' -> ' + e);
    s.gidx++;
    return e;
  }
  gcx() { return { g: true, fs: this.world.gfs, fds: this.world.s.fds }; }
  icx() { return { g: false, fs: this.disk, fds: this.fds }; }
  describe(n, a) { // inputs of a call that is failed before it takes effect
    try {
      switch (n) {
        case 'fd_write': return a[0] + ' ' + hex(this.gather(this.iov(a[1], a[2])));
        case 'fd_pwrite': return a[0] + ' ' + hex(this.gather(this.iov(a[1], a[2]))) + ' @' + a[3];
        case 'sock_send': return a[0] + ' ' + hex(this.gather(this.iov(a[1], a[2])));
        case 'fd_read': case 'fd_pread': case 'sock_recv': return a[0] + ' ' + this.iov(a[1], a[2]).map((x) => x[1]).join(',') + (n === 'fd_pread' ? ' @' + a[3] : '');
        case 'path_open': return a[0] + ' ' + this.str(a[2], a[3]) + ' ' + [a[1], a[4], a[5], a[6], a[7]].join(',');
        default: return '';
      }
    } catch (x) { if (x instanceof Signal) return 'efault'; throw x; }
  }
  // ------------------------------------------------------------- internal side
  internalCall(n, a) {
    const fsop = n.startsWith('path_') || (n.startsWith('fd_') && a[0] >= IFD0);
    let path = '';
    if (fsop) path = n.startsWith('path_') ? this.ipath(n, a) : (this.fds.get(a[0]) || {}).path || '';
    const counted = fsop && !/trigger/.test(path);
    let f = null;
    if (counted) {
      const i = this.iop++;
      this.iops.push({ i, n, path, run: this.running });
      if (this.iplan) f = this.iplan(i, n, path, this, a);
    } else if (fsop && this.tplan) f = this.tplan(n, path, this);
    else if ((n === 'fd_write') && (a[0] === 1 || a[0] === 2) && this.oplan) f = this.oplan(n, a[0], this);
    this.fault = f; this.note = '';
    if (f) {
      const key = f.crash ? 'crash_' + f.crash : f.errno ? 'internal_errno' : f.short != null ? 'internal_short' : f.flip ? 'read_corruption' : 'other';
      this.fired[key] = (this.fired[key] || 0) + 1; injected(key);
      if (f.crash === 'before') throw new Signal('crash', { i: this.iop - 1 });
      if (f.crash === 'torn' && n === 'fd_write') { f.short = f.n; this.sys(n, a, this.icx()); throw new Signal('crash', { i: this.iop - 1 }); }
      if (f.errno) { this.fault = null; if (n === 'fd_write') this.chat(a[0], this.iov(a[1], a[2]).reduce((x, y) => x + y[1], 0)); return f.errno; }
    }
    const e = this.sys(n, a, this.icx());
    this.fault = null;
    if (f && f.crash) throw new Signal('crash', { i: this.iop - 1 });
    if (n === 'fd_close' && this.pendingLoads.size) { this.pendingLoads.delete(path); if (!this.pendingLoads.size) this.running = true; }
    return e;
  }
  ipath(n, a) {
    switch (n) {
      case 'path_open': case 'path_filestat_get': case 'path_filestat_set_times': case 'path_link': return clean(this.str(a[2], a[3]));
      case 'path_symlink': return clean(this.str(a[3], a[4]));
      default: return clean(this.str(a[1], a[2]));
    }
  }
  // ------------------------------------------------------------- system calls
  dirOf(cx, fd, path) { // -> [dirInode, path] or errno
    if (cx.g ? fd === 3 : fd === this.wd) return cx.g ? [1, path === 'g' ? '.' : path.slice(2)] : [1, path];
    if (!cx.g && this.pre(fd)) { const d = cx.fs.node(1).ent.get('d'); return d ? [d, path] : E.NOENT; }
    const d = cx.fds.get(fd);
    if (!d) return E.BADF;
    if (d.kind !== 'dir') return E.NOTDIR;
    return [d.ino, path];
  }
  look(cx, fd, path, follow) {
    if (cx.g && fd === 3 && !(path === 'g' || path.startsWith('g/'))) return { err: E.NOENT };
    const d = this.dirOf(cx, fd, path);
    if (!Array.isArray(d)) return { err: d };
    return cx.fs.resolve(d[0], d[1], follow);
  }
  filestat(p, n) {
    const b = new Uint8Array(64), v = new DataView(b.buffer);
    v.setBigUint64(0, 1n, true); v.setBigUint64(8, BigInt(n.id), true); b[16] = n.type; v.setBigUint64(24, BigInt(Math.max(1, n.nlink)), true);
    v.setBigUint64(32, BigInt(n.size), true); v.setBigUint64(40, n.atim, true); v.setBigUint64(48, n.mtim, true); v.setBigUint64(56, n.ctim, true);
    this.wr(p, b); return hex(b);
  }
  sys(n, a, cx) {
    const now = () => (cx.g ? this.world.time(0) : this.ownTime(0));
    const f = this.fault;
    const N = (t) => { this.note = t; };
    const short = (k) => { if (f && f.short != null && k > f.short && f.short >= 0) { if (cx.g) this.world.count('short'); return Math.max(f.short, 1); } return k; };
    const reg = (fd) => { const d = cx.fds.get(fd); return d; };
    switch (n) {
      case 'args_sizes_get': this.w32(a[0], this.args.length); this.w32(a[1], this.args.reduce((x, s) => x + Buffer.byteLength(s) + 1, 0)); return 0;
      case 'args_get': return this.strings(this.args, a);
      case 'environ_sizes_get': { const v = this.env(); this.w32(a[0], v.length); this.w32(a[1], v.reduce((x, s) => x + bytesOfString(s).length + 1, 0)); return 0; }
      case 'environ_get': return this.strings(this.env(), a);
      case 'clock_res_get': N(a[0]); if (a[0] > 3 || a[0] < 0) return E.INVAL; { const res = ((this.world && this.world.host().res) || 1000) + 9 * a[0]; this.w64(a[1], BigInt(res)); N(a[0] + ' ' + (this.world ? res : '')); return 0; } // each clock has its own
      case 'clock_time_get': { N(a[0] + ' p' + a[1]); if (a[0] > 3 || a[0] < 0) return E.INVAL; const t = cx.g ? this.world.time(a[0]) : this.ownTime(a[0]); this.w64(a[2], t); N(a[0] + ' p' + a[1] + ' ' + t); return 0; }
      case 'random_get': { const k = a[1] >>> 0; if (k > 70000) return E.INVAL; if (cx.g && (this.world.s.bytes += k) > 2e7) throw new Signal('runaway'); const b = cx.g ? this.world.rng('r').bytes(k) : this.own.bytes(k); this.wr(a[0], b); N(k + ' ' + hex(b)); return 0; }
      case 'sched_yield': return 0;
      case 'proc_exit': throw new Signal('exit', a[0]);
      case 'poll_oneoff': return this.poll(a, cx);
      case 'fd_prestat_get': { N(a[0]); if (!this.pre(a[0])) return E.BADF; this.w32(a[1], 0); this.w32(a[1] + 4, this.dirs[a[0] - 3].length); return 0; }
      case 'fd_prestat_dir_name': { N(a[0]); if (!this.pre(a[0])) return E.BADF; N(a[0] + ' ' + a[2]); const nm = this.dirs[a[0] - 3]; if ((a[2] >>> 0) < nm.length) return E.NAMETOOLONG; this.wr(a[1], Buffer.from(nm)); return 0; }
      case 'fd_write': case 'fd_pwrite': {
        const iov = this.iov(a[1], a[2]), all = this.gather(iov), pw = n === 'fd_pwrite';
        const np = pw ? a[4] : a[3];
        if (!cx.g) this.chat(a[0], all.length);
        if (a[0] === 1 || a[0] === 2) {
          if (pw) { N(a[0] + ''); return E.SPIPE; }
          const k = short(all.length), b = all.subarray(0, k);
          if (cx.g) { N(a[0] + ' ' + hex(all) + ' ' + k); this.guestOut.push([a[0], Uint8Array.from(b)]); } else this.out[a[0] - 1] += Buffer.from(b).toString('latin1');
          this.w32(np, k); return 0;
        }
        if (cx.g && a[0] === OBS_FD) {
          if (pw) return E.SPIPE;
          N(OBS_FD + ' ' + hex(all)); if (this.onObs) this.onObs(all);
          if (all.length === 4 && all[0] === 0x21 && all[1] === 0x45 && all[2] === 0x4e && all[3] === 0x44) this.world.s.ended = true;
          this.w32(np, all.length); return 0;
        }
        const d = reg(a[0]);
        N(a[0] + ' ' + hex(all) + (pw ? ' @' + a[3] : ''));
        if (!d) return E.BADF;
        if (d.kind === 'dir') return E.ISDIR; if (d.kind === 'sock') return pw ? E.SPIPE : this.ssend(a[0], d, all, np, short);
        if (!d.w) return E.BADF;
        const k = short(all.length);
        const node = cx.fs.node(d.ino);
        const off = pw ? Number(a[3]) : d.append ? node.size : d.off;
        if (off > 1 << 24) return E.FBIG;
        const r = k ? cx.fs.write(node, off, all.subarray(0, k)) : 0;
        if (r < 0) { if (!cx.g) this.fired.nospace = (this.fired.nospace || 0) + 1; else this.world.count('nospace'); return -r; }
        if (!cx.g && r < all.length) this.fired.short_write = (this.fired.short_write || 0) + 1;
        if (!pw) d.off = off + r;
        node.mtim = now();
        this.w32(np, r); N(this.note + ' ' + r); return 0;
      }
      case 'fd_read': case 'fd_pread': {
        const iov = this.iov(a[1], a[2]), pr = n === 'fd_pread', np = pr ? a[4] : a[3];
        const tot = iov.reduce((x, y) => x + y[1], 0);
        N(a[0] + ' ' + iov.map((x) => x[1]).join(',') + (pr ? ' @' + a[3] : ''));
        if (a[0] === 0) { if (pr) return E.SPIPE; const b = cx.g ? this.world.rng('in').bytes(short(Math.min(tot, this.world.rng('inl').int(40)))) : new Uint8Array(0); this.scatter(iov, b); this.w32(np, b.length); N(this.note + ' ' + hex(b)); return 0; }
        const d = reg(a[0]);
        if (!d) return E.BADF;
        if (d.kind === 'dir') return E.ISDIR; if (d.kind === 'sock') return pr ? E.SPIPE : this.srecv(a[0], d, iov, 0, np, null, short);
        if (!d.r) return E.BADF;
        const off = pr ? Number(BigInt.asUintN(64, BigInt(a[3]))) : d.off;
        let b = cx.fs.read(cx.fs.node(d.ino), off, short(tot));
        if (f && f.flip && b.length) { b = b.slice(); const i = f.flip.at % b.length; b[i] ^= f.flip.mask; }
        this.scatter(iov, b); if (!pr) d.off += b.length;
        this.w32(np, b.length); N(this.note + ' ' + hex(b)); return 0;
      }
      case 'fd_seek': {
        N(a.slice(0, 3).join()); const d = reg(a[0]); if (!d) return a[0] <= 2 ? E.SPIPE : E.BADF; if (d.kind !== 'file') return d.kind === 'dir' ? E.BADF : E.SPIPE;
        const base = a[2] === 0 ? 0n : a[2] === 1 ? BigInt(d.off) : a[2] === 2 ? BigInt(cx.fs.node(d.ino).size) : null;
        if (base == null) return E.INVAL; const t = base + BigInt(a[1]); if (t < 0n || t > 1n << 40n) return E.INVAL;
        d.off = Number(t); this.w64(a[3], t); N(this.note + ' ' + t); return 0;
      }
      case 'fd_tell': { N(a[0]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'file') return E.SPIPE; this.w64(a[1], BigInt(d.off)); N(a[0] + ' ' + d.off); return 0; }
      case 'fd_sync': case 'fd_datasync': { N(a[0]); const d = reg(a[0]); if (!d) return this.pre(a[0]) ? 0 : E.BADF; if (d.kind === 'sock') return E.INVAL; if (d.ino) cx.fs.sync(cx.fs.node(d.ino)); this.synced = (this.synced || 0) + 1; return 0; }
      case 'fd_close': { N(a[0]); if (!cx.fds.has(a[0])) return a[0] < 3 + this.dirs.length ? 0 : E.BADF; cx.fds.delete(a[0]); return 0; }
      case 'fd_renumber': { N(a[0] + ' ' + a[1]); const d = reg(a[0]); if (!d) return E.BADF; if (!cx.fds.has(a[1])) return E.BADF; if (a[0] !== a[1]) { cx.fds.set(a[1], d); cx.fds.delete(a[0]); } return 0; }
      case 'fd_fdstat_get': {
        N(a[0]); const b = new Uint8Array(24), v = new DataView(b.buffer), d = reg(a[0]);
        if (a[0] <= 2) { b[0] = FT.chr; } else if (this.pre(a[0])) b[0] = FT.dir; else if (a[0] === OBS_FD && cx.g) b[0] = FT.chr; else if (a[0] === LISTEN_FD && cx.g) b[0] = FT.stream; else if (!d) return E.BADF; else { b[0] = d.kind === 'dir' ? FT.dir : d.kind === 'sock' ? FT.stream : FT.reg; v.setUint16(2, d.flags || 0, true); }
        v.setBigUint64(8, d && d.rights != null ? BigInt.asUintN(64, BigInt(d.rights)) : RIGHTS, true); v.setBigUint64(16, RIGHTS, true); this.wr(a[1], b); N(a[0] + ' ' + hex(b)); return 0;
      }
      case 'fd_fdstat_set_flags': { N(a[0] + ' ' + a[1]); const d = reg(a[0]); if (!d) return a[0] <= 2 ? 0 : E.BADF; if (a[1] & ~31) return E.INVAL; d.flags = a[1]; d.append = !!(a[1] & 1); return 0; }
      case 'fd_fdstat_set_rights': { N(a.join()); const d = reg(a[0]); if (!d) return E.BADF; d.rights = String(a[1]); return 0; }
      case 'fd_filestat_get': { N(a[0]); const d = reg(a[0]); if (a[0] <= 2 || this.pre(a[0]) && !d) { const st = { id: 0, type: a[0] > 2 ? FT.dir : FT.chr, nlink: 1, size: 0, atim: 0n, mtim: 0n, ctim: 0n }; N(a[0] + ' ' + this.filestat(a[1], st)); return 0; } if (!d) return E.BADF; if (d.kind === 'sock') return E.NOTSUP; N(a[0] + ' ' + this.filestat(a[1], cx.fs.node(d.ino))); return 0; }
      case 'fd_filestat_set_size': { N(a[0] + ' ' + a[1]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'file' || !d.w) return E.INVAL; const z = BigInt.asUintN(64, BigInt(a[1])); if (z > 1n << 20n) return E.FBIG; cx.fs.setSize(cx.fs.node(d.ino), Number(z)); return 0; }
      case 'fd_allocate': { N(a.join()); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'file') return E.NOTSUP; const z = BigInt.asUintN(64, BigInt(a[1])) + BigInt.asUintN(64, BigInt(a[2])); if (z > 1n << 20n) return E.FBIG; const nd = cx.fs.node(d.ino); if (Number(z) > nd.size) cx.fs.setSize(nd, Number(z)); return 0; }
      case 'fd_advise': { N(a.join()); const d = reg(a[0]); if (!d) return E.BADF; return a[3] > 5 ? E.INVAL : 0; }
      case 'fd_filestat_set_times': { N(a.join()); const d = reg(a[0]); if (!d) return E.BADF; if (!d.ino) return E.NOTSUP; return this.setTimes(cx.fs.node(d.ino), a[1], a[2], a[3], now); }
      case 'fd_readdir': {
        N(a[0] + ' ' + a[2] + ' @' + a[3]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'dir') return E.NOTDIR;
        const dir = cx.fs.node(d.ino); const list = [['.', d.ino], ['..', 1], ...[...dir.ent].map(([k, v]) => [k, v])];
        let out = []; const cap = a[2] >>> 0;
        for (let i = Number(BigInt.asUintN(64, BigInt(a[3]))); i < list.length && out.length < cap; i++) {
          const b = new Uint8Array(24 + list[i][0].length), v = new DataView(b.buffer);
          v.setBigUint64(0, BigInt(i + 1), true); v.setBigUint64(8, BigInt(list[i][1]), true); v.setUint32(16, list[i][0].length, true); b[20] = (cx.fs.node(list[i][1]) || { type: 0 }).type;
          b.set(Buffer.from(list[i][0], 'latin1'), 24); out.push(...b);
        }
        out = Uint8Array.from(out.slice(0, cap)); this.wr(a[1], out); this.w32(a[4], out.length); N(this.note + ' ' + hex(out)); return 0;
      }
      case 'path_open': {
        const p = this.str(a[2], a[3]); N(a[0] + ' ' + p + ' ' + [a[1], a[4], BigInt.asUintN(64, BigInt(a[5])), BigInt.asUintN(64, BigInt(a[6])), a[7]].join(','));
        const creat = a[4] & 1, dirf = a[4] & 2, excl = a[4] & 4, trunc = a[4] & 8;
        if (cx.g && this.world.full()) return E.MFILE;
        const r = this.look(cx, a[0], p, !!(a[1] & 1));
        if (r.err) return r.err;
        let node;
        const rw = BigInt(a[5]), canW = !!(rw & 64n) , canR = !!(rw & 2n);
        if (r.id) {
          if (creat && excl) return E.EXIST;
          node = cx.fs.node(r.id);
          if (node.type === FT.link) return E.LOOP;
          if (dirf && node.type !== FT.dir) return E.NOTDIR;
          if (node.type === FT.dir && (canW || trunc || (creat && !dirf)) && !dirf) return E.ISDIR;
          if (trunc) cx.fs.setSize(node, 0);
        } else {
          if (!creat) return E.NOENT; if (dirf || r.trailing) return E.INVAL; if (r.name === '.') return E.ISDIR;
          if (cx.fs.s.maxNodes && cx.fs.s.ino.size >= cx.fs.s.maxNodes) return E.NOSPC;
          node = cx.fs.mknode(FT.reg, now()); node.nlink = 1; cx.fs.setEntry(r.dir, r.name, node.id);
        }
        const fd = cx.g ? this.world.fdAlloc() : this.nextFd++;
        cx.fds.set(fd, { ino: node.id, off: 0, kind: node.type === FT.dir ? 'dir' : 'file', r: canR, w: canW, append: !!(a[7] & 1), flags: a[7], path: cx.g ? undefined : clean(p) });
        this.w32(a[8], fd); N(this.note + ' fd' + (cx.g ? fd : '')); return 0;
      }
      case 'path_create_directory': { const p = this.str(a[1], a[2]); N(a[0] + ' ' + p); const r = this.look(cx, a[0], p, false); if (r.err) return r.err; if (r.id) return E.EXIST; const nd = cx.fs.mknode(FT.dir, now()); cx.fs.setEntry(r.dir, r.name, nd.id); return 0; }
      case 'path_remove_directory': { const p = this.str(a[1], a[2]); N(a[0] + ' ' + p); const r = this.look(cx, a[0], p, false); if (r.err) return r.err; if (!r.id) return E.NOENT; const nd = cx.fs.node(r.id); if (nd.type !== FT.dir) return E.NOTDIR; if (nd.ent.size || r.name === '.') return E.NOTEMPTY; cx.fs.delEntry(r.dir, r.name); return 0; }
      case 'path_unlink_file': { const p = this.str(a[1], a[2]); N(a[0] + ' ' + p); const r = this.look(cx, a[0], p, false); if (r.err) return r.err; if (!r.id) return E.NOENT; if (cx.fs.node(r.id).type === FT.dir) return E.ISDIR; cx.fs.delEntry(r.dir, r.name); cx.fs.drop(r.id); return 0; }
      case 'path_filestat_get': { const p = this.str(a[2], a[3]); N(a[0] + ' ' + a[1] + ' ' + p); const r = this.look(cx, a[0], p, !!(a[1] & 1)); if (r.err) return r.err; if (!r.id) return E.NOENT; N(this.note + ' ' + this.filestat(a[4], cx.fs.node(r.id))); return 0; }
      case 'path_filestat_set_times': { const p = this.str(a[2], a[3]); N(a[0] + ' ' + a[1] + ' ' + p + ' ' + a.slice(4).join()); const r = this.look(cx, a[0], p, !!(a[1] & 1)); if (r.err) return r.err; if (!r.id) return E.NOENT; return this.setTimes(cx.fs.node(r.id), a[4], a[5], a[6], now); }
      case 'path_readlink': { const p = this.str(a[1], a[2]); N(a[0] + ' ' + p + ' ' + a[4]); const r = this.look(cx, a[0], p, false); if (r.err) return r.err; if (!r.id) return E.NOENT; const nd = cx.fs.node(r.id); if (nd.type !== FT.link) return E.INVAL; const b = Buffer.from(nd.target, 'latin1').subarray(0, a[4] >>> 0); this.wr(a[3], b); this.w32(a[5], b.length); N(this.note + ' ' + hex(b)); return 0; }
      case 'path_symlink': { const t = this.str(a[0], a[1]), p = this.str(a[3], a[4]); N(t + ' ' + a[2] + ' ' + p); const r = this.look(cx, a[2], p, false); if (r.err) return r.err; if (r.id) return E.EXIST; if (t[0] === '/') return E.NOTCAPABLE; if (!t) return E.NOENT; const nd = cx.fs.mknode(FT.link, now()); nd.target = t; nd.size = t.length; cx.fs.setEntry(r.dir, r.name, nd.id); return 0; }
      case 'path_link': {
        const p = this.str(a[2], a[3]), q = this.str(a[5], a[6]); N(a[0] + ' ' + a[1] + ' ' + p + ' ' + a[4] + ' ' + q);
        const r = this.look(cx, a[0], p, !!(a[1] & 1)); if (r.err) return r.err; if (!r.id) return E.NOENT; const nd = cx.fs.node(r.id); if (nd.type === FT.dir) return E.PERM;
        const t = this.look(cx, a[4], q, false); if (t.err) return t.err; if (t.id) return E.EXIST; nd.nlink++; cx.fs.setEntry(t.dir, t.name, nd.id); return 0;
      }
      case 'path_rename': {
        const p = this.str(a[1], a[2]), q = this.str(a[4], a[5]); N(a[0] + ' ' + p + ' ' + a[3] + ' ' + q);
        const r = this.look(cx, a[0], p, false); if (r.err) return r.err; if (!r.id) return E.NOENT;
        const t = this.look(cx, a[3], q, false); if (t.err) return t.err;
        const sn = cx.fs.node(r.id); if (r.name === '.' || t.name === '.') return E.INVAL;
        if (t.id === r.id) return 0;
        if (t.id) { const dn = cx.fs.node(t.id); if (dn.type === FT.dir) { if (sn.type !== FT.dir) return E.ISDIR; if (dn.ent.size) return E.NOTEMPTY; } else if (sn.type === FT.dir) return E.NOTDIR; }
        if (sn.type === FT.dir) { for (let x = t.dir, k = 0; k < 64 && x; k++) { if (x === r.id) return E.INVAL; x = this.parentOf(cx.fs, x); } }
        if (t.id) cx.fs.drop(t.id);
        // one journal record: a rename is atomic
        cx.fs.node(t.dir).ent.set(t.name, r.id); cx.fs.node(r.dir).ent.delete(r.name);
        if (cx.fs.s.journal) cx.fs.s.journal.push({ ren: 1, d: t.dir, name: t.name, id: r.id, d2: r.dir, name2: r.name });
        return 0;
      }
      case 'sock_accept': {
        N(a[0] + ' ' + a[1]); if (a[0] !== LISTEN_FD) { const d = reg(a[0]); return d ? (d.kind === 'sock' ? E.INVAL : E.NOTSOCK) : E.BADF; }
        if (this.world.s.socks >= 8) return E.AGAIN;
        if (this.world.full()) return E.MFILE;
        const fd = this.world.fdAlloc(); cx.fds.set(fd, { kind: 'sock', id: this.world.s.socks++, pos: 0, flags: a[1], down: 0 }); this.w32(a[2], fd); N(this.note + ' fd' + fd); return 0;
      }
      case 'sock_recv': { const iov = this.iov(a[1], a[2]); N(a[0] + ' ' + iov.map((x) => x[1]).join(',') + ' f' + a[3]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'sock') return E.NOTSOCK; return this.srecv(a[0], d, iov, a[3], a[4], a[5], short); }
      case 'sock_send': { const b = this.gather(this.iov(a[1], a[2])); N(a[0] + ' ' + hex(b) + ' f' + a[3]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'sock') return E.NOTSOCK; return this.ssend(a[0], d, b, a[4], short); }
      case 'sock_shutdown': { N(a[0] + ' ' + a[1]); const d = reg(a[0]); if (!d) return E.BADF; if (d.kind !== 'sock') return E.NOTSOCK; if (!(a[1] & 3)) return E.INVAL; d.down |= a[1]; return 0; }
      default: return E.NOSYS;
    }
  }
  parentOf(fs, id) { if (id === 1) return 0; for (const n of fs.s.ino.values()) if (n.type === FT.dir) for (const v of n.ent.values()) if (v === id) return n.id; return 0; }
  setTimes(nd, at, mt, fl, now) { if ((fl & 3) === 3 || (fl & 12) === 12) return E.INVAL; if (fl & 1) nd.atim = BigInt.asUintN(64, BigInt(at)); if (fl & 2) nd.atim = now(); if (fl & 4) nd.mtim = BigInt.asUintN(64, BigInt(mt)); if (fl & 8) nd.mtim = now(); return 0; }
  // byte streams: the peer's data is a pure function of the connection
  srecv(fd, d, iov, flags, np, fp, short) {
    const tot = iov.reduce((x, y) => x + y[1], 0), len = 300 + (d.id * 97) % 400;
    let k = (d.down & 1) ? 0 : Math.min(tot, len - d.pos);
    if (k > 0 && !(flags & 2)) k = 1 + this.world.rng('s').int(k); // arbitrary segmentation
    k = short(k);
    const b = new Uint8Array(k); for (let i = 0; i < k; i++) b[i] = ((d.pos + i) * 131 + d.id * 29 + ((d.pos + i) >> 5)) & 255;
    if (!(flags & 1)) d.pos += k;
    this.scatter(iov, b); this.w32(np, k); const fl = this.world.rng('sf').int(8) === 0 ? 1 : 0; if (fp != null) { if ((fp >>> 0) + 2 > this.u8.length) throw new Signal('efault', 'roflags'); this.dv.setUint16(fp >>> 0, fl, true); }
    this.note += ' ' + hex(b) + ' ' + (fp != null ? fl : ''); return 0;
  }
  ssend(fd, d, b, np, short) {
    if (d.down & 2) return E.PIPE;
    let k = b.length; if (k > 1 && this.world.rng('ss').chance(0.3)) k = 1 + this.world.rng('sk').int(k);
    k = short(k); this.w32(np, k); this.note += ' ' + k; return 0;
  }
  poll(a, cx) {
    const k = a[2] >>> 0; if (!k) { this.note = '0'; return E.INVAL; }
    if (k > 64) return E.INVAL;
    const subs = this.rd(a[0], k * 48), v = new DataView(subs.buffer); this.note = hex(subs);
    const evs = [], clocks = [];
    for (let i = 0; i < k; i++) {
      const ud = v.getBigUint64(i * 48, true), tag = subs[i * 48 + 8];
      if (tag === 0) clocks.push([ud, v.getBigUint64(i * 48 + 24, true)]);
      else { const fd = v.getUint32(i * 48 + 16, true); const d = cx.g ? cx.fds.get(fd) : null; const ok = fd <= 2 || d || fd === LISTEN_FD || fd === OBS_FD; const nb = ok && d && d.kind === 'file' && tag === 1 ? Math.max(0, cx.fs.node(d.ino).size - d.off) : 1; evs.push([ud, ok ? 0 : E.BADF, tag, BigInt(nb), 0]); }
    }
    const rg = cx.g ? this.world.rng('p') : new Rng('p');
    const pickClock = clocks.length && (!evs.length || rg.chance(0.4));
    let res = evs.length && (!clocks.length || !pickClock || rg.chance(0.3)) ? evs.slice(0, 1 + rg.int(evs.length)) : [];
    if (pickClock) { clocks.sort((x, y) => (x[1] < y[1] ? -1 : x[1] > y[1] ? 1 : 0)); res = res.concat([[clocks[0][0], 0, 0, 0n, 0]]); }
    if (!res.length) res = [[clocks[0][0], 0, 0, 0n, 0]];
    const out = new Uint8Array(res.length * 32), o = new DataView(out.buffer);
    res.forEach(([ud, er, tag, nb], i) => { o.setBigUint64(i * 32, ud, true); o.setUint16(i * 32 + 8, er, true); out[i * 32 + 10] = tag; o.setBigUint64(i * 32 + 16, nb, true); });
    this.wr(a[1], out); this.w32(a[3], res.length); this.note += ' ' + hex(out);
    return 0;
  }
  env() { return (this.hostEnv ? this.world.host().env : this.environ) || []; }
  strings(list, a) { let p = a[1]; list.forEach((s, i) => { this.w32(a[0] + i * 4, p); const b = bytesOfString(s + '\0'); this.wr(p, b); p += b.length; }); return 0; }
}
const NOFAIL = new Set(['proc_exit']);
const clean = (p) => p.replace(/^(\.\/)+/, '');
