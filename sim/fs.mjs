// Simulated file system. The state is plain data (structuredClone-able), so a
// whole disk can be snapshotted, rolled back and compared.
//
// Durability model (journalling file system, metadata ordered, data unordered):
//  - every namespace operation goes to one journal; a power cut keeps a prefix
//    of it that contains everything up to the last sync;
//  - file data written since the last sync of that file survives per 512-byte
//    sector, independently; the size survives as any of the sizes it went through.
export const E = { OK: 0, ACCES: 2, AGAIN: 6, BADF: 8, CONNABORTED: 13, CONNREFUSED: 14, CONNRESET: 15, DQUOT: 19, EXIST: 20, FBIG: 22, INTR: 27, INVAL: 28, IO: 29, ISDIR: 31, LOOP: 32, MFILE: 33, NAMETOOLONG: 37, NFILE: 41, NOENT: 44, NOMEM: 48, NOSPC: 51, NOSYS: 52, NOTDIR: 54, NOTEMPTY: 55, NOTSOCK: 57, NOTSUP: 58, PERM: 63, PIPE: 64, ROFS: 69, SPIPE: 70, STALE: 72, TIMEDOUT: 73, XDEV: 75, NOTCAPABLE: 76 };
export const FT = { unknown: 0, block: 1, chr: 2, dir: 3, reg: 4, dgram: 5, stream: 6, link: 7 };
const SECT = 512;

export class Fs {
  constructor(state) {
    this.s = state || { next: 2, ino: new Map([[1, mkdirNode(1)]]), capacity: null, journal: null };
  }
  // journalling on: everything so far is durable
  static durable() { const f = new Fs(); f.s.journal = []; return f; }
  clone() { return new Fs(structuredClone(this.s)); }
  node(i) { return this.s.ino.get(i); }
  used() { let n = 0; for (const x of this.s.ino.values()) if (x.type === FT.reg && x.nlink > 0) n += x.size; return n; }
  log(op) { if (this.s.journal) this.s.journal.push(op); }
  mknode(type, now) {
    const id = this.s.next++;
    const n = type === FT.dir ? mkdirNode(id) : { id, type, data: new Uint8Array(0), size: 0, nlink: 0, target: '' };
    n.atim = n.mtim = n.ctim = BigInt(now);
    if (type === FT.reg && this.s.journal) { n.dur = new Uint8Array(0); n.pend = []; }
    this.s.ino.set(id, n);
    return n;
  }
  setEntry(dir, name, id) {
    const d = this.node(dir);
    const old = d.ent.get(name);
    d.ent.set(name, id); this.log({ d: dir, name, id });
    return old;
  }
  delEntry(dir, name) { this.node(dir).ent.delete(name); this.log({ d: dir, name, id: 0 }); }
  drop(id) { const n = this.node(id); if (n) n.nlink--; }
  // resolve path relative to directory inode; returns {dir,name,id|0} or {err}
  resolve(dir, path, follow, depth = 0) {
    if (depth > 8) return { err: E.LOOP };
    if (path === '') return { err: E.NOENT };
    if (path[0] === '/') return { err: E.NOTCAPABLE };
    const trailing = path.endsWith('/');
    const parts = path.split('/').filter((p) => p !== '' && p !== '.');
    const stack = [dir];
    if (!parts.length) return { dir, name: '.', id: dir };
    for (let i = 0; i < parts.length; i++) {
      const cur = stack[stack.length - 1];
      const dn = this.node(cur);
      if (!dn || dn.type !== FT.dir) return { err: E.NOTDIR };
      const last = i === parts.length - 1;
      if (parts[i] === '..') {
        if (stack.length === 1) return { err: E.NOTCAPABLE };
        stack.pop();
        if (last) return { dir: stack[stack.length - 1], name: '.', id: stack[stack.length - 1] };
        continue;
      }
      if (parts[i].length > 255) return { err: E.NAMETOOLONG };
      const id = dn.ent.get(parts[i]) || 0;
      if (id && this.node(id).type === FT.link && (!last || follow)) {
        const rest = parts.slice(i + 1).join('/');
        const r = this.resolve(cur, this.node(id).target + (rest ? '/' + rest : ''), follow, depth + 1);
        return r;
      }
      if (last) {
        if (id && trailing && this.node(id).type !== FT.dir) return { err: E.NOTDIR };
        return { dir: cur, name: parts[i], id, trailing };
      }
      if (!id) return { err: E.NOENT };
      stack.push(id);
    }
    return { err: E.NOENT };
  }
  setSize(n, size) {
    if (size > n.data.length) { const d = new Uint8Array(Math.max(size, n.data.length * 2)); d.set(n.data.subarray(0, n.size)); n.data = d; }
    if (size < n.size) n.data.fill(0, size, n.size);
    n.size = size;
    if (n.pend) n.pend.push({ z: size });
  }
  // returns bytes written, or -errno
  write(n, off, bytes) {
    let len = bytes.length;
    if (this.s.capacity != null) {
      const grow = Math.max(0, off + len - n.size), free = this.s.capacity - this.used();
      if (grow > free) { len -= grow - Math.max(0, free); if (len <= 0) return -E.NOSPC; }
    }
    if (off + len > n.size) this.setSize(n, off + len);
    n.data.set(bytes.subarray(0, len), off);
    if (n.pend) n.pend.push({ o: off, n: len });
    return len;
  }
  read(n, off, len) { return off >= n.size ? new Uint8Array(0) : n.data.slice(off, Math.min(n.size, off + len)); }
  sync(n) {
    if (!this.s.journal) return;
    if (n.type === FT.reg) { n.dur = n.data.slice(0, n.size); n.pend = []; }
    this.commit(this.s.journal.length);
  }
  commit(k) { // the first k namespace operations become permanent
    if (!this.s.durEnt) this.s.durEnt = new Map();
    for (const op of this.s.journal.splice(0, k)) {
      let d = this.s.durEnt.get(op.d); if (!d) this.s.durEnt.set(op.d, (d = new Map()));
      if (op.id) d.set(op.name, op.id); else d.delete(op.name);
      if (op.ren) { let d2 = this.s.durEnt.get(op.d2); if (d2) d2.delete(op.name2); }
    }
  }
  settle() { // make everything durable
    for (const n of this.s.ino.values()) if (n.type === FT.reg && n.pend) { n.dur = n.data.slice(0, n.size); n.pend = []; }
    this.commit(this.s.journal.length);
  }
  // power cut: only durable state plus an arbitrary legal part of the rest survives
  powerCut(rng) {
    const k = rng.int(this.s.journal.length + 1);
    this.commit(k);
    this.s.journal = [];
    let torn = 0;
    for (const n of this.s.ino.values()) {
      if (n.type === FT.dir) { n.ent = new Map(this.s.durEnt?.get(n.id) || []); continue; }
      if (n.type !== FT.reg) continue;
      if (n.pend.length) {
        torn++;
        const sizes = [n.dur.length]; for (const p of n.pend) if (p.z != null) sizes.push(p.z);
        const mode = rng.int(4);
        const size = mode === 0 ? sizes[0] : mode === 1 ? sizes[sizes.length - 1] : rng.pick(sizes);
        const out = new Uint8Array(size);
        out.set(n.dur.subarray(0, Math.min(size, n.dur.length)));
        const p = mode === 1 ? rng.pick([0.5, 0.9, 1]) : rng.f();
        for (const w of n.pend) if (w.n) for (let s = Math.floor(w.o / SECT); s * SECT < w.o + w.n; s++) if (rng.chance(p)) {
          const a = Math.max(w.o, s * SECT), b = Math.min(w.o + w.n, (s + 1) * SECT, size);
          if (a < b) out.set(n.data.subarray(a, b), a);
        }
        n.data = out; n.size = size; n.dur = out.slice(); n.pend = [];
      }
    }
    return { kept: k, torn };
  }
  // harness-side helpers
  put(name, bytes) {
    const at = name.split('/'); let dir = 1;
    for (const d of at.splice(0, at.length - 1)) { let id = this.node(dir).ent.get(d); if (!id) { id = this.mknode(FT.dir, 0).id; this.setEntry(dir, d, id); } dir = id; }
    let id = this.node(dir).ent.get(at[0]);
    if (!id) { const n = this.mknode(FT.reg, 0); n.nlink = 1; this.setEntry(dir, at[0], n.id); id = n.id; }
    const n = this.node(id); n.data = Uint8Array.from(bytes); n.size = bytes.length;
    if (this.s.journal) this.settle();
    return id;
  }
  dirWith(name, file) { const d = this.mknode(FT.dir, 0); this.setEntry(1, name, d.id); const n = this.mknode(FT.reg, 0); n.nlink = 1; this.setEntry(d.id, file, n.id); if (this.s.journal) this.settle(); }
  get(name) { const id = this.node(1).ent.get(name); if (!id) return null; const n = this.node(id); return n.type === FT.reg ? n.data.slice(0, n.size) : null; }
  has(name) { return this.node(1).ent.has(name); }
  del(name) { if (this.has(name)) { this.delEntry(1, name); if (this.s.journal) this.settle(); } }
  names() { return [...this.node(1).ent.keys()].sort(); }
}
function mkdirNode(id) { return { id, type: FT.dir, ent: new Map(), nlink: 1, size: 0, atim: 0n, mtim: 0n, ctim: 0n }; }
