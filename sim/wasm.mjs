// AST -> WebAssembly binary. The AST is plain JSON so that a failing program
// can be shrunk statement by statement and stored in a replay file.
//
// module: {mem:{min,max|null}, globals:[{t,mut,v}], datas:[{active,off,hex}],
//          table:{size,elems:[{off,funcs}]}, funcs:[{params,results,locals,body,ret}],
//          entry:funcIndex, dump:bool, fuel:int, hosts:[name...]}
export const T = { i32: 0x7f, i64: 0x7e, f32: 0x7d, f64: 0x7c, ref: 0x70, n32: 0x7d, n64: 0x7c };

export function uleb(n, out = []) {
  n = BigInt(n);
  do { let b = Number(n & 0x7fn); n >>= 7n; if (n) b |= 0x80; out.push(b); } while (n);
  return out;
}
export function sleb(v, out = []) {
  v = BigInt(v);
  for (;;) {
    const b = Number(v & 0x7fn); v >>= 7n;
    if ((v === 0n && !(b & 0x40)) || (v === -1n && (b & 0x40))) { out.push(b); return out; }
    out.push(b | 0x80);
  }
}
const str = (s) => { const b = [...Buffer.from(s, 'latin1')]; return [...uleb(b.length), ...b]; };
const f32b = (v) => { const d = new DataView(new ArrayBuffer(4)); d.setFloat32(0, v, true); return [...new Uint8Array(d.buffer)]; };
const f64b = (v) => { const d = new DataView(new ArrayBuffer(8)); d.setFloat64(0, v, true); return [...new Uint8Array(d.buffer)]; };

// opcode tables: name -> [opcode, argTypes, resultType]
export const OPS = {};
{
  const def = (base, t, names, args, res) => names.forEach((n, i) => { if (n) OPS[t + '.' + n] = [[base + i], args, res]; });
  const I = ['eq', 'ne', 'lt_s', 'lt_u', 'gt_s', 'gt_u', 'le_s', 'le_u', 'ge_s', 'ge_u'];
  const F = ['eq', 'ne', 'lt', 'gt', 'le', 'ge'];
  def(0x45, 'i32', ['eqz'], ['i32'], 'i32'); def(0x46, 'i32', I, ['i32', 'i32'], 'i32');
  def(0x50, 'i64', ['eqz'], ['i64'], 'i32'); def(0x51, 'i64', I, ['i64', 'i64'], 'i32');
  def(0x5b, 'f32', F, ['f32', 'f32'], 'i32'); def(0x61, 'f64', F, ['f64', 'f64'], 'i32');
  const U = ['clz', 'ctz', 'popcnt'], B = ['add', 'sub', 'mul', 'div_s', 'div_u', 'rem_s', 'rem_u', 'and', 'or', 'xor', 'shl', 'shr_s', 'shr_u', 'rotl', 'rotr'];
  def(0x67, 'i32', U, ['i32'], 'i32'); def(0x6a, 'i32', B, ['i32', 'i32'], 'i32');
  def(0x79, 'i64', U, ['i64'], 'i64'); def(0x7c, 'i64', B, ['i64', 'i64'], 'i64');
  const FU = ['abs', 'neg', 'ceil', 'floor', 'trunc', 'nearest', 'sqrt'], FB = ['add', 'sub', 'mul', 'div', 'min', 'max', 'copysign'];
  def(0x8b, 'f32', FU, ['f32'], 'f32'); def(0x92, 'f32', FB, ['f32', 'f32'], 'f32');
  def(0x99, 'f64', FU, ['f64'], 'f64'); def(0xa0, 'f64', FB, ['f64', 'f64'], 'f64');
  const c = (op, n, a, r) => { OPS[n] = [[op], [a], r]; };
  c(0xa7, 'i32.wrap_i64', 'i64', 'i32'); c(0xa8, 'i32.trunc_f32_s', 'f32', 'i32'); c(0xa9, 'i32.trunc_f32_u', 'f32', 'i32');
  c(0xaa, 'i32.trunc_f64_s', 'f64', 'i32'); c(0xab, 'i32.trunc_f64_u', 'f64', 'i32');
  c(0xac, 'i64.extend_i32_s', 'i32', 'i64'); c(0xad, 'i64.extend_i32_u', 'i32', 'i64');
  c(0xae, 'i64.trunc_f32_s', 'f32', 'i64'); c(0xaf, 'i64.trunc_f32_u', 'f32', 'i64'); c(0xb0, 'i64.trunc_f64_s', 'f64', 'i64'); c(0xb1, 'i64.trunc_f64_u', 'f64', 'i64');
  c(0xb2, 'f32.convert_i32_s', 'i32', 'f32'); c(0xb3, 'f32.convert_i32_u', 'i32', 'f32'); c(0xb4, 'f32.convert_i64_s', 'i64', 'f32'); c(0xb5, 'f32.convert_i64_u', 'i64', 'f32');
  c(0xb6, 'f32.demote_f64', 'f64', 'f32'); c(0xb7, 'f64.convert_i32_s', 'i32', 'f64'); c(0xb8, 'f64.convert_i32_u', 'i32', 'f64');
  c(0xb9, 'f64.convert_i64_s', 'i64', 'f64'); c(0xba, 'f64.convert_i64_u', 'i64', 'f64'); c(0xbb, 'f64.promote_f32', 'f32', 'f64');
  c(0xbc, 'i32.reinterpret_f32', 'f32', 'i32'); c(0xbd, 'i64.reinterpret_f64', 'f64', 'i64'); c(0xbe, 'f32.reinterpret_i32', 'i32', 'f32'); c(0xbf, 'f64.reinterpret_i64', 'i64', 'f64');
  c(0xc0, 'i32.extend8_s', 'i32', 'i32'); c(0xc1, 'i32.extend16_s', 'i32', 'i32'); c(0xc2, 'i64.extend8_s', 'i64', 'i64'); c(0xc3, 'i64.extend16_s', 'i64', 'i64'); c(0xc4, 'i64.extend32_s', 'i64', 'i64');
  ['i32.trunc_sat_f32_s', 'i32.trunc_sat_f32_u', 'i32.trunc_sat_f64_s', 'i32.trunc_sat_f64_u', 'i64.trunc_sat_f32_s', 'i64.trunc_sat_f32_u', 'i64.trunc_sat_f64_s', 'i64.trunc_sat_f64_u']
    .forEach((n, i) => { OPS[n] = [[0xfc, i], [n.slice(14, 17)], n.slice(0, 3)]; });
}
export const LOADS = {
  'i32.load': [0x28, 'i32', 4], 'i64.load': [0x29, 'i64', 8], 'f32.load': [0x2a, 'f32', 4], 'f64.load': [0x2b, 'f64', 8],
  'i32.load8_s': [0x2c, 'i32', 1], 'i32.load8_u': [0x2d, 'i32', 1], 'i32.load16_s': [0x2e, 'i32', 2], 'i32.load16_u': [0x2f, 'i32', 2],
  'i64.load8_s': [0x30, 'i64', 1], 'i64.load8_u': [0x31, 'i64', 1], 'i64.load16_s': [0x32, 'i64', 2], 'i64.load16_u': [0x33, 'i64', 2],
  'i64.load32_s': [0x34, 'i64', 4], 'i64.load32_u': [0x35, 'i64', 4],
};
export const STORES = {
  'i32.store': [0x36, 'i32', 4], 'i64.store': [0x37, 'i64', 8], 'f32.store': [0x38, 'f32', 4], 'f64.store': [0x39, 'f64', 8],
  'i32.store8': [0x3a, 'i32', 1], 'i32.store16': [0x3b, 'i32', 2], 'i64.store8': [0x3c, 'i64', 1], 'i64.store16': [0x3d, 'i64', 2], 'i64.store32': [0x3e, 'i64', 4],
};
export const WASI = {
  args_get: 'ii', args_sizes_get: 'ii', environ_get: 'ii', environ_sizes_get: 'ii', clock_res_get: 'ii', clock_time_get: 'iIi',
  fd_advise: 'iIIi', fd_allocate: 'iII', fd_close: 'i', fd_datasync: 'i', fd_fdstat_get: 'ii', fd_fdstat_set_flags: 'ii', fd_fdstat_set_rights: 'iII',
  fd_filestat_get: 'ii', fd_filestat_set_size: 'iI', fd_filestat_set_times: 'iIIi', fd_pread: 'iiiIi', fd_prestat_get: 'ii', fd_prestat_dir_name: 'iii',
  fd_pwrite: 'iiiIi', fd_read: 'iiii', fd_readdir: 'iiiIi', fd_renumber: 'ii', fd_seek: 'iIii', fd_sync: 'i', fd_tell: 'ii', fd_write: 'iiii',
  path_create_directory: 'iii', path_filestat_get: 'iiiii', path_filestat_set_times: 'iiiiIIi', path_link: 'iiiiiii', path_open: 'iiiiiIIii',
  path_readlink: 'iiiiii', path_remove_directory: 'iii', path_rename: 'iiiiii', path_symlink: 'iiiii', path_unlink_file: 'iii',
  poll_oneoff: 'iiii', random_get: 'ii', sched_yield: '', sock_accept: 'iii', sock_recv: 'iiiiii', sock_send: 'iiiii', sock_shutdown: 'ii', proc_exit: 'i',
};
// memory map of every guest (page 0): [0,0x8000) program data, 0x8000.. I/O buffers,
// STR.. strings, SCR.. host-call scratch, DMP.. scratch of the final state dump
export const SCR = 0xf000, STR = 0xe000, DMP = 0xf800;
export const OBS_FD = 100;

class Emitter {
  constructor(m, opts) { this.m = m; this.o = opts; this.types = []; this.imports = []; this.impIdx = {}; }
  type(p, r) {
    const key = p.join() + '>' + r.join();
    let i = this.types.findIndex((t) => t.key === key);
    if (i < 0) { i = this.types.length; this.types.push({ key, p, r }); }
    return i;
  }
  build() {
    const m = this.m;
    const names = [...new Set([...m.hosts, ...(m.ht || []), ...(m.dump === false ? [] : ['fd_write'])])];
    for (const n of names) {
      const p = [...WASI[n]].map((c) => (c === 'i' ? 'i32' : 'i64'));
      this.impIdx[n] = this.imports.length;
      this.imports.push({ n, t: this.type(p, n === 'proc_exit' ? [] : ['i32']) });
    }
    const nHost = this.imports.length, probe = this.o.probe; // probe: {sites: [], instrument}
    let imp; if (probe) { imp = {}; for (const n of ['at', 'i32', 'i64', 'f32', 'f64', 'ref']) { imp[n] = this.imports.length; this.imports.push({ mod: 'sim', n, t: this.type([n === 'at' || n === 'ref' ? 'i32' : n], []) }); } }
    const nImp = this.imports.length;
    this.nImp = nImp; this.probe = probe && ((c, locals) => probe.instrument(c, nHost, locals, imp, probe.sites));
    // globals: 0 = fuel, 1 = acc (i64), then user globals; optional last = work counter (i64)
    const globals = [{ t: 'i32', mut: 1, v: m.fuel }, { t: 'i64', mut: 1, v: '1' }, ...m.globals];
    this.workG = -1;
    if (this.o.count || this.o.budget) { this.workG = globals.length; globals.push({ t: 'i64', mut: 1, v: '0' }); }
    const funcTypes = m.funcs.map((f) => this.type(f.params, f.results));
    const ctypes = new Map();
    const bodies = m.funcs.map((f, i) => this.func(f, i));
    const startIdx = nImp + m.funcs.length;
    // entry wrapper
    const w = this.entry();
    const entryType = this.type([], w.results);
    bodies.push(w.code); funcTypes.push(entryType);
    const L = m.layout || {}, pad = (n) => [n & 127 | 128, n >> 7 & 127 | 128, n >> 14 & 127 | 128, n >> 21 & 127 | 128, n >> 28]; // as linkers write it
    const sec = (id, b) => [id, ...(L.pad ? pad(b.length) : uleb(b.length)), ...b];
    const vec = (a) => [...uleb(a.length), ...a.flat()];
    const out = [0, 0x61, 0x73, 0x6d, 1, 0, 0, 0];
    const app = (a) => { for (let i = 0; i < a.length; i++) out.push(a[i]); }; let nsec = 0;
    const extra = (end) => (L.customs || []).forEach((x) => { if (end ? x.at >= nsec : x.at === nsec) app(sec(0, [...str(x.name), ...Buffer.from(x.hex, 'hex')])); });
    const put = (a) => { extra(); nsec++; app(a); };
    put(sec(1, vec(this.types.map((t) => [0x60, ...vec(t.p.map((x) => [T[x]])), ...vec(t.r.map((x) => [T[x]]))]))));
    put(sec(2, vec(this.imports.map((i) => [...str(i.mod || 'wasi_snapshot_preview1'), ...str(i.n), 0, ...uleb(i.t)]))));
    put(sec(3, vec(funcTypes.map((t) => uleb(t)))));
    const tabs = [m.table, m.table2].filter(Boolean);
    if (m.ht) tabs.push({ size: m.ht.length, elems: [{ off: 0, funcs: m.ht }] }); // imports, called through a table
    const elf = (f) => uleb(typeof f === 'string' ? this.impIdx[f] : nImp + f);
    if (tabs.length) put(sec(4, vec(tabs.map((t) => [0x70, 0, ...uleb(t.size)]))));
    if (m.mem) put(sec(5, vec([m.mem.max == null ? [0, ...uleb(m.mem.min)] : [1, ...uleb(m.mem.min), ...uleb(m.mem.max)]])));
    put(sec(6, vec(globals.map((g) => [T[g.t], g.mut ? 1 : 0, ...this.constI(g.t, g.v), 0x0b]))));
    const exps = [[...str('_start'), 0, ...uleb(startIdx)]]; if (m.mem) exps.push([...str('memory'), 2, 0]);
    if (probe) globals.forEach((g, i) => exps.push([...str('g' + i), 3, ...uleb(i)]));
    if (this.workG >= 0) exps.push([...str('work'), 3, ...uleb(this.workG)]);
    for (const x of m.exports || []) exps.push([...str(x.name), 0, ...uleb(nImp + x.func)]);
    put(sec(7, vec(exps)));
    const els = tabs.flatMap((t, ti) => t.elems.map((e) => (ti ? [2, ...uleb(ti), 0x41, ...sleb(e.off), 0x0b, 0, ...vec(e.funcs.map(elf))] : [0, 0x41, ...sleb(e.off), 0x0b, ...vec(e.funcs.map(elf))])));
    if (els.length) put(sec(9, vec(els)));
    const datas = m.datas || [];
    if (datas.length && !(L.dc === false && !this.usesData)) put(sec(12, uleb(datas.length)));
    put(sec(10, vec(bodies.map((b) => [...uleb(b.length), ...b]))));
    if (datas.length) put(sec(11, vec(datas.map((d) => {
      const b = [...Buffer.from(d.hex, 'hex')];
      return d.active ? [0, 0x41, ...sleb(d.off), 0x0b, ...uleb(b.length), ...b] : [1, ...uleb(b.length), ...b];
    }))));
    extra(true);
    if (m.custom) put(sec(0, [...str('note'), ...Buffer.from(m.custom)]));
    return Uint8Array.from(out);
  }
  constI(t, v) {
    if (t === 'ref') return [0xd0, 0x70];
    if (t === 'n32') return [0x43, ...Buffer.from(new Uint32Array([Number(v)]).buffer)];
    if (t === 'n64') return [0x44, ...Buffer.from(new BigUint64Array([BigInt(v)]).buffer)];
    if (t === 'i32') return [0x41, ...sleb(BigInt.asIntN(32, BigInt(v)))];
    if (t === 'i64') return [0x42, ...sleb(BigInt.asIntN(64, BigInt(v)))];
    const n = typeof v === 'string' ? Number(v) : v;
    if (t === 'f32') return [0x43, ...f32b(n)];
    if (t === 'f64') return [0x44, ...f64b(n)];
    throw new Error('const ' + t);
  }
  entry() {
    const m = this.m, c = [], f = m.funcs[m.entry];
    this.c = c; this.labels = []; this.cur = { params: [], locals: [] };
    if (m.prelude) this.block(m.prelude);
    for (const p of f.params) c.push(...this.constI(p, 3));
    c.push(0x10, ...uleb(this.nImp + m.entry));
    // mix results into acc
    for (let i = f.results.length - 1; i >= 0; i--) this.mixTop(f.results[i]);
    if (m.tags) m.tags.forEach(([tb, lo, hi]) => { for (let i = lo; i < hi; i++) this.tagcall(tb, i); });
    if (m.dump !== false) {
      // page 0 up to DMP, then globals and the table null map (at DMP), every higher page, size, end marker
      let p = DMP;
      const q = DMP + 0x400;
      this.obs([[0, DMP]], q);
      const gs = [['i32', 0], ['i64', 1], ...m.globals.map((g, i) => [g.t, i + 2])];
      for (const [t, i] of gs) {
        c.push(...this.constI('i32', p), 0x23, ...uleb(i)); this.canonTop(t);
        c.push({ i32: 0x36, i64: 0x37, f32: 0x38, f64: 0x39, n32: 0x38, n64: 0x39 }[t], 0, 0); p += 8;
        if (p > DMP + 0x3c0) { this.obs([[DMP, p - DMP]], q); p = DMP; }
      }
      if (m.usesRefs) tabsOf(m).forEach((t, ti) => { for (let i = 0; i < t.size; i++) {
        c.push(...this.constI('i32', p), ...this.constI('i32', i), 0x25, ti, 0xd1, 0x3a, 0, 0); p += 1;
        if (p > DMP + 0x3c0) { this.obs([[DMP, p - DMP]], q); p = DMP; }
      } });
      this.obs([[DMP, p - DMP]], q);
      for (let k = 1; k < (m.mem.max || 8); k++) {
        c.push(0x3f, 0, ...this.constI('i32', k), 0x4b, 0x04, 0x40);
        this.obs([[k * 65536, 65536]], q);
        c.push(0x0b);
      }
      c.push(...this.constI('i32', q + 64), 0x3f, 0, 0x36, 0, 0);
      this.obs([[q + 64, 4]], q);
      c.push(...this.constI('i32', q + 64), ...this.constI('i32', 0x444e4521), 0x36, 0, 0); // "!END"
      this.obs([[q + 64, 4]], q);
    }
    let results = [];
    if (m.exitCode != null) { /* host proc_exit */ this.needs('proc_exit'); c.push(...this.constI('i32', m.exitCode), 0x10, ...uleb(this.impIdx.proc_exit)); }
    else if (m.result) { results = ['i32']; c.push(0x23, 1, 0xa7); }
    c.push(0x0b);
    return { results, code: [0, ...(this.probe ? this.probe(c, []) : c)] };
  }
  needs(n) { if (this.impIdx[n] == null) throw new Error('import missing ' + n); }
  // fd_write(OBS_FD, iovs) using scratch at q for iovecs
  obs(iovs, q) {
    const c = this.c;
    iovs.forEach(([a, n], i) => {
      c.push(...this.constI('i32', q + i * 8), ...this.constI('i32', a), 0x36, 0, 0);
      c.push(...this.constI('i32', q + i * 8 + 4), ...this.constI('i32', n), 0x36, 0, 0);
    });
    c.push(...this.constI('i32', OBS_FD), ...this.constI('i32', q), ...this.constI('i32', iovs.length), ...this.constI('i32', q + iovs.length * 8));
    c.push(0x10, ...uleb(this.impIdx.fd_write), 0x1a);
  }
  // top of stack (type t) is folded into acc
  mixTop(t) {
    const c = this.c;
    if (t === 'ref') c.push(0xd1, 0xad);
    else if (t === 'n32') c.push(0xbc, 0xac); else if (t === 'n64') c.push(0xbd);
    else if (t === 'i32') c.push(0xac);
    else if (t === 'f32') { this.canonTop('f32'); c.push(0xbc, 0xac); }
    else if (t === 'f64') { this.canonTop('f64'); c.push(0xbd); }
    // acc = acc*31 + top  (top is on the stack: global.get acc; i64.const 31; i64.mul; i64.add)
    c.push(0x23, 1, 0x42, 31, 0x7e, 0x7c, 0x24, 1);
  }
  tmp(t) { // per-function temp local for canonicalisation
    const f = this.cur;
    if (!f.tmp) f.tmp = {};
    if (f.tmp[t] == null) { f.tmp[t] = f.params.length + f.locals.length + (f.extra = f.extra || []).length; f.extra.push(t); }
    return f.tmp[t];
  }
  // replaces a NaN on the stack top by the canonical NaN (NaN payloads are unspecified)
  canonTop(t) {
    if (t !== 'f32' && t !== 'f64') return;
    if (!this.inFunc) { // entry wrapper: via function-free select is impossible without a local; use min trick is unspecified too
      // globals are only ever set through canonical values
      return;
    }
    const l = this.tmp(t), c = this.c;
    c.push(0x21, ...uleb(l), ...this.constI(t, NaN), 0x20, ...uleb(l), 0x20, ...uleb(l), 0x20, ...uleb(l), t === 'f32' ? 0x5c : 0x62, 0x1b);
  }
  func(f, fi) {
    this.c = []; this.labels = []; this.cur = { params: f.params, locals: f.locals, results: f.results }; this.inFunc = true;
    const c = this.c;
    // fuel: out of fuel -> return default results
    if (!f.tag) { c.push(0x23, 0, 0x45, 0x04, 0x40); this.labels.push(null);
    for (const r of f.results) c.push(...this.constI(r, 7));
    c.push(0x0f, 0x0b); this.labels.pop();
    c.push(0x23, 0, 0x41, 1, 0x6b, 0x24, 0); }
    this.block(f.body);
    f.results.forEach((r, i) => { this.expr(f.ret[i]); this.canonTop(r); });
    c.push(0x0b);
    const loc = [...f.locals, ...(this.cur.extra || [])];
    this.inFunc = false;
    return [...uleb(loc.length), ...loc.flatMap((t) => [1, T[t]]), ...(this.probe ? this.probe(c, [...f.params, ...loc]) : c)];
  }
  block(b) { for (const s of b) this.stmt(s); }
  labelDepth(id) {
    for (let i = this.labels.length - 1, d = 0; i >= 0; i--, d++) if (this.labels[i] === id) return d;
    return -1;
  }
  work() { if (this.workG >= 0) this.c.push(0x23, ...uleb(this.workG), 0x42, 1, 0x7c, 0x24, ...uleb(this.workG), ...(this.o.budget ? [0x23, ...uleb(this.workG), ...this.constI('i64', this.o.budget), 0x56, 0x04, 0x40, 0x00, 0x0b] : [])); }
  stmt(s) {
    const c = this.c;
    if (s.k !== 'nop' && s.k !== 'block' && s.k !== 'br' && s.k !== 'drop') this.work(); // these may compile to nothing
    switch (s.k) {
      case 'set': this.expr(s.e); c.push(0x21, ...uleb(s.i)); break;
      case 'teedrop': this.expr(s.e); c.push(0x22, ...uleb(s.i), 0x1a); break;
      case 'calliv': s.a.forEach((x) => this.expr(x)); this.expr(s.i); c.push(0x11, ...uleb(this.type(s.p, s.rs)), s.tb || 0); for (let i = s.rs.length - 1; i >= 0; i--) this.mixTop(s.rs[i]); break;
      case 'gset': this.expr(s.e); this.canonTop(s.t); c.push(0x24, ...uleb(s.i + 2)); break;
      case 'drop': this.expr(s.e); c.push(0x1a); break;
      case 'mix': this.expr(s.e); this.mixTop(s.t); break;
      case 'store': { const [op, t] = STORES[s.op]; this.expr(s.a); this.expr(s.e); this.canonTop(t); c.push(op, 0, ...uleb(s.off)); break; }
      case 'if': this.expr(s.c); c.push(0x04, 0x40); this.labels.push(s.l); this.block(s.t);
        if (s.f) { c.push(0x05); this.block(s.f); } c.push(0x0b); this.labels.pop(); break;
      case 'block': c.push(0x02, 0x40); this.labels.push(s.l); this.block(s.b); c.push(0x0b); this.labels.pop(); break;
      case 'loop': // block out; loop l: fuel check; body; br_if cond
        c.push(0x02, 0x40); this.labels.push(s.l + 'o'); c.push(0x03, 0x40); this.labels.push(s.l);
        c.push(0x23, 0, 0x45, 0x0d, 1, 0x23, 0, 0x41, 1, 0x6b, 0x24, 0);
        this.work();
        this.block(s.b); this.expr(s.c); c.push(0x0d, 0);
        c.push(0x0b, 0x0b); this.labels.pop(); this.labels.pop(); break;
      case 'forn': { // counted loop on local s.i: n iterations, no fuel
        c.push(...this.constI('i32', 0), 0x21, ...uleb(s.i), 0x03, 0x40); this.labels.push(s.l); this.work();
        this.block(s.b);
        c.push(0x20, ...uleb(s.i), 0x41, 1, 0x6a, 0x22, ...uleb(s.i)); c.push(...this.constI('i32', s.n), 0x48, 0x0d, 0, 0x0b); this.labels.pop(); break;
      }
      case 'spin': this.spin(s); break;
      case 'multi': { // a block, if or loop that takes and yields several values
        const ty = sleb(this.type(s.ps, s.rs)), take = () => { for (let i = s.ps.length - 1; i >= 0; i--) this.mixTop(s.ps[i]); }, give = (es) => es.forEach((e) => this.expr(e));
        s.a.forEach((e) => this.expr(e));
        if (s.kind === 'loop') c.push(...this.constI('i32', 0), 0x21, ...uleb(s.i));
        if (s.kind === 'if') this.expr(s.c);
        c.push({ block: 2, loop: 3, if: 4 }[s.kind], ...ty); this.labels.push(null); this.work();
        if (s.keep) { this.block(s.b); if (s.brc) { this.expr(s.brc); c.push(0x0d, 0); } } // parameters stay where they are
        else { take(); this.block(s.b); give(s.es); if (s.brc) { this.expr(s.brc); c.push(0x0d, 0); } }
        if (s.kind === 'loop') { c.push(0x20, ...uleb(s.i), 0x41, 1, 0x6a, 0x22, ...uleb(s.i), ...this.constI('i32', s.n), 0x48, 0x0d, 0); }
        if (s.kind === 'if') { c.push(0x05); take(); this.block(s.b2); give(s.es2); }
        c.push(0x0b); this.labels.pop();
        for (let i = s.rs.length - 1; i >= 0; i--) this.mixTop(s.rs[i]);
        break;
      }
      case 'br': { const d = this.labelDepth(s.l); if (d < 0) c.push(0x01); else { // keep the following code reachable for the validator
        c.push(0x41, 1, 0x0d, ...uleb(d)); } break; }
      case 'brx': { const d = this.labelDepth(s.l); if (d >= 0) { c.push(0x0c, ...uleb(d)); } else c.push(0x01); break; }
      case 'br_if': { const d = this.labelDepth(s.l); this.expr(s.c); if (d < 0) c.push(0x1a); else c.push(0x0d, ...uleb(d)); break; }
      case 'br_table': {
        // a fresh block so that the code after an unconditional br_table is reachable
        const ds = s.ls.map((l) => this.labelDepth(l)).filter((d) => d >= 0);
        c.push(0x02, 0x40); this.labels.push(null);
        this.expr(s.e); const all = [...ds.map((d) => d + 1), 0];
        c.push(0x0e, ...uleb(all.length - 1), ...all.flatMap((d) => uleb(d)), 0x0b); this.labels.pop(); break;
      }
      case 'return': // conditional return
        this.expr(s.c); c.push(0x04, 0x40); this.labels.push(null);
        s.r.forEach((e, i) => { this.expr(e); this.canonTop(this.cur.results?.[i]); }); c.push(0x0f, 0x0b); this.labels.pop(); break;
      case 'call': { const f = this.m.funcs[s.f]; s.a.forEach((e) => this.expr(e)); c.push(0x10, ...uleb(this.nImp + s.f)); for (let i = f.results.length - 1; i >= 0; i--) this.mixTop(f.results[i]); break; }
      case 'nop': c.push(0x01); break;
      case 'memfill': s.a.forEach((e) => this.expr(e)); c.push(0xfc, 11, 0); break;
      case 'memcopy': s.a.forEach((e) => this.expr(e)); c.push(0xfc, 10, 0, 0); break;
      case 'meminit': this.usesData = 1; s.a.forEach((e) => this.expr(e)); c.push(0xfc, 8, ...uleb(s.d), 0); break;
      case 'datadrop': this.usesData = 1; c.push(0xfc, 9, ...uleb(s.d)); break;
      case 'grow': this.expr(s.e); c.push(0x40, 0); this.mixTop('i32'); break;
      case 'tset': this.expr(s.i); this.rexpr(s.r); c.push(0x26, s.tb || 0); break;
      case 'tfill': this.expr(s.i); this.rexpr(s.r); this.expr(s.n); c.push(0xfc, 17, s.tb || 0); break;
      case 'nset': this.nexpr(s.e); c.push(0x21, ...uleb(s.i)); break;
      case 'ngset': this.nexpr(s.e); c.push(0x24, ...uleb(s.i + 2)); break;
      case 'nstore': this.expr(s.a); this.nexpr(s.e); c.push(s.e.t === 'n32' ? 0x38 : 0x39, 0, 0); break;
      case 'nmix': this.nexpr(s.e); this.mixTop(s.e.t); break;
      case 'tagcall': this.tagcall(s.tb || 0, s.i); break;
      case 'rset': this.rexpr(s.r); c.push(0x21, ...uleb(s.i)); break;
      case 'hostmix': this.host(s.n, s.a); this.mixTop('i32'); break; // errno into acc
      case 'hostvoid': this.host(s.n, s.a); break;
      case 'obsacc': // acc -> obs pipe
        c.push(...this.constI('i32', SCR), 0x23, 1, 0x37, 0, 0); this.obs([[SCR, 8]], SCR + 16); break;
      case 'ifpage': // guarded by memory.size > p
        c.push(0x3f, 0, ...this.constI('i32', s.p), 0x4b, 0x04, 0x40); this.labels.push(null); this.block(s.b); c.push(0x0b); this.labels.pop(); break;
      case 'trapif': this.expr(s.c); c.push(0x04, 0x40, 0x00, 0x0b); break;
      default: throw new Error('stmt ' + s.k);
    }
  }
  // a loop whose back edge has a given shape; n iterations counted in local 0, or none: for ever
  spin(s) {
    const c = this.c, ever = s.n == null, dec = () => c.push(0x20, 0, 0x41, 1, 0x6b, 0x21, 0), i = () => c.push(0x20, 0), W = () => this.work();
    const one = [0x41, 1];
    if (!ever) c.push(...this.constI('i32', s.n), 0x21, 0);
    switch (s.shape) {
      case 'br': if (ever) c.push(0x03, 0x40, 0x0c, 0, 0x0b); else { c.push(0x02, 0x40, 0x03, 0x40); W(); dec(); i(); c.push(0x45, 0x0d, 1, 0x0c, 0, 0x0b, 0x0b); } break;
      case 'br_if': c.push(0x03, 0x40); W(); if (ever) c.push(...one); else { dec(); i(); } c.push(0x0d, 0, 0x0b); break;
      case 'block': c.push(0x02, 0x40, 0x03, 0x40, 0x02, 0x40); W(); if (!ever) { dec(); i(); c.push(0x45, 0x0d, 2); } c.push(0x0c, 1, 0x0b, 0x0b, 0x0b); break;
      case 'br_table': c.push(0x02, 0x40, 0x03, 0x40); W(); if (ever) c.push(...one); else { dec(); i(); c.push(0x45); } if (ever) c.push(0x0e, 2, 0, 0, 0); else c.push(0x0e, 1, 0, 1); c.push(0x0b, 0x0b); break;
      case 'if': c.push(0x03, 0x40); W(); if (ever) c.push(0x23, 1, 0x50); else { dec(); i(); } c.push(0x04, 0x40, 0x0c, 1); if (ever) c.push(0x05, 0x0c, 1); c.push(0x0b, 0x0b); break;
      case 'nest': c.push(0x03, 0x40, 0x03, 0x40); W(); if (ever) c.push(0x23, 1, 0xa7, 0x0d, 0, 0x0c, 1); else { dec(); i(); c.push(0x41, 3, 0x71, 0x0d, 0); i(); c.push(0x0d, 1); } c.push(0x0b, 0x0b); break;
      case 'call': c.push(0x03, 0x40); W(); c.push(0x10, ...uleb(this.nImp + s.f)); if (ever) c.push(0x0c, 0); else { dec(); i(); c.push(0x0d, 0); } c.push(0x0b); break;
      case 'store': c.push(0x03, 0x40); W(); c.push(...this.constI('i32', 0x7000), 0x23, 1, 0x37, 0, 0); if (ever) c.push(0x0c, 0); else { dec(); i(); c.push(0x0d, 0); } c.push(0x0b); break;
      case 'global': c.push(0x03, 0x40); W(); c.push(0x23, 1, 0x42, 3, 0x7e, 0x24, 1); if (ever) c.push(0x0c, 0); else { dec(); i(); c.push(0x0d, 0); } c.push(0x0b); break;
      default: throw new Error('spin ' + s.shape);
    }
  }
  host(n, a) {
    this.needs(n); a.forEach((e) => this.expr(e));
    const j = this.m.ht ? this.m.ht.indexOf(n) : -1;
    if (j < 0) this.c.push(0x10, ...uleb(this.impIdx[n])); else this.c.push(...this.constI('i32', j), 0x11, ...uleb(this.imports[this.impIdx[n]].t), ...uleb(tabsOf(this.m).length));
  }
  tagcall(tb, i) { // calls what the slot holds (a function without parameters that tells who it is), if anything
    this.c.push(...this.constI('i32', i), 0x25, tb, 0xd1, 0x45, 0x04, 0x40); this.labels.push(null);
    this.c.push(...this.constI('i32', i), 0x11, ...uleb(this.type([], ['i32'])), tb); this.mixTop('i32'); this.c.push(0x0b); this.labels.pop();
  }
  nexpr(e) { // a float moved bit by bit
    const c = this.c;
    if (e.k === 'nconst') c.push(...this.constI(e.t, e.v));
    else if (e.k === 'nget') c.push(0x20, ...uleb(e.i));
    else if (e.k === 'ngget') c.push(0x23, ...uleb(e.i + 2));
    else if (e.k === 'nload') { this.expr(e.a); c.push(e.t === 'n32' ? 0x2a : 0x2b, 0, 0); }
    else throw new Error('nexpr ' + e.k);
  }
  rexpr(r) {
    const c = this.c;
    if (r.k === 'rsel') { this.rexpr(r.a); this.rexpr(r.b); this.expr(r.c); c.push(0x1c, 1, 0x70); return; }
    if (r.k === 'rif') { this.expr(r.c); c.push(0x04, 0x70); this.labels.push(null); this.rexpr(r.a); c.push(0x05); this.rexpr(r.b); c.push(0x0b); this.labels.pop(); return; }
    if (r.k === 'rcall') { r.a.forEach((x) => this.expr(x)); c.push(0x10, ...uleb(this.nImp + r.f)); return; }
    if (r.k === 'null') c.push(0xd0, 0x70);
    else if (r.k === 'tget') { this.expr(r.i); c.push(0x25, r.tb || 0); }
    else if (r.k === 'rget') c.push(0x20, ...uleb(r.i));
    else throw new Error('rexpr ' + r.k);
  }
  expr(e) {
    const c = this.c;
    switch (e.k) {
      case 'const': c.push(...this.constI(e.t, e.v)); break;
      case 'lget': c.push(0x20, ...uleb(e.i)); break;
      case 'tee': this.expr(e.e); c.push(0x22, ...uleb(e.i)); break;
      case 'gget': c.push(0x23, ...uleb(e.i + 2)); break;
      case 'acc': c.push(0x23, 1); break;
      case 'op': { const [code, args] = OPS[e.op]; e.a.forEach((x, i) => { this.expr(x); if (/reinterpret_f|copysign/.test(e.op) && (args[i][0] === 'f')) this.canonTop(args[i]); }); c.push(...code); break; }
      case 'load': { const [op] = LOADS[e.op]; this.expr(e.a); c.push(op, 0, ...uleb(e.off)); break; }
      case 'select': this.expr(e.a); this.expr(e.b); this.expr(e.c); if (e.typed) c.push(0x1c, 1, T[e.t]); else c.push(0x1b); break;
      case 'ifx': this.expr(e.c); c.push(0x04, T[e.t]); this.labels.push(null); this.block(e.pt || []); this.expr(e.a); c.push(0x05); this.block(e.pf || []); this.expr(e.b); c.push(0x0b); this.labels.pop(); break;
      case 'blockx': c.push(0x02, T[e.t]); this.labels.push(null); this.block(e.b); this.expr(e.e); if (e.brc) { this.expr(e.brc); c.push(0x0d, 0); } c.push(0x0b); this.labels.pop(); break;
      case 'call': e.a.forEach((x) => this.expr(x)); c.push(0x10, ...uleb(this.nImp + e.f)); break;
      case 'calli': e.a.forEach((x) => this.expr(x)); this.expr(e.i); c.push(0x11, ...uleb(this.type(e.p, e.rs || [e.t])), e.tb || 0); break;
      case 'memsize': c.push(0x3f, 0); break;
      case 'grow': this.expr(e.e); c.push(0x40, 0); break;
      case 'isnull': this.rexpr(e.r); c.push(0xd1); break;
      case 'host': this.host(e.n, e.a); break;
      case 'null': case 'tget': case 'rget': case 'rsel': case 'rif': case 'rcall': this.rexpr(e); break;
      case 'nconst': case 'nget': case 'ngget': case 'nload': this.nexpr(e); break;
      default: throw new Error('expr ' + e.k);
    }
  }
}
const tabsOf = (m) => [m.table, m.table2].filter(Boolean);
export function emit(m, opts = {}) { return new Emitter(m, opts).build(); }
