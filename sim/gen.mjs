// Seeded generator of guest programs (JSON AST, see wasm.mjs).
import { OPS, LOADS, STORES, WASI, SCR, STR, OBS_FD } from './wasm.mjs';
const NT = ['i32', 'i64', 'f32', 'f64'];
const BYRES = { i32: [], i64: [], f32: [], f64: [] };
for (const [n, [, a, r]] of Object.entries(OPS)) BYRES[r].push(n);
const UNARY = /\.(clz|ctz|popcnt|eqz|abs|neg|ceil|floor|trunc|nearest|sqrt)$/;
const TRAPPY = /^(i32|i64)\.(div|rem)|trunc_f/;
// reductions of f32 to i32 at the exact upper bound are a separate matter (pure numerics)
const LD = { i32: [], i64: [], f32: [], f64: [] }; for (const [n, [, t]] of Object.entries(LOADS)) LD[t].push(n);
const ST = Object.keys(STORES);
const SLOTS = SCR + 0x400;   // guest keeps descriptors here
const IOV = SCR + 0x200, BUF = 0x8000;

export const PATHS = ['g/a', 'g/b', 'g/c', 'g/d', 'g/d/x', 'g/d/y', 'g/l', 'g/e', 'g/d/../a', 'g/nodir/q', 'g'];
export const ODD = ['g/\xff\xfe\x80', 'g/a\0b', 'g/', 'g/a/', 'g/./a', 'g//b', 'g/a b', 'g/' + 'n'.repeat(200), 'g/' + 'd/'.repeat(60) + 'x', 'g/\xc3\xa9'];
export const STRS = [...PATHS, ...ODD, 'a', 'd/x', 'l2', 'x', '', '\xfe\xff', 't'.repeat(300), '..', '/abs'];
export const FULL = { calls: 1, calli: 1, mem: 1, bulk: 1, grow: 1, table: 1, floats: 1, loops: 1, globals: 1, brtab: 1, sel: 1, blocks: 1, datadrop: 1, refs: 1, nans: 1, multi: 1, traps: 0, host: 0, obs: 0, exit: 0 };

export function strTable() { let off = STR; const pos = {}; const bytes = []; for (const s of STRS) { pos[s] = [off, s.length]; bytes.push(Buffer.from(s, 'latin1')); off += s.length; } return { pos, hex: Buffer.concat(bytes).toString('hex') }; }
const STAB = strTable();
const C = (t, v) => ({ k: 'const', t, v });
const NB = { n32: ['2143289344', '2141192193', '4286578689', '2139095041', '4290772993', '2147483648', '1065353216'], n64: ['9221120237041090560', '9221120237041090561', '18444492273895866369', '9218868437227405313', '18446744073709551615', '9223372036854775808', '4607182418800017408'] };
const i32 = (v) => C('i32', v);

export function genProgram(rng, o = {}) {
  const g = new Gen(rng, o);
  return g.module();
}
class Gen {
  constructor(rng, o) {
    this.r = rng; this.o = o;
    const f = {}; const base = o.features || FULL;
    for (const k of Object.keys(FULL)) f[k] = base[k] === undefined ? FULL[k] : base[k];
    if (o.swarm !== false) for (const k of ['calls', 'calli', 'mem', 'bulk', 'grow', 'table', 'floats', 'loops', 'globals', 'brtab', 'sel', 'blocks', 'datadrop', 'refs', 'nans', 'multi']) if (f[k] && rng.chance(0.2)) f[k] = 0;
    if (o.nomem) { f.mem = f.bulk = f.grow = f.datadrop = f.host = f.obs = 0; }
    this.f = f; this.lab = 0; this.wide = o.wide ?? rng.chance(0.06); this.tall = rng.chance(0.08);
    this.types = f.floats ? NT : ['i32', 'i64'];
    this.hosts = new Set(['fd_write']);
    this.hostKinds = o.hostKinds || ['yield'];
  }
  ty() { return this.r.pick(this.types); }
  module() {
    const r = this.r, f = this.f, o = this.o;
    const wide = this.wide, nf = f.calls || f.calli ? r.range(1, wide ? 70 : o.maxFuncs || 6) : 1;
    const refP = f.table && f.refs && f.calls && o.refArgs !== false;
    this.funcs = [];
    for (let i = 0; i < nf; i++) {
      const np = r.int(wide ? r.pick([3, 8, 20]) : 5), params = []; for (let j = 0; j < np; j++) params.push(refP && r.chance(0.06) ? 'ref' : this.ty());
      const res = f.multi && r.chance(0.12) ? Array.from({ length: r.range(2, wide ? 8 : 4) }, () => this.ty()) : r.chance(0.8) ? [refP && r.chance(0.06) ? 'ref' : this.ty()] : [];
      const locals = []; const nl = wide && r.chance(0.4) ? r.pick([40, 130, 270, 400]) : r.int(o.maxLocals || 8); for (let j = 0; j < nl; j++) locals.push(this.ty());
      locals.push('i32', 'i32', 'i32'); // loop counters (never assigned by generated statements)
      const nr = f.table && f.refs ? r.int(3) : 0; for (let j = 0; j < nr; j++) locals.push('ref');
      if (f.nans && f.floats) for (let j = r.int(3); j > 0; j--) locals.push(r.pick(['n32', 'n64']));
      this.funcs.push({ params, results: res, locals, ctr: params.length + nl });
    }
    this.globals = []; if (f.globals) for (let i = wide && r.chance(0.5) ? r.pick([30, 140, 300]) : r.range(1, 6); i > 0; i--) { const t = this.ty(); this.globals.push({ t, mut: r.chance(0.85) ? 1 : 0, v: this.val(t) }); }
    if (f.globals && f.nans && f.floats) for (let i = r.int(3); i > 0; i--) { const t = r.pick(['n32', 'n64']); this.globals.push({ t, mut: 1, v: r.pick(NB[t]) }); }
    const big = o.big && r.chance(o.big);
    this.mem = { min: big ? r.pick([17, 33, 65, 130]) : o.huge ? r.range(4, 6) : r.range(1, 3), max: 0 };
    this.huge = !!o.huge; this.mem.max = this.mem.min + (f.grow ? r.int(4) : 0);
    this.datas = f.host || r.chance(0.7) ? [{ active: true, off: STR, hex: STAB.hex }] : [];
    for (let p = 1; p < this.mem.min; p++) if (r.chance(big ? 0.1 : 0.4)) this.datas.push({ active: true, off: p * 65536 + r.pick([0, 0x7fe0, 0xff00]), hex: Buffer.from(r.bytes(r.range(1, 200))).toString('hex') });
    if (big && r.chance(0.4)) { const n = r.pick([30000, 70000, 140000]); this.datas.push({ active: true, off: 65536 * r.range(1, 12) + r.int(30000), hex: Buffer.from(r.bytes(n)).toString('hex') }); } // nothing to be compressed
    const nd = wide && r.chance(0.4) ? r.pick([20, 70, 140]) : r.int(4);
    for (let i = 0; i < nd; i++) { const n = wide && r.chance(0.1) ? r.range(1000, 6000) : r.range(1, 64); this.datas.push({ active: !(f.bulk && r.chance(0.5)), off: r.int(0x7f00 - n), hex: Buffer.from(r.bytes(n)).toString('hex') }); }
    this.table = null; this.table2 = null; this.tags = null;
    if (o.nomem) { this.mem = null; this.datas = []; }
    if (f.calli || f.table) {
      const size = wide && r.chance(0.5) ? r.pick([40, 129, 300]) : r.range(1, 12), funcs = []; for (let i = r.range(1, size); i > 0; i--) funcs.push(r.int(nf));
      this.table = { size, elems: [{ off: r.int(size - funcs.length + 1), funcs }] };
      if (f.table && r.chance(0.35)) { const z = r.range(1, 8), fs = []; for (let i = r.int(z + 1); i > 0; i--) fs.push(r.int(nf)); this.table2 = { size: z, elems: fs.length ? [{ off: r.int(z - fs.length + 1), funcs: fs }] : [] }; }
    }
    if (this.table && f.table && f.refs && o.tags !== false && r.chance(0.6)) this.tag(nf);
    for (let i = 0; i < nf; i++) {
      const fn = this.funcs[i]; this.fn = fn; this.fi = i; this.budget = r.range(3, o.stmts || 14); this.loopDepth = 0; this.labels = []; this.nctr = 0;
      fn.body = this.block(o.depth || (r.chance(0.06) ? r.range(5, 14) : 3));
      fn.ret = fn.results.map((t) => this.expr(t, 2));
      const far = fn.locals.length > 30;
      if (far || r.chance(0.3)) { // everything a function still holds shows at its end
        const ls = fn.locals.map((t, j) => [t, j + fn.params.length]);
        if (far) fn.body.unshift(...ls.filter(([t, j]) => NT.includes(t) && j < fn.ctr && r.chance(0.3)).map(([t, j]) => ({ k: 'set', i: j, e: C(t, this.val(t)) })));
        fn.body.push(...ls.filter(([t]) => t !== 'ref').map(([t, j]) => (t[0] === 'n' ? { k: 'nmix', e: { k: 'nget', t, i: j } } : { k: 'mix', t, e: { k: 'lget', i: j } })));
      }
    }
    const entry = r.int(nf);
    if (f.loops && r.chance(0.7)) { // a driving loop: the program runs until its fuel is used up, through every function
      const fn = this.funcs[entry]; this.fn = fn; this.fi = entry; this.budget = 6; this.labels = [];
      const l = 'M' + this.lab++, b = this.block(2, 3);
      for (let i = 0; i < nf; i++) if (i !== entry && f.calls && r.chance(0.7)) b.push({ k: 'call', f: i, a: this.funcs[i].params.map((p) => this.expr(p, 1)) });
      fn.body.splice(r.int(fn.body.length + 1), 0, { k: 'loop', l, b, c: i32(1) });
    }
    if (o.hammer) { // a few host calls over and over
      const fn = this.funcs[entry]; this.fn = fn; this.fi = entry; this.budget = 0; this.labels = []; this.nctr = 1;
      const b = []; for (let i = r.range(1, 3); i > 0; i--) b.push(this.hostStmt());
      fn.body.push({ k: 'forn', l: 'H' + this.lab++, i: fn.ctr, n: o.hammer, b, hammer: 1 });
    }
    const m = { mem: this.mem, globals: this.globals, datas: this.datas, table: this.table, ...(this.table2 ? { table2: this.table2 } : {}), funcs: this.funcs.map(({ ctr, ...x }) => x), entry, fuel: r.pick(o.fuels || [30, 200, 1000]), hosts: [], usesRefs: !!f.table, ...(this.tags ? { tags: this.tags } : {}) };
    if (f.exit && r.chance(0.3)) { m.exitCode = r.chance(0.8) ? r.range(16, 125) : r.pick([126, 127, 128, 255, 256, 1 << 16, -1]); this.hosts.add('proc_exit'); } else m.result = r.chance(0.5);
    if (!f.exit) m.exitCode = undefined;
    if (f.host) { const p = this.prelude(); if (p.length) m.prelude = p; }
    m.hosts = [...this.hosts].sort();
    if (r.chance(0.3)) { const k = r.int(m.hosts.length); m.hosts = [...m.hosts.slice(k), ...m.hosts.slice(0, k)]; }
    if (o.ht !== false && (f.host || f.obs) && r.chance(0.15)) m.ht = m.hosts.filter(() => r.chance(0.6));
    if (m.ht && !m.ht.length) delete m.ht;
    if (o.layout !== false && r.chance(0.4)) { // the same program as other tools would write it
      const L = m.layout = {};
      if (r.chance(0.6)) L.dc = false;
      if (r.chance(0.3)) L.pad = true;
      if (r.chance(0.6)) L.customs = Array.from({ length: r.range(1, 4) }, () => { const name = r.pick(['name', 'producers', 'target_features', '.debug_info', 'x', '']); return { at: r.chance(0.5) ? 99 : r.int(12), name, hex: name === 'name' && r.chance(0.7) ? '010401000161' : Buffer.from(r.bytes(r.pick([0, 1, 30, 30, 700]))).toString('hex') }; });
    }
    return m;
  }
  // References that move are to functions of one type that tell who they are, so
  // that whatever slot one ends up in can be called.
  tag(nf) {
    const r = this.r, n = r.range(2, 5), tags = [];
    for (let i = 0; i < n; i++) { tags.push(this.funcs.length); this.funcs.push({ tag: true, params: [], results: ['i32'], locals: [], ctr: 0, body: [], ret: [i32(1000 + 7 * i)] }); }
    if (this.f.host || this.f.obs) { tags.push('sched_yield'); this.hosts.add('sched_yield'); }
    const lo = this.fixed(), e = this.table.elems[0];
    e.funcs = e.funcs.map((x, i) => (e.off + i < lo ? x : r.pick(tags)));
    this.tags = [[0, lo, this.table.size]];
    if (!this.table2 && r.chance(0.5)) this.table2 = { size: r.range(2, 8), elems: [] };
    if (this.table2) { const z = this.table2.size, k = r.int(z + 1); this.table2.elems = k ? [{ off: r.int(z - k + 1), funcs: Array.from({ length: k }, () => r.pick(tags)) }] : []; this.tags.push([1, 0, z]); }
    this.tags = this.tags.filter(([, a, b]) => b > a);
    if (!this.tags.length) this.tags = null;
  }
  val(t) {
    const r = this.r;
    if (t === 'i32') return r.pick([0, 1, -1, 2, 7, 31, 32, 255, 65535, 0x7fffffff, -0x80000000, r.u32() | 0, r.int(1000)]);
    if (t === 'i64') return String(BigInt.asIntN(64, r.pick([0n, 1n, -1n, 63n, 64n, 0xffffffffn, 0x7fffffffffffffffn, -0x8000000000000000n, r.u64(), BigInt(r.int(1000))])));
    return r.pick(['0', '1', '-1', '0.5', '-0.25', '3.75', '1e10', '-1e20', '123456.789', 'Infinity', 'NaN', String(r.int(100000) / 8), '-' + String(r.int(5000) / 4)]);
  }
  vars(t) { const fn = this.fn, v = []; [...fn.params, ...fn.locals].forEach((x, i) => { if (x === t && !(i >= fn.ctr)) v.push(i); }); return v; }
  rd(t) { const fn = this.fn, v = []; [...fn.params, ...fn.locals].forEach((x, i) => { if (x === t) v.push(i); }); return v; }
  addr(d) { return { k: 'op', op: 'i32.and', a: [this.expr('i32', d), i32(this.r.pick([0x7ff8, 0x7ff8, 0xff8, 0x38, 0x7fff - 16]))] }; }
  expr(t, d) {
    const r = this.r, f = this.f;
    if (t === 'ref') return this.rf(false, d);
    if (this.tall && d === 3 && !this.inTall && r.chance(0.15)) { this.inTall = 1; const e = this.expr(t, r.range(5, 7)); this.inTall = 0; return e; }
    const leaf = d <= 0 || r.chance(0.25);
    if (leaf) {
      const v = this.rd(t);
      const gs = this.globals.map((g, i) => [g, i]).filter(([g]) => g.t === t);
      const c = r.int(10);
      if (c < 5 && v.length) return { k: 'lget', i: r.pick(v) };
      if (c < 7 && gs.length) return { k: 'gget', i: r.pick(gs)[1] };
      if (c === 7 && t === 'i64') return { k: 'acc' };
      if (c === 8 && t === 'i32' && this.mem) return { k: 'memsize' };
      return C(t, this.val(t));
    }
    const kind = r.weighted([['op', 10], ['load', f.mem ? 4 : 0], ['tee', 2], ['select', f.sel ? 2 : 0], ['ifx', f.blocks ? 2 : 0], ['blockx', f.blocks ? 2 : 0], ['call', f.calls ? 1.5 : 0], ['calli', f.calli && this.table ? 1.5 : 0], ['isnull', f.table && t === 'i32' && this.table ? 1 : 0]]);
    switch (kind) {
      case 'op': {
        let op = r.pick(BYRES[t]), args = OPS[op][1];
        for (let i = 0; i < 8 && !this.f.floats && args.some((x) => x[0] === 'f'); i++) { op = r.pick(BYRES[t]); args = OPS[op][1]; }
        if (args.some((x) => x[0] === 'f') && !this.f.floats) { op = t + '.add'; args = OPS[op][1]; }
        if (TRAPPY.test(op) && !/sat/.test(op)) {
          if (!(f.traps && r.chance(0.15))) {
            if (/div|rem/.test(op)) return { k: 'op', op, a: [this.expr(t, d - 1), C(t, t === 'i64' ? String(r.range(2, 900)) : r.range(2, 900))] };
            op = op.replace('.trunc_f', '.trunc_sat_f'); args = OPS[op][1];
          }
        }
        const a = args.map((x) => this.expr(x, d - 1));
        // the parser's operand folding mis-pairs `leaf leaf unary` (an interpreter
        // defect outside this study, see DESIGN.md): keep unary operands non-leaf
        if (a.length === 1 && UNARY.test(op) && (a[0].k === 'const' || a[0].k === 'lget')) a[0] = { k: 'op', op: args[0] + '.add', a: [a[0], this.expr(args[0], 0)] };
        return { k: 'op', op, a };
      }
      case 'load': return { k: 'load', op: r.pick(LD[t]), a: this.addr(d - 1), off: r.pick([0, 0, 1, 4, 7]) };
      case 'tee': { const v = this.vars(t); return v.length ? { k: 'tee', i: r.pick(v), e: this.expr(t, d - 1) } : this.expr(t, d - 1); }
      case 'select': return { k: 'select', t, typed: r.chance(0.2), a: this.expr(t, d - 1), b: this.expr(t, d - 1), c: this.expr('i32', d - 1) };
      case 'ifx': return { k: 'ifx', t, c: this.expr('i32', d - 1), a: this.expr(t, d - 1), b: this.expr(t, d - 1), pt: r.chance(0.3) ? this.block(1, 1) : [], pf: [] };
      case 'blockx': return { k: 'blockx', t, b: r.chance(0.5) ? this.block(1, 1) : [], e: this.expr(t, d - 1), brc: r.chance(0.5) ? this.expr('i32', d - 1) : null };
      case 'call': { const c = this.funcs.map((x, i) => [x, i]).filter(([x]) => x.results.length === 1 && x.results[0] === t); if (!c.length) return this.expr(t, 0); const [fn, i] = r.pick(c); return { k: 'call', f: i, a: fn.params.map((p) => this.expr(p, d - 2)) }; }
      case 'calli': {
        const c = this.funcs.map((x, i) => [x, i]).filter(([x]) => x.results.length === 1 && x.results[0] === t); if (!c.length) return this.expr(t, 0);
        const [fn, i] = r.pick(c); const idx = this.tableIdx(i); if (idx < 0 && !f.traps) return { k: 'call', f: i, a: fn.params.map((p) => this.expr(p, d - 2)) };
        // after table writes the slot may have changed: fall back to a guarded form
        return { k: 'calli', t, p: fn.params, a: fn.params.map((p) => this.expr(p, d - 2)), i: idx < 0 ? i32(r.int(this.table.size + 2)) : i32(idx) };
      }
      case 'isnull': return { k: 'isnull', r: this.rf(true) };
    }
  }
  tableIdx(fi) { // slots below `fixed` are never overwritten
    const e = this.table.elems[0]; const n = e.funcs.map((f, j) => [f, e.off + j]).filter(([f, j]) => f === fi && j < this.fixed()); return n.length ? this.r.pick(n)[1] : -1;
  }
  fixed() { return this.f.table ? Math.ceil(this.table.size / 2) : this.table.size; }
  block(depth, max) {
    const n = max || this.r.range(1, 4), b = [];
    for (let i = 0; i < n && this.budget > 0; i++) { this.budget--; b.push(this.stmt(depth)); }
    return b;
  }
  stmt(depth) {
    const r = this.r, f = this.f;
    const kind = r.weighted([
      ['set', 6], ['gset', f.globals ? 3 : 0], ['store', f.mem ? 4 : 0], ['mix', 2], ['drop', 1],
      ['if', depth > 0 ? 3 : 0], ['block', depth > 0 && f.blocks ? 2 : 0], ['loop', depth > 0 && f.loops ? 3 : 0], ['forn', depth > 0 && f.loops && this.nctr < 3 ? 2 : 0],
      ['br_if', this.labels.length ? 2 : 0], ['br', this.labels.length ? 0.5 : 0], ['br_table', f.brtab && this.labels.length ? 1.5 : 0], ['return', 0.6],
      ['call', f.calls ? 2 : 0], ['memfill', f.bulk ? 1 : 0], ['memcopy', f.bulk ? 1 : 0], ['meminit', f.bulk && this.datas.some((d) => !d.active) ? 1 : 0], ['datadrop', f.datadrop && this.datas.some((d) => !d.active) ? 0.5 : 0],
      ['nan', f.nans && f.floats && f.mem ? 1.5 : 0], ['calliv', f.table && f.calli && this.table2 ? 1 : 0],
      ['grow', f.grow ? 1.2 : 0], ['hi', f.mem && this.mem.max > 1 ? 1.5 : 0], ['tagcall', this.tags ? 1.2 : 0], ['zero', f.mem && f.bulk && this.mem.max > 1 ? 0.3 : 0], ['tset', f.table && this.table ? 1.5 : 0], ['tfill', f.table && this.table ? 0.7 : 0], ['rset', this.refLocals().length && this.table ? 1.2 : 0],
      ['multi', depth > 0 && f.multi ? 1 : 0], ['host', f.host || 0], ['trapif', f.traps ? 0.6 : 0], ['obs', f.obs || 0], ['nop', 0.2],
    ]);
    const L = () => 'L' + this.lab++;
    const inner = (l, d) => { this.labels.push(l); const b = this.block(d); this.labels.pop(); return b; };
    switch (kind) {
      case 'set': { const t = this.ty(), v = this.vars(t); return v.length ? { k: r.chance(0.1) ? 'teedrop' : 'set', i: r.pick(v), e: this.expr(t, 3) } : { k: 'mix', t, e: this.expr(t, 3) }; }
      case 'gset': { const c = this.globals.map((g, i) => [g, i]).filter(([g]) => g.mut && NT.includes(g.t)); if (!c.length) return { k: 'nop' }; const [g, i] = r.pick(c); return { k: 'gset', i, t: g.t, e: this.expr(g.t, 3) }; }
      case 'store': { const op = r.pick(ST.filter((x) => f.floats || x[0] !== 'f')); return { k: 'store', op, a: this.addr(2), e: this.expr(STORES[op][1], 2), off: r.pick([0, 0, 2, 5, 8]) }; }
      case 'mix': { const t = this.ty(); return { k: 'mix', t, e: this.expr(t, 3) }; }
      case 'drop': { const t = this.ty(); return { k: 'drop', e: this.expr(t, 2) }; }
      case 'if': { const l = L(); const t = inner(l, depth - 1); return { k: 'if', l, c: this.expr('i32', 2), t, f: r.chance(0.5) ? inner(l, depth - 1) : null }; }
      case 'block': { const l = L(); return { k: 'block', l, b: inner(l, depth - 1) }; }
      case 'loop': { const l = L(); this.loopDepth++; const b = inner(l, depth - 1); this.loopDepth--; return { k: 'loop', l, b, c: r.chance(0.5) ? this.expr('i32', 2) : i32(1) }; }
      case 'forn': { const l = L() + 'n'; const i = this.fn.ctr + this.nctr++; const b = inner('-', depth - 1); this.nctr--; return { k: 'forn', l, i, n: r.pick(this.o.forn || [1, 2, 3, 7, 15]), b }; }
      case 'br_if': return { k: 'br_if', l: r.pick(this.labels), c: this.expr('i32', 2) };
      case 'br': return { k: 'br', l: r.pick(this.labels) };
      case 'br_table': { const ls = []; for (let i = this.wide && r.chance(0.2) ? r.pick([17, 130, 260]) : r.range(1, 5); i > 0; i--) ls.push(r.pick(this.labels)); return { k: 'br_table', ls, e: { k: 'op', op: 'i32.and', a: [this.expr('i32', 2), i32(ls.length > 6 ? 511 : 7)] } }; }
      case 'return': return { k: 'return', c: { k: 'op', op: 'i32.eq', a: [this.expr('i32', 1), i32(r.int(50))] }, r: this.fn.results.map((t) => this.expr(t, 2)) };
      case 'call': { const i = r.int(this.funcs.length); return { k: 'call', f: i, a: this.funcs[i].params.map((p) => this.expr(p, 2)) }; }
      case 'memfill': return { k: 'memfill', a: [this.addr(1), this.expr('i32', 1), i32(r.pick([0, 1, 5, 64, 200]))] };
      case 'memcopy': return { k: 'memcopy', a: [this.addr(1), this.addr(1), i32(r.pick([0, 1, 5, 64, 200]))] };
      case 'meminit': { const c = this.datas.map((d, i) => [d, i]).filter(([d]) => !d.active); const [d, i] = r.pick(c); const len = d.hex.length / 2; let s = r.int(len + 1); const n = r.int(len - s + 1); if (!n) s = 0; return { k: 'meminit', d: i, a: [this.addr(1), i32(s), i32(n)] }; }
      case 'datadrop': { const c = this.datas.map((d, i) => i).filter((i) => !this.datas[i].active); return { k: 'datadrop', d: r.pick(c) }; }
      case 'grow': return { k: 'grow', e: i32(r.pick([0, 1, 1, 2, 100])) };
      case 'hi': { const p = r.range(1, this.mem.max - 1); const op = r.pick(['i32.store', 'i64.store8']); return { k: 'ifpage', p, b: [{ k: 'store', op, a: { k: 'op', op: 'i32.and', a: [this.expr('i32', 1), i32(0x7ff8)] }, e: this.expr(STORES[op][1], 1), off: p * 65536 + r.pick([0, 0x7fe0]) }, { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: { k: 'op', op: 'i32.and', a: [this.expr('i32', 1), i32(0x7ff8)] }, off: p * 65536 } }] }; }
      case 'nan': {
        const t = r.pick(['n32', 'n64']), ls = this.nloc(t), gs = this.gl(t);
        const ne = () => { const o = [() => ({ k: 'nconst', t, v: r.pick(NB[t]) }), () => ({ k: 'nload', t, a: this.addr(1) })]; if (ls.length) o.push(() => ({ k: 'nget', t, i: r.pick(ls) }), () => ({ k: 'nget', t, i: r.pick(ls) })); if (gs.length) o.push(() => ({ k: 'ngget', t, i: r.pick(gs) })); return r.pick(o)(); };
        const o = [() => ({ k: 'nmix', e: ne() }), () => ({ k: 'nstore', a: this.addr(1), e: ne() })]; if (ls.length) o.push(() => ({ k: 'nset', i: r.pick(ls), e: ne() })); if (gs.length) o.push(() => ({ k: 'ngset', i: r.pick(gs), e: ne() })); return r.pick(o)();
      }
      case 'calliv': { // through the second table; traps are avoided by a null and type test on the reference side being impossible, so only never-written slots are called
        const e = this.table2.elems[0]; if (!e) return { k: 'nop' }; const j = r.int(e.funcs.length); if (e.off + j >= this.fixed2()) return { k: 'nop' }; const fn = typeof e.funcs[j] === 'string' ? { params: [], results: ['i32'] } : this.funcs[e.funcs[j]];
        return { k: 'calliv', tb: 1, p: fn.params, rs: fn.results, a: fn.params.map((p) => this.expr(p, 1)), i: i32(e.off + j) };
      }
      case 'tagcall': { const [tb, a, b] = r.pick(this.tags); return { k: 'tagcall', tb, i: r.range(a, b - 1) }; }
      case 'zero': { const p = r.range(1, this.mem.max - 1); return { k: 'ifpage', p, b: [{ k: 'memfill', a: [i32(p * 65536), i32(0), i32(65536)] }] }; }
      case 'tset': if (this.table2 && r.chance(0.4)) { const lo = this.fixed2(); if (lo < this.table2.size) return { k: 'tset', tb: 1, i: i32(lo + r.int(this.table2.size - lo)), r: this.rf() }; }
        return { k: 'tset', i: i32(this.fixed() + r.int(Math.max(1, this.table.size - this.fixed())) - (this.table.size === this.fixed() ? 1 : 0)), r: this.rf() };
      case 'tfill': { if (this.table2 && r.chance(0.3)) { const lo = this.fixed2(), n = this.table2.size - lo, off = r.int(n + 1); return { k: 'tfill', tb: 1, i: i32(lo + off), r: this.rf(), n: i32(r.int(n - off + 1)) }; } const lo = this.fixed(), n = this.table.size - lo; const off = r.int(n + 1); return { k: 'tfill', i: i32(lo + off), r: this.rf(), n: i32(r.int(n - off + 1)) }; }
      case 'rset': return { k: 'rset', i: r.pick(this.refLocals()), r: this.rf() };
      case 'multi': {
        const ts = (lo) => Array.from({ length: r.range(lo, 4) }, () => this.ty()), ex = (l) => l.map((t) => this.expr(t, 2)), kind = r.pick(['block', 'block', 'if', this.nctr < 3 ? 'loop' : 'block']), ps = ts(kind === 'loop' ? 1 : 0);
        const keep = kind !== 'if' && r.chance(0.3), rs = kind === 'loop' || keep ? ps : ts(ps.length ? 1 : 2), s = { k: 'multi', kind, ps, rs, a: ex(ps), keep };
        if (kind === 'loop') { s.i = this.fn.ctr + this.nctr++; s.n = r.range(1, 5); }
        s.b = inner('-', depth - 1); s.es = ex(rs); // both may use counters of their own
        if (kind === 'loop') this.nctr--; else if (r.chance(0.4)) s.brc = this.expr('i32', 1);
        if (kind === 'if') { s.c = this.expr('i32', 2); s.b2 = inner('-', depth - 1); s.es2 = ex(rs); }
        return s;
      }
      case 'host': return this.hostStmt();
      case 'trapif': return { k: 'trapif', c: { k: 'op', op: 'i32.eq', a: [{ k: 'op', op: 'i32.and', a: [this.expr('i32', 1), i32(31)] }, i32(r.int(32))] } };
      case 'obs': return { k: 'obsacc' };
      case 'nop': return { k: 'nop' };
    }
  }
  refLocals() { const v = []; [...this.fn.params, ...this.fn.locals].forEach((x, i) => { if (x === 'ref') v.push(i); }); return v; }
  nloc(t) { const v = []; this.fn.locals.forEach((x, i) => { if (x === t) v.push(i + this.fn.params.length); }); return v; }
  gl(t) { const v = []; this.globals.forEach((g, i) => { if (g.t === t) v.push(i); }); return v; }
  fixed2() { return Math.ceil(this.table2.size / 2); }
  rf(nonnull, d = 2) {
    const r = this.r, l = this.refLocals();
    if (!this.table) return { k: 'null' };
    if (d > 1 && r.chance(0.2)) return { k: r.pick(['rsel', 'rif']), a: this.rf(nonnull, d - 1), b: this.rf(nonnull, d - 1), c: this.expr('i32', 1) };
    if (d > 0 && r.chance(0.08)) { const c = this.funcs.map((x, i) => [x, i]).filter(([x]) => x.results.length === 1 && x.results[0] === 'ref'); if (c.length) { const [fn, i] = r.pick(c); return { k: 'rcall', f: i, a: fn.params.map((p) => this.expr(p, d - 2)) }; } }
    if (l.length && r.chance(0.4)) return { k: 'rget', i: r.pick(l) };
    if (!nonnull && r.chance(0.4)) return { k: 'null' };
    if (this.tags) { const [tb, a, b] = r.pick(this.tags); return { k: 'tget', tb, i: i32(r.range(a, b - 1)) }; }
    if (this.table2 && r.chance(0.3)) return { k: 'tget', tb: 1, i: i32(r.int(this.table2.size)) };
    return { k: 'tget', i: i32(r.int(this.table.size)) };
  }
  // opens the descriptors the program works on
  prelude() {
    const r = this.r, hk = this.hostKinds, p = [];
    this.fn = { params: [], locals: [], ctr: 0 };
    const open = (path, fl, rights, slot, ff = 0) => this.h('path_open', [i32(3), i32(1), ...STAB.pos[path].map(i32), i32(fl), C('i64', rights), C('i64', '0'), i32(ff), i32(SLOTS + 4 * slot)]);
    if (hk.some((k) => ['open', 'rw', 'fdop', 'pathop'].includes(k))) {
      p.push(this.h('path_create_directory', [i32(3), ...STAB.pos['g/d'].map(i32)]));
      p.push(open('g/a', 1, '66', 0), open(r.pick(['g/b', 'g/d/x']), r.pick([0, 1, 1]), '66', 1), open('g/c', 1, r.pick(['66', '2', '64']), 2, r.chance(0.4) ? 1 : 0), open('g/d', 2, '16384', 3));
    }
    if (hk.includes('sock')) p.push(this.h('sock_accept', [i32(101), i32(0), i32(SLOTS + 16)]), this.h('sock_accept', [i32(101), i32(0), i32(SLOTS + 20)]));
    if (this.huge) { // transfers larger than 64 kB, in one piece and in several
      const BUF = 65536, room = (this.mem.min - 1) * 65536, L = () => r.pick([65535, 65536, 65537, 70000, 131073, room]), io = (n, slot, off) => {
        const l = L(), k = r.pick([1, 1, 2, 3]), each = Math.floor(l / k);
        for (let i = 0; i < k; i++) p.push(this.st32(IOV + i * 8, BUF + i * each), this.st32(IOV + i * 8 + 4, each));
        const fd = { k: 'load', op: 'i32.load', a: i32(SLOTS + 4 * slot), off: 0 };
        p.push(this.h(n, [fd, i32(IOV), i32(k), ...off, i32(SCR + 0xa0), ...(n === 'sock_recv' ? [i32(SCR + 0xa8)] : [])]));
      };
      for (let q = BUF; q < BUF + room; q += 0x1f00) p.push({ k: 'memfill', a: [i32(q), i32(r.int(256)), i32(0x100)] });
      const file = hk.some((k) => ['open', 'rw', 'fdop', 'pathop'].includes(k));
      for (let i = r.range(1, 3); i > 0; i--) {
        if (file) { io(r.pick(['fd_write', 'fd_pwrite']), 0, []); const c = p[p.length - 1]; if (c.n === 'fd_pwrite') c.a.splice(3, 0, this.big(400)); p.push(this.h('fd_seek', [{ k: 'load', op: 'i32.load', a: i32(SLOTS), off: 0 }, C('i64', '0'), i32(0), this.out()])); io('fd_read', 0, []); io('fd_pread', 0, [C('i64', String(r.int(300)))]); }
        if (hk.includes('sock')) { io('sock_send', 4, [i32(0)]); io('sock_recv', 4, [i32(0)]); }
        if (hk.includes('random')) p.push(this.h('random_get', [i32(BUF + r.int(99)), i32(r.pick([65539, 70005, 131066]))]));
      }
    }
    return p;
  }
  // ---- host calls -------------------------------------------------------
  h(n, a, note) { this.hosts.add(n); return { k: 'hostmix', n, a, note }; }
  st32(p, v) { return { k: 'store', op: 'i32.store', a: i32(p), e: typeof v === 'number' ? i32(v) : v, off: 0 }; }
  seq(...b) { return { k: 'block', l: 'S' + this.lab++, b }; }
  fd() { // a descriptor the guest holds: a slot value, rarely something else
    const r = this.r; return r.chance(0.9) ? { k: 'load', op: 'i32.load', a: i32(SLOTS + 4 * r.int(4)), off: 0 } : i32(r.pick([0, 1, 3, 77, 150, 99999, 0x7fffffff, -1, -2147483648]));
  }
  dfd() { return this.r.chance(0.85) ? i32(3) : this.fd(); }
  path(rel) { const p = rel ? this.r.pick(STRS) : this.r.pick(this.r.chance(0.12) ? ODD : PATHS); return STAB.pos[p].map(i32); }
  big(lo) { const r = this.r; return C('i64', String(BigInt.asIntN(64, r.chance(0.12) ? 0n : r.chance(0.75) ? BigInt(r.int(lo)) : r.pick([0xffffffffn, 0x100000000n, 0x100000001n, 0x7fffffffffffffffn, -1n, 1n << 63n, 1n << 40n, 0x123456789abcdefn, r.u64(), BigInt(r.u32())])))); }
  pathFor(d) { return d.k === 'const' ? this.path(false) : this.path(true); }
  iovs(max = 96) { // statements preparing 1..3 iovecs; returns [stmts,count]
    const r = this.r, many = r.chance(0.06), wide = !many && r.chance(0.08), n = many ? r.range(4, 63) : r.range(wide ? 1 : 0, 3) || r.int(2), s = []; let p = BUF + r.int(wide ? 0x1000 : 0x4000);
    for (let i = 0; i < n; i++) { const l = wide ? r.int(0x1400) : many ? r.int(20) : r.pick([0, 1, 3, 8, r.int(max), r.int(max)]); s.push(this.st32(IOV + i * 8, p), this.st32(IOV + i * 8 + 4, l)); p += l + r.int(16); }
    return [s, n, BUF];
  }
  fillBuf() { const r = this.r; return [...(r.chance(0.2) ? [{ k: 'memcopy', a: [i32(BUF), i32(r.int(0x100)), i32(r.pick([0x1000, 0x4f00]))] }] : []), { k: 'store', op: 'i64.store', a: i32(BUF + r.int(0x3f) * 8), e: { k: 'acc' }, off: 0 }, { k: 'memfill', a: [i32(BUF + r.int(0x4000)), this.expr('i32', 0), i32(r.int(64))] }]; }
  out() { return i32(SCR + 8 * this.r.int(16)); }
  hostStmt() {
    const r = this.r, k = r.pick(this.hostKinds);
    switch (k) {
      case 'yield': return this.h('sched_yield', []);
      case 'stdout': { // one byte >= 0x80 marks guest output
        const n = r.range(1, 12); return this.seq({ k: 'memfill', a: [i32(BUF), { k: 'op', op: 'i32.or', a: [this.expr('i32', 1), i32(0x80)] }, i32(n)] }, this.st32(IOV, BUF), this.st32(IOV + 4, n), this.h('fd_write', [i32(r.pick([1, 2])), i32(IOV), i32(1), this.out()]));
      }
      case 'clock': return r.chance(0.8) ? this.seq(this.h('clock_time_get', [i32(r.chance(0.1) ? r.pick([2, 3, 4, 5, 255, 256, -1]) : r.int(2)), C('i64', r.chance(0.8) ? String(7000 + r.int(1000)) : r.pick(['4294967296', '9223372036854775807', '-1', '1234567890123', '4294974297', '-9223372036854775808', '0', '0', '2', '1000', '6999'])), i32(SCR + 0x80)]), { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(SCR + 0x80), off: 0 } }) : this.h('clock_res_get', [i32(r.chance(0.1) ? r.pick([4, 255, 256, -1]) : r.int(4)), i32(SCR + 0x88)]);
      case 'random': { const n = r.pick([0, 5, 12, 33, 299, 4093, 16385]); return this.seq(this.h('random_get', [i32(BUF + (n > 300 ? r.int(0x100) : r.int(0x1000))), i32(n)]), { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(BUF + r.int(0x100)), off: 0 } }); }
      case 'poll': {
        const n = r.chance(0.1) ? r.range(5, 30) : r.range(1, 4), s = [], p = BUF + 0x5000, q = BUF + 0x5800;
        s.push({ k: 'memfill', a: [i32(p), i32(0), i32(n * 48)] });
        for (let i = 0; i < n; i++) {
          s.push({ k: 'store', op: 'i64.store', a: i32(p + i * 48), e: this.expr('i64', 1), off: 0 });
          if (r.chance(0.5)) s.push({ k: 'store', op: 'i64.store', a: i32(p + i * 48 + 24), e: this.big(1e6), off: 0 }, this.st32(p + i * 48 + 16, r.int(2)), { k: 'store', op: 'i64.store', a: i32(p + i * 48 + 32), e: this.big(1000), off: 0 }, { k: 'store', op: 'i32.store16', a: i32(p + i * 48 + 40), e: i32(r.int(2)), off: 0 });
          else s.push({ k: 'store', op: 'i32.store8', a: i32(p + i * 48 + 8), e: i32(r.range(1, 2)), off: 0 }, this.st32(p + i * 48 + 16, this.fd()));
        }
        return this.seq(...s, this.h('poll_oneoff', [i32(p), i32(q), i32(r.chance(0.05) ? 0 : n), this.out()]), { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(q), off: r.pick([0, 8, 16]) + 32 * r.int(n) } });
      }
      case 'argv': case 'args': { const a = k === 'argv' || r.chance(0.5) ? 'args' : 'environ'; return this.seq(this.h(a + '_sizes_get', [i32(SCR + 0x90), i32(SCR + 0x94)]), this.h(a + '_get', [i32(BUF), i32(BUF + 0x800)]), { k: 'mix', t: 'i32', e: { k: 'load', op: 'i32.load', a: i32(BUF + 0x800 + r.int(40)), off: 0 } }, { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(SCR + 0x90), off: 0 } }); }
      case 'open': { const d = this.dfd(); const oflags = r.pick([0, 1, 1, 1, 1, 9, 5, 2, 8]); const rights = oflags === 2 ? '16384' : r.pick(['66', '66', '66', '2', '64', '16450']); return this.h('path_open', [d, i32(r.int(2)), ...this.pathFor(d), i32(oflags), C('i64', r.chance(0.1) ? String(BigInt.asIntN(64, r.u64() | 66n)) : rights), r.chance(0.15) ? this.big(1e6) : C('i64', '0'), i32(r.chance(0.1) ? 1 : r.chance(0.1) ? r.int(32) : 0), i32(SLOTS + 4 * r.int(4))]); }
      case 'rw': {
        const [s, n] = this.iovs(); const fd = this.fd();
        switch (r.int(4)) {
          case 0: return this.seq(...this.fillBuf(), ...s, this.h('fd_write', [fd.k === 'const' && fd.v === 1 ? i32(77) : fd, i32(IOV), i32(n), this.out()]));
          case 1: return this.seq(...s, this.h('fd_read', [fd, i32(IOV), i32(n), this.out()]), { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(BUF + r.int(0x40)), off: 0 } });
          case 2: return this.seq(...this.fillBuf(), ...s, this.h('fd_pwrite', [fd, i32(IOV), i32(n), this.big(400), this.out()]));
          default: return this.seq(...s, this.h('fd_pread', [fd, i32(IOV), i32(n), this.big(400), this.out()]));
        }
      }
      case 'fdop': {
        const fd = this.fd();
        switch (r.int(16)) {
          case 0: return this.h('fd_seek', [fd, r.chance(0.8) ? C('i64', String(r.range(-20, 200))) : this.big(300), i32(r.chance(0.05) ? r.pick([255, 256, -1]) : r.int(4)), this.out()]);
          case 1: return this.h('fd_tell', [fd, this.out()]);
          case 2: return this.h('fd_sync', [fd]); case 3: return this.h('fd_datasync', [fd]);
          case 4: return this.h('fd_filestat_get', [fd, i32(SCR + 0x100)]);
          case 5: return this.h('fd_fdstat_get', [fd, i32(SCR + 0x140)]);
          case 6: return this.h('fd_filestat_set_size', [fd, this.big(600)]);
          case 7: return this.h('fd_allocate', [fd, this.big(300), this.big(300)]);
          case 8: return this.h('fd_advise', [fd, this.big(300), this.big(300), i32(r.int(7))]);
          case 9: return this.h('fd_filestat_set_times', [fd, this.big(1e9), this.big(1e9), i32(r.int(16))]);
          case 10: return this.h('fd_fdstat_set_flags', [fd, i32(r.pick([0, 1, 4, 5, 16, 31, 32, 0x101, 0x8000]))]);
          case 11: return this.h('fd_close', [r.chance(0.85) ? this.fd() : i32(77)]);
          case 12: return this.h('fd_renumber', [{ k: 'load', op: 'i32.load', a: i32(SLOTS + 4 * r.int(4)), off: 0 }, { k: 'load', op: 'i32.load', a: i32(SLOTS + 4 * r.int(4)), off: 0 }]);
          case 13: return this.h('fd_readdir', [fd, i32(BUF + 0x2000), i32(r.pick([0, 24, 60, 500, 3000])), this.big(5), this.out()]);
          case 14: return this.h('fd_fdstat_set_rights', [fd, C('i64', String(BigInt.asIntN(64, r.u64()))), this.big(1000)]);
          default: return r.chance(0.5) ? this.h('fd_prestat_get', [i32(r.pick([3, 3, 4, 99])), i32(SCR + 0x180)]) : this.seq({ k: 'store', op: 'i64.store', a: i32(SCR + 0x188), e: C('i64', '-6148914691236517206'), off: 0 }, this.h('fd_prestat_dir_name', [i32(r.pick([3, 3, 99])), i32(SCR + 0x188), i32(r.pick([0, 1, 1, 3, 6]))]));
        }
      }
      case 'pathop': {
        const d = this.dfd();
        switch (r.int(10)) {
          case 0: return this.h('path_create_directory', [d, ...this.pathFor(d)]);
          case 1: return this.h('path_filestat_get', [d, i32(r.int(2)), ...this.pathFor(d), i32(SCR + 0x1c0)]);
          case 2: return this.h('path_filestat_set_times', [d, i32(r.int(2)), ...this.pathFor(d), this.big(1e9), this.big(1e9), i32(r.int(16))]);
          case 3: return this.h('path_link', [i32(3), i32(r.int(2)), ...this.path(false), i32(3), ...this.path(false)]);
          case 4: return this.h('path_symlink', [...this.path(true), i32(3), ...this.path(false)]);
          case 5: return this.h('path_readlink', [d, ...this.pathFor(d), i32(BUF + 0x3000), i32(r.pick([0, 1, 4, 64, 400])), this.out()]);
          case 6: return this.h('path_rename', [i32(3), ...this.path(false), i32(3), ...this.path(false)]);
          case 7: return this.h('path_unlink_file', [d, ...this.pathFor(d)]);
          case 8: return this.h('path_remove_directory', [d, ...this.pathFor(d)]);
          default: return this.h('path_create_directory', [i32(3), ...STAB.pos['g/d'].map(i32)]);
        }
      }
      case 'sock': {
        const sfd = { k: 'load', op: 'i32.load', a: i32(SLOTS + 16 + 4 * r.int(2)), off: 0 };
        switch (r.int(8)) {
          case 0: case 1: return this.h('sock_accept', [r.chance(0.9) ? i32(101) : this.fd(), i32(r.pick([0, 4, 1, 31, 0x104, 0xff00])), i32(SLOTS + 16 + 4 * r.int(2))]);
          case 2: case 3: case 4: { const [s, n] = this.iovs(64); return this.seq(...s, this.h('sock_recv', [sfd, i32(IOV), i32(n), i32(r.chance(0.05) ? r.pick([4, 8, 255]) : r.int(4)), i32(SCR + 0xa0), i32(SCR + 0xa8)]), { k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: i32(BUF + r.int(0x40)), off: 0 } }); }
          case 5: case 6: { const [s, n] = this.iovs(64); return this.seq(...this.fillBuf(), ...s, this.h('sock_send', [sfd, i32(IOV), i32(n), i32(r.chance(0.2) ? r.int(4) : 0), i32(SCR + 0xb0)])); }
          default: return this.h('sock_shutdown', [r.chance(0.9) ? sfd : this.fd(), i32(r.chance(0.9) ? r.int(4) : r.pick([4, 7, 256, 257, -1]))]);
        }
      }
      default: throw new Error('host ' + k);
    }
  }
}
