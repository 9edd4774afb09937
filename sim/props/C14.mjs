// memory.grow under memory pressure: it either grows by exactly what was asked
// (new pages zero, old contents kept) or returns -1 and changes nothing, and the
// program goes on; restoring on a host with too little memory is refused.
import fs from 'node:fs';
import { SCR, OBS_FD } from '../wasm.mjs';
import { mkWorld, trig, frac, THR, POLL } from '../lib.mjs';
import { reference, solo, chain, differ, bytesOf } from '../exec.mjs';
import { injected } from '../kernel.mjs';
const C = (v) => ({ k: 'const', t: 'i32', v }), IOV = SCR + 0x200, PAGE = 65536;
const st = (p, e) => ({ k: 'store', op: 'i32.store', a: C(p), e: typeof e === 'number' ? C(e) : e, off: 0 });
const see = (p, n) => [st(IOV, p), st(IOV + 4, n), { k: 'hostmix', n: 'fd_write', a: [C(OBS_FD), C(IOV), C(1), C(SCR + 0x300)] }];
const seal = (o, got) => { // statements of one operation
  switch (o.op) {
    case 'grow': return [st(SCR, got === -1 ? C(-1) : { k: 'grow', e: C(o.n) }), st(SCR + 4, { k: 'memsize' }), ...see(SCR, 8)];
    case 'put': return [{ k: 'ifpage', p: o.p, b: [{ k: 'store', op: 'i64.store', a: C(o.at), e: { k: 'const', t: 'i64', v: o.v }, off: o.p * PAGE }] }];
    case 'fill': return [{ k: 'ifpage', p: o.p, b: [{ k: 'memfill', a: [C(o.p * PAGE + o.at), C(o.v), C(o.n)] }] }];
    case 'get': return [{ k: 'ifpage', p: o.p, b: [{ k: 'store', op: 'i64.store', a: C(SCR + 8), e: { k: 'load', op: 'i64.load', a: C(o.at), off: o.p * PAGE }, off: 0 }, ...see(SCR + 8, 8)] }];
    case 'hash': return [{ k: 'ifpage', p: o.p, b: see(o.p * PAGE, PAGE) }];
    case 'spin': return [{ k: 'forn', l: 'sp', i: 0, n: o.n, b: [{ k: 'mix', t: 'i64', e: { k: 'acc' } }] }];
  }
};
export function prog(c, outcomes) {
  let g = 0;
  const funcs = [null];
  const body = c.ops.flatMap((o) => {
    let b = seal(o, o.op === 'grow' && outcomes ? outcomes[g++] : undefined);
    (o.w || []).forEach((w, d) => { // inside functions of several shapes, each of which goes on to use memory
      const results = w & 1 ? [w & 8 ? 'i64' : 'i32'] : [], params = w & 4 ? ['i32', 'i64'] : [], a = w & 4 ? [{ k: 'memsize' }, { k: 'acc' }] : [];
      const ret = results.map((t) => (t === 'i64' ? { k: 'load', op: 'i64.load', a: C(SCR), off: 0 } : { k: 'load', op: 'i32.load', a: C(SCR + 4), off: 0 }));
      if (d) b = [...b, st(SCR + 0x40 + 8 * d, { k: 'load', op: 'i32.load', a: C(SCR), off: 0 })];
      funcs.push({ params, results, locals: ['i32'], body: b, ret });
      const i = funcs.length - 1;
      b = [w & 2 ? { k: 'calliv', p: params, rs: results, a, i: C(i) } : { k: 'call', f: i, a }, st(SCR + 0x80 + 8 * d, { k: 'memsize' })];
    });
    return b;
  });
  funcs[0] = { params: [], results: [], locals: ['i32'], body, ret: [] };
  return { mem: { min: c.min, max: c.max }, globals: [], datas: [], table: funcs.length > 1 ? { size: funcs.length, elems: [{ off: 0, funcs: funcs.map((_, i) => i) }] } : null, funcs, entry: 0, fuel: 1000000, hosts: ['fd_write'], result: false, dump: false };
}
const cache = new Map();
function capped(v, ctx, pages) {
  const key = v + pages; if (cache.has(key)) return cache.get(key);
  const b = fs.readFileSync(ctx.paths[v]); let p = 8, out = null;
  const rd = () => { let r = 0, s = 0, x; do { x = b[p++]; r |= (x & 127) << s; s += 7; } while (x & 128); return r >>> 0; };
  const leb = (n) => { const o = []; do { let x = n & 127; n >>>= 7; if (n) x |= 128; o.push(x); } while (n); return o; };
  while (p < b.length) {
    const at = p, id = b[p++], len = rd(), body = p;
    if (id === 5) { rd(); p++; const min = rd(); const sec = [1, 1, ...leb(min), ...leb(min + pages)]; out = Buffer.concat([b.subarray(0, at), Buffer.from([5, ...leb(sec.length), ...sec]), b.subarray(body + len)]); break; }
    p = body + len;
  }
  const m = new WebAssembly.Module(out); cache.set(key, m); return m;
}
export default {
  id: 'C14', level: 'exploration', variants: ['thr-tco', 'poll-legacy', 'thr-legacy', 'poll-tco'],
  lists: ['ops', 'cuts'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]);
    const cap = rng.chance(0.3) ? null : rng.pick([8, 20, 40, 100, 300, 1000, 3000]);
    const min = rng.pick([1, 1, 2, 5, 17]), max = rng.pick([...(cap == null ? [3000] : [null, 65536]), 3000, 300, 40, min + 3, min]); // a gigabyte of guest memory would not fit twice, as a checkpoint needs
    const ops = [], nest = rng.chance(0.6);
    for (let k = rng.range(4, 30); k > 0; k--) {
      const p = rng.chance(0.5) ? rng.int(6) : rng.int(200), at = rng.pick([0, 8, 0x6000, 0xe000, 0x7ff8]);
      ops.push(rng.weighted([[{ op: 'grow', n: rng.pick([0, 1, 1, 2, 3, 10, 60, 150, 1000, 1500, 5000, 30000, 65535, 65536, 70000, -1, 0x7fffffff]) }, 6], [{ op: 'put', p, at: p ? rng.pick([0, 0x1238, 0xfff8]) : at, v: String(rng.u32()) }, 4], [{ op: 'fill', p, at: p ? rng.int(0x8000) : rng.int(0x6000), v: rng.int(256), n: rng.int(0x4000) }, 2], [{ op: 'get', p, at: p ? rng.pick([0, 0x1238, 0xfff8]) : at }, 3], [{ op: 'hash', p: p % 8 }, 1], [{ op: 'spin', n: rng.pick([3, 1100]) }, 1]]));
      if (nest && rng.chance(0.5)) ops[ops.length - 1].w = Array.from({ length: rng.range(1, 4) }, () => rng.int(16));
    }
    ops.push({ op: 'hash', p: 0 });
    return { variant, min, max, ops, cap, cuts: rng.chance(0.5) ? Array.from({ length: rng.range(1, 3) }, () => frac(rng)) : [], afail: rng.chance(0.35) ? { poll: 1, do: 'afail', min: 60000, first: rng.int(6), count: rng.pick([1, 1, 2, 2, 3, 100]) } : undefined, cap2: rng.chance(0.3) ? rng.pick([2, 8, 20, 60, 200]) : undefined, world: mkWorld(rng) };
  },
  run(c, ctx) {
    const cc = { ...c, m: prog(c) };
    const mods = { ...ctx.mods, small: c.cap == null ? ctx.mods[c.variant] : capped(c.variant, ctx, c.cap), other: c.cap2 == null ? null : capped(c.variant, ctx, c.cap2) };
    mods.other = mods.other || mods.small;
    const grows = c.ops.filter((o) => o.op === 'grow');
    const limit = Math.min(c.max ?? 65536, 65536);
    // checks one execution: grow results against the rules, all else against V8 told the same outcomes
    // inGrow: the last process had nothing else to do that needs memory
    const judge = (got, lenient, inGrow, mayRefuse) => {
      const outs = []; let size = c.min, gi = 0, hi = 0;
      for (const o of c.ops) {
        const h = got.hist[hi];
        if (o.op === 'grow') {
          if (h == null) break;
          const m = /^fd_write 100 ([0-9a-f]{16}) -> 0$/.exec(h); if (!m) return { cls: 'grow-report', got: h };
          const b = Buffer.from(m[1], 'hex'), r = b.readInt32LE(0), sz = b.readInt32LE(4), n = o.n >>> 0;
          if (r === -1 ? sz !== size : r !== size || sz !== size + n || size + n > limit) return { cls: 'grow-result', before: size, asked: n, returned: r, size_after: sz, limit };
          if (r === -1 && !lenient && !mayRefuse && size + n <= limit && size + n <= 2000) return { cls: 'needless-failure', before: size, asked: n };
          outs.push(r); size = sz; hi++;
        } else if (['get', 'hash'].includes(o.op) && o.p < size) { if (h == null) break; hi++; }
      }
      const ref = reference({ ...cc, m: prog(c, outs.concat(grows.slice(outs.length).map(() => undefined))) });
      const n = got.hist.length;
      for (let i = 0; i < n; i++) if (ref.hist[i] !== got.hist[i]) return { cls: 'memory', at: i, want: ref.hist[i], got: got.hist[i] };
      const whole = got.v.kind === 'done' && n === ref.hist.length;
      if (!whole && !lenient) return { cls: 'stopped', at: n, of: ref.hist.length, ended: got.v };
      if (!whole && got.v.kind === 'done') return { cls: 'lost-effects', at: n, of: ref.hist.length };
      if (!whole && outs.length < grows.length) { // did it die inside a hopeless grow, which needs no memory to refuse?
        const o = grows[outs.length], before = size; let gpos = 0, seen = 0;
        for (const x of c.ops) { if (x === o && seen === outs.length) break; if (x.op === 'grow') seen++; if (['get', 'hash'].includes(x.op) && x.p < size || x.op === 'grow') gpos++; }
        if (inGrow && !o.w && (o.n >>> 0) > c.cap * 4 + 64 && gpos === n && n > 0) return { cls: 'grow-fatal', asked: o.n >>> 0, pages: before, ended: got.v };
      }
      return null;
    };
    const s = solo(cc, { ...ctx, mods }, { variant: 'small', maxPolls: 1e7 });
    if (c.cap != null) injected('memory_limit');
    const bad = judge(s, c.cap != null, c.cap != null);
    if (bad) return { v: { ...bad, variant: c.variant, says: s.x.err.slice(0, 200) } };
    const failed = s.hist.filter((h) => /^fd_write 100 ffffffff[0-9a-f]{8} /.test(h)).length; if (failed) injected('memory_grow_refused', failed);
    if (c.afail) { // a request of that size can only come from growing, which then says so and does nothing else
      const t = solo(cc, { ...ctx, mods }, { variant: 'small', maxPolls: 1e7, cr: true, events: [c.afail] });
      const b3 = t.x.refused ? judge(t, c.cap != null, c.cap != null, true) : null;
      if (b3) return { v: { ...b3, cls: 'shortage:' + b3.cls, variant: c.variant, refused: t.x.refused, says: t.x.err.slice(0, 200) } };
    }
    if (c.cuts.length && s.polls > 3) {
      const tight = c.cap2 != null; if (tight) injected('restore_on_smaller_host');
      const g = chain(cc, { ...ctx, mods }, { P: s.polls, segs: c.cuts.map((f, i) => ({ variant: i ? 'other' : 'small', events: [trig(f)] })), tail: { variant: tight ? 'other' : 'small' }, maxPolls: 1e7 });
      const last = g.segs[g.segs.length - 1];
      const b2 = judge(g, c.cap != null || tight, c.cap != null && g.segs.length > c.cuts.length && last.endHist > last.startHist);
      if (b2) return { v: { ...b2, cls: 'restored:' + b2.cls, variant: c.variant, says: g.x.err.slice(0, 200) } };
    }
    return { nt: grows.length > 0, extra: { grows: grows.length, refused: failed }, sample: { variant: c.variant, min: c.min, max: c.max, limit_pages: c.cap, ops: c.ops.length, refused: failed, end: s.v.kind } };
  },
};
