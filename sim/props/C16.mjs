// Bounded resources: the interpreter's memory, open descriptors and checkpoint
// size depend on the guest's state, not on how long it has been running or how
// often it was checkpointed; guest recursion is not limited by the host stack.
import { mkWorld, frac, trig, THR, POLL, ALLHOST, LIGHT } from '../lib.mjs';
import { genProgram } from '../gen.mjs';
import { solo, chain, differ, reference, process1, newDisk, bytesOf, place, CKPT } from '../exec.mjs';
import { World } from '../kernel.mjs';
const PAGE = 65536, SLACK = 4 * PAGE;
const C = (v) => ({ k: 'const', t: 'i32', v });
// calls only go to functions with a larger index: call depth is bounded
export function flatten(m) {
  const go = (o, fi) => {
    if (Array.isArray(o)) return o.map((x) => go(x, fi));
    if (!o || typeof o !== 'object') return o;
    if (o.k === 'call' && o.f <= fi) { const f = m.funcs[o.f]; return 'a' in o && f.results.length && o.expr !== false ? { k: 'const', t: f.results[0], v: f.results[0] === 'i32' ? 3 : '3', wasCall: 1 } : { k: 'nop' }; }
    if (o.k === 'grow') return { k: 'nop' };
    const r = {}; for (const k of Object.keys(o)) r[k] = go(o[k], fi); return r;
  };
  // a call statement (not an expression) must stay a statement
  const stm = (list) => list.map((s) => (s.wasCall ? { k: 'mix', t: s.t, e: { k: 'const', t: s.t, v: s.v } } : s));
  const fix = (o) => { if (Array.isArray(o)) return o.map(fix); if (!o || typeof o !== 'object') return o; const r = {}; for (const k of Object.keys(o)) r[k] = ['body', 'b', 'b2', 'pt', 'pf', 't', 'f', 'prelude'].includes(k) && Array.isArray(o[k]) ? stm(fix(o[k])) : fix(o[k]); return r; };
  m.funcs.forEach((f, i) => { const g = fix(go({ body: f.body, ret: f.ret }, i)); f.body = g.body; f.ret = g.ret; });
  m.mem.max = m.mem.min;
  return m;
}
// main -> rec(n) -> rec(n-1) …, working before and after the inner call
function deep(n, locals, poly) {
  const up = [{ k: 'mix', t: 'i32', e: { k: 'lget', i: 0 } }, ...(poly ? [{ k: 'obsacc' }] : [])];
  const rec = { params: ['i32'], results: ['i32'], locals: [...Array(locals).fill('i64'), 'i32'], body: [
    { k: 'set', i: 1 + locals, e: { k: 'op', op: 'i32.mul', a: [{ k: 'lget', i: 0 }, C(7)] } },
    { k: 'if', l: 'r', c: { k: 'op', op: 'i32.gt_s', a: [{ k: 'lget', i: 0 }, C(0)] }, t: [{ k: 'set', i: 1 + locals, e: { k: 'op', op: 'i32.add', a: [{ k: 'lget', i: 1 + locals }, { k: 'call', f: 0, a: [{ k: 'op', op: 'i32.sub', a: [{ k: 'lget', i: 0 }, C(1)] }] }] } }, ...up], f: null }],
  ret: [{ k: 'lget', i: 1 + locals }] };
  const main = { params: [], results: ['i32'], locals: [], body: [{ k: 'call', f: 0, a: [C(n)] }], ret: [{ k: 'call', f: 0, a: [C(n >> 1)] }] };
  return { mem: { min: 1, max: 1 }, globals: [], datas: [], table: null, funcs: [rec, main], entry: 1, fuel: 4 * n + 10, hosts: ['fd_write'], result: true };
}
// the same program with the loop of host calls made `more` times as many turns
function hammered(m, more) {
  const go = (o) => { if (Array.isArray(o)) return o.map(go); if (!o || typeof o !== 'object') return o; const r = {}; for (const k of Object.keys(o)) r[k] = go(o[k]); if (r.hammer) r.n = more; return r; };
  return go(m);
}
export default {
  id: 'C16', level: 'exploration', variants: [...THR, ...POLL],
  lists: ['cuts', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]);
    const mode = rng.weighted([['long', 5], ['hops', 4], ['deep', 1.5], ['calls', 3]]);
    if (mode === 'deep') { const n = rng.pick([500, 3000, 10000, 30000]); return { mode, variant, n, locals: rng.int(4), m: deep(n, rng.int(5), n < 4000), world: mkWorld(rng), cuts: Array.from({ length: rng.int(3) }, () => frac(rng)) }; }
    const hk = rng.chance(0.5) ? LIGHT : ALLHOST;
    if (mode === 'calls') { // a little lost with every host call adds up
      const m = flatten(genProgram(rng, { hostKinds: rng.chance(0.3) ? [rng.pick(ALLHOST)] : rng.chance(0.5) ? ALLHOST : [...LIGHT, 'argv'], fuels: [30], hammer: rng.pick([50, 200]), refArgs: false, features: { grow: 0, calli: 0, host: 0.3, obs: 0.2, exit: 0, traps: 0 } }));
      return { mode: 'calls', variant, m, world: mkWorld(rng), cr: rng.chance(0.7), times: 0, more: rng.pick([8000, 15000]), every: rng.pick([0, 1000]), cuts: [], appArgs: ['a', 'bcd'] };
    }
    const m = flatten(genProgram(rng, { hostKinds: hk, fuels: [mode === 'long' ? 1000 : 3000], refArgs: false, features: { grow: 0, calli: 0, host: rng.pick([0.5, 2]), obs: 0.2, exit: 0, traps: 0 } }));
    return { mode, variant, m, world: mkWorld(rng, { faults: 0.2 }), cr: rng.chance(0.7), times: rng.pick([8, 16, 40]), every: rng.pick([0, 200, 1000]), cuts: Array.from({ length: mode === 'hops' ? rng.range(8, 30) : 4 }, () => Math.round(rng.f() * 1e6) / 1e6).sort(), stay: rng.chance(0.5) };
  },
  run(c, ctx) {
    const v = c.variant, o = { variant: v, cr: c.cr, monitorEvery: v.startsWith('thr') ? c.every : 0 };
    if (c.mode === 'deep') {
      const s = solo(c, ctx, { variant: v });
      if (s.v.kind !== 'done' || !s.world.s.ended) return { v: { cls: 'deep-recursion', depth: c.n, ended: s.v, says: s.x.err.slice(0, 200) } };
      const r = reference(c);
      if (r.v.kind === 'done') { const d = differ(r, s); if (d) return { v: { ...d, cls: 'deep:' + d.cls, depth: c.n } }; }
      if (c.cuts.length) {
        const g = chain(c, ctx, { P: s.polls, segs: c.cuts.map((f) => ({ variant: v, events: [trig(f)] })), tail: { variant: v } });
        const d = differ(s, g); if (d) return { v: { ...d, cls: 'deep-restored:' + d.cls, depth: c.n, says: g.x.err.slice(0, 200) } };
      }
      return { extra: { deep: 1 }, sample: { variant: v, depth: c.n, memory: s.x.mem, end: s.v.kind } };
    }
    if (c.mode === 'long' || c.mode === 'calls') {
      const a = solo(c, ctx, o);
      if (a.v.kind !== 'done' || !(a.polls > (c.mode === 'long' ? 200 : 20))) return { nt: false };
      const c2 = { ...c, m: c.mode === 'long' ? { ...c.m, fuel: c.m.fuel * c.times } : hammered(c.m, c.more), maxGuestCalls: 4e6 };
      const w = new World(c.world), disk = newDisk(bytesOf(c2));
      const b = process1(c2, ctx, { ...o, world: w, disk, maxPolls: 3e7, events: [] });
      if (b.v.kind !== 'done' || b.polls < 3 * a.polls) return { nt: false };
      if (b.mem > a.x.mem + SLACK) return { v: { cls: 'memory-grows-with-time', variant: v, polls: [a.polls, b.polls], calls: [a.x.guestCalls, b.guestCalls], memory: [a.x.mem, b.mem] } };
      if (b.fdsOpen > a.x.fdsOpen) return { v: { cls: 'descriptors-grow-with-time', variant: v, open: [a.x.fdsOpen, b.fdsOpen] } };
      if (c.mode === 'calls') return { extra: { hammered_calls: b.guestCalls }, sample: { variant: v, mode: c.mode, calls: [a.x.guestCalls, b.guestCalls], memory: [a.x.mem, b.mem] } };
      // checkpoints early and late
      const size = (cc, P, f) => { const d = newDisk(bytesOf(cc)), x = process1(cc, ctx, { ...o, cr: true, world: new World(cc.world), disk: d, maxPolls: 4e7, events: place([trig(f)], P) }); return x.v.kind === 'checkpoint' ? d.get(CKPT).length : 0; };
      const early = Math.max(...c.cuts.map((f) => size(c, a.polls, f))), late = Math.max(...c.cuts.slice(0, 2).map((f) => size(c2, b.polls, 0.5 + f / 2)));
      if (early && late > early * 1.3 + 16384) return { v: { cls: 'checkpoint-grows-with-time', variant: v, polls: [a.polls, b.polls], sizes: [early, late] } };
      return { extra: { long_polls: b.polls }, sample: { variant: v, mode: c.mode, polls: [a.polls, b.polls], memory: [a.x.mem, b.mem], sizes: [early, late] } };
    }
    // many hops: the file and the memory needed must not creep up
    const s = solo(c, ctx, { variant: v });
    if (s.v.kind !== 'done' || !(s.polls > 500)) return { nt: false };
    const n = c.cuts.length, sizes = [], mems = [], fds = [];
    const g = chain(c, ctx, { segs: c.cuts.map(() => ({ variant: v, stay: c.stay, events: [{ poll: Math.max(2, Math.floor(s.polls / (n + 2))), do: 'trigger', eager: true }] })), tail: { variant: v }, maxPolls: 4 * s.polls + 1e5, onSeg(i, x, disk) { if (x.v.kind === 'checkpoint') sizes.push(disk.get(CKPT).length); mems.push(x.mem); fds.push(x.fdsOpen); } });
    const d = differ(s, g); if (d) return { v: { ...d, cls: 'hops:' + d.cls, hops: g.segs.length } };
    if (sizes.length < 6) return { nt: false };
    const h = sizes.length >> 1, mx = (a) => Math.max(...a);
    if (mx(sizes.slice(h)) > mx(sizes.slice(0, h)) * 1.3 + 16384) return { v: { cls: 'checkpoint-grows-with-hops', variant: v, sizes } };
    if (mx(mems.slice(h)) > mx(mems.slice(1, h)) + SLACK) return { v: { cls: 'memory-grows-with-hops', variant: v, mems } };
    if (mx(fds.slice(h)) > mx(fds.slice(0, h))) return { v: { cls: 'descriptors-grow-with-hops', variant: v, fds } };
    return { extra: { hops: sizes.length }, sample: { variant: v, mode: c.mode, sizes: sizes.slice(0, 12), mems: mems.slice(0, 12) } };
  },
};
