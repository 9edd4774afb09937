// Fail-stop: when the guest traps or exits, everything it did before has taken
// effect, nothing after does, and the exit status tells which it was.
import { mixProg, mkWorld, trig, frac, bound, THR, POLL, INST, isPoll, pickBuild, ALLHOST, LIGHT } from '../lib.mjs';
import { reference, solo, chain, differ } from '../exec.mjs';
import { genProgram } from '../gen.mjs';
import { injected } from '../kernel.mjs';
const i32 = (v) => ({ k: 'const', t: 'i32', v }), i64 = (v) => ({ k: 'const', t: 'i64', v: String(v) });
// one statement that traps, by kind
export function trapStmt(m, kind, r) {
  switch (kind) {
    case 'unreachable': return { k: 'trapif', c: i32(1) };
    case 'div0': { const t = r & 1 ? 'i64' : 'i32'; return { k: 'mix', t, e: { k: 'op', op: t + ['.div_s', '.div_u', '.rem_s', '.rem_u'][(r >> 1) & 3], a: [t === 'i64' ? { k: 'acc' } : i32(5), t === 'i64' ? i64(0) : { k: 'op', op: 'i32.sub', a: [i32(4), i32(4)] }] } }; }
    case 'overflow': return r & 1 ? { k: 'mix', t: 'i32', e: { k: 'op', op: 'i32.div_s', a: [{ k: 'op', op: 'i32.sub', a: [i32(0), i32(-0x80000000)] }, i32(-1)] } } : { k: 'mix', t: 'i64', e: { k: 'op', op: 'i64.div_s', a: [{ k: 'op', op: 'i64.sub', a: [i64(0), i64('-9223372036854775808')] }, i64(-1)] } };
    case 'trunc': return { k: 'mix', t: 'i32', e: { k: 'op', op: r & 1 ? 'i32.trunc_f64_s' : 'i32.trunc_f64_u', a: [{ k: 'op', op: 'f64.add', a: [{ k: 'const', t: 'f64', v: r & 2 ? 'NaN' : '1e20' }, { k: 'const', t: 'f64', v: '1' }] }] } };
    case 'calli': return m.table ? { k: 'mix', t: 'i32', e: { k: 'calli', t: 'i32', p: [], a: [], i: i32(m.table.size + (r & 3)) } } : { k: 'trapif', c: i32(1) };
    case 'sig': return m.table ? { k: 'mix', t: 'i64', e: { k: 'calli', t: 'i64', p: ['i64', 'i64', 'i64', 'i64', 'i64', 'i64', 'i64'], a: [1, 2, 3, 4, 5, 6, 7].map(i64), i: i32(m.table.elems[0].off) } } : { k: 'trapif', c: i32(1) };
    case 'tset': return m.table ? { k: 'tset', i: i32(m.table.size + (r & 3)), r: { k: 'null' } } : { k: 'trapif', c: i32(1) };
    case 'exit': return { k: 'hostvoid', n: 'proc_exit', a: [i32(m.code)] };
    case 'buffer': { // a buffer, or the list of buffers, that is not in the guest's memory
      const far = r & 1 || !m.mem.max ? 0x7ffffff0 : m.mem.max * 65536 - 4, list = r & 2, n = m.bufCall;
      const at = list ? far : 0x8100, pre = list ? [] : [{ k: 'store', op: 'i32.store', a: i32(0x8100), e: i32(far), off: 0 }, { k: 'store', op: 'i32.store', a: i32(0x8104), e: i32(r & 4 ? 5 : 0x1000), off: 0 }];
      const rest = n === 'sock_recv' ? [i32(0), i32(0xf0a0), i32(0xf0a8)] : n === 'sock_send' ? [i32(0), i32(0xf0b0)] : [i32(0xf000)];
      return { k: 'block', l: 'B' + r, b: [...pre, { k: 'hostmix', n, a: [i32(n === 'fd_write' ? 1 : 102), i32(at), i32(1), ...rest] }] };
    }
  }
}
// accesses outside the guest's memory are not checked by design (see DESIGN.md)
const KINDS = ['unreachable', 'div0', 'overflow', 'trunc', 'calli', 'sig', 'tset', 'buffer', 'exit', 'exit', 'exit'];
export default {
  id: 'C15', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['chain', 'world.faults'],
  gen(rng) {
    const { variant, flags } = pickBuild(rng), poll = isPoll(variant);
    const m = genProgram(rng, { hostKinds: rng.chance(0.5) ? LIGHT : ALLHOST, fuels: poll ? [30, 300, 2000] : [10, 60, 300], features: { host: rng.pick([1, 3]), obs: 1, exit: 0, traps: 0 } });
    delete m.exitCode;
    const kind = rng.pick(KINDS);
    if (kind === 'exit') { m.code = rng.pick([0, 0, 1, 2, 3, 7, 15, 16, 42, 100, 125, 126, 127, 128, 134, 137, 255, 256, 257, 0x10003, 0x7fffffff, -1, -2147483648]); if (!m.hosts.includes('proc_exit')) m.hosts.push('proc_exit'); }
    if (kind === 'buffer') { m.bufCall = rng.pick(['fd_write', 'sock_send', 'sock_recv']); if (!m.hosts.includes(m.bufCall)) m.hosts.push(m.bufCall); }
    // at some statement of some function, once the fuel is down to a given level
    const bodies = []; const walk = (o) => { if (Array.isArray(o)) { o.forEach(walk); } else if (o && typeof o === 'object') { for (const k of ['body', 'b', 't', 'f', 'pt']) if (Array.isArray(o[k]) && o.k !== 'select') bodies.push(o[k]); for (const k of Object.keys(o)) walk(o[k]); } };
    walk(m.funcs.map((f) => ({ body: f.body })));
    const below = rng.int(m.fuel + 1), n = rng.range(1, 4);
    for (let i = 0; i < n; i++) {
      const b = i === 0 ? m.funcs[rng.int(m.funcs.length)].body : rng.pick(bodies);
      b.splice(rng.int(b.length + 1), 0, { k: 'if', l: 'X' + i, c: { k: 'op', op: 'i32.le_u', a: [{ k: 'gget', i: -2 }, i32(below)] }, t: [trapStmt(m, kind, rng.u32())], f: null });
    }
    return { m, world: mkWorld(rng, { faults: kind === 'buffer' ? 0 : 0.3 }), variant, flags, kind, cr: rng.chance(0.6), chain: rng.chance(0.5) ? Array.from({ length: rng.range(1, 3) }, () => trig(rng.chance(0.3) ? rng.pick([0.9999, 1]) : frac(rng))) : [], close: rng.chance(0.3) };
  },
  run(c, ctx) {
    const r = reference(c);
    if (r.v.kind === 'runaway') return { nt: false };
    const judge = (g, x) => {
      const low = r.v.kind === 'exit' && r.v.code >= 0 && r.v.code < 16; // the interpreter's own exit statuses look like this too
      const v = low && x.end.kind === 'exit' && x.end.code === r.v.code && !/Error|panicked/.test(x.err) ? { kind: 'exit', code: x.end.code } : g.v;
      const d = differ(r, { ...g, v });
      if (d) return d;
      if (r.v.kind === 'trap' && !(x.end.kind === 'trap' || (x.end.kind === 'exit' && x.end.code !== 0))) return { cls: 'trap-not-reported', ended: x.end };
      if (r.v.kind === 'done' && x.end.kind !== 'return') return { cls: 'success-not-reported', ended: x.end };
      return null;
    };
    const s = solo(c, ctx, { variant: c.variant, cr: c.cr, maxPolls: 2e7 });
    const d = judge(s, s.x);
    if (d) return { v: { ...d, kind: c.kind, variant: c.variant, says: s.x.err.slice(0, 200) } };
    if (r.v.kind === 'trap') injected('guest_trap'); else if (r.v.kind === 'exit') injected('guest_exit');
    if (c.chain.length && s.polls > 2) {
      const g = chain(c, ctx, { P: s.polls, segs: c.chain.map((e) => ({ variant: c.variant, events: [e], stay: true })), tail: { variant: c.variant }, maxPolls: bound(s.polls) });
      const d2 = judge(g, g.x);
      if (d2) return { v: { ...d2, cls: 'restored:' + d2.cls, kind: c.kind, variant: c.variant, says: g.x.err.slice(0, 200) } };
    }
    return { nt: r.v.kind !== 'done', extra: { [r.v.kind]: 1 }, sample: { variant: c.variant, kind: c.kind, end: r.v, calls: r.hist.length } };
  },
};
