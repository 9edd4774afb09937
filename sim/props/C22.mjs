// Traces and statistics tell what was executed: one line per selected
// instruction in execution order, the same whichever build ran, wherever the
// output goes and however the run was cut into parts by checkpoints.
import { mixProg, mkWorld, frac, trig, bound } from '../lib.mjs';
import { solo, reference, process1, newDisk, bytesOf, place, CKPT } from '../exec.mjs';
import { emit } from '../wasm.mjs';
import { instrument } from '../probe.mjs';
import { World, injected } from '../kernel.mjs';
import { E } from '../fs.mjs';
const INST = ['inst-tco', 'inst-legacy'], EVENTS = ['store', 'load', 'call', 'branch'], RES = ['pc', 'regs', 'locals', 'globals'];
const OF = { store: /^[if](32|64)\.store(8|16|32)?$/, load: /^[if](32|64)\.load((8|16|32)_[su])?$/, call: /^call(_indirect)?$/, branch: /^br(_if|_table)?$/ };
const lines = (t) => t.split('\n').filter((l) => /^\[.*Instr:/.test(l) || /\]$/.test(l) && /Regs:|Locals:|PC:/.test(l));
const name = (l) => (l.match(/Instr:([^ \]|]*)/) || [])[1];
const parts = (l) => l.slice(1, -1).split(' | ');
// what a line shows when only these resources were asked for
const project = (l, res) => '[' + parts(l).filter((p) => p.startsWith('Instr:') || res.some((r) => p.toLowerCase().startsWith(r + ':'))).join(' | ') + ']';
const total = (e) => { const m = e.match(/Total instructions executed: (\d+)/); return m ? +m[1] : null; };
const table = (e) => { const o = new Map(), top = e.split('Top Instructions:')[1]; if (top) for (const m of top.matchAll(/^ {2}([a-z][\w.]*):\s+(\d+) \(/gm)) o.set(m[1], (o.get(m[1]) || 0) + +m[2]); return o; };
const first = (a, b) => { for (let i = 0; ; i++) if (a[i] !== b[i]) return { line: i, want: (a[i] || 'nothing').slice(0, 200), got: (b[i] || 'nothing').slice(0, 200) }; };
// what the reference engine executes: names with locals and globals, in order
function truth(c) {
  const sites = [], log = []; let loc = [], vals = 0;
  const bytes = emit(c.m, { probe: { sites, instrument } }), push = (t) => (v) => { if (vals++ > 400000) throw new Error('long'); loc.push([t, v]); };
  const sim = { imports: { i32: push('I32'), i64: push('I64'), f32: push('F32'), f64: push('F64'), ref: () => push('R')(0), at: (k) => { if (log.length > 20000) throw new Error('long'); const e = sim.inst.exports, g = []; for (let i = 0; e['g' + i]; i++) { const t = ['i32', 'i64', ...c.m.globals.map((x) => x.t)][i]; g.push([{ n32: 'F32', n64: 'F64', ref: 'R' }[t] || t.toUpperCase(), t === 'ref' ? 0 : e['g' + i].value]); } log.push({ n: sites[k], l: loc, g }); loc = []; } } };
  const r = reference(c, { bytes, sim });
  return { log, r };
}
// instructions the interpreter neither folds into others nor adds
const FOLDED = /^(drop|else|end|loop|nop|unknown|data\.drop|local\.\w+|\w+\.const)$/;
// does a printed list of values ("[I32(1),F64(-0)]") say this?
function says(text, vals) {
  const a = text === '[]' ? [] : text.slice(1, -1).split(',');
  return a.length === vals.length && a.every((x, i) => {
    const [t, v] = vals[i], m = x.match(/^(\w+)\((.*)\)$/);
    if (t === 'R') return /^(RefNull|FuncAddr|RefExtern)$/.test(x);
    if (!m || m[1] !== t) return false;
    if (t === 'I32' || t === 'I64') return m[2] === String(v);
    const z = m[2] === 'inf' ? Infinity : m[2] === '-inf' ? -Infinity : Number(m[2]); return Object.is(t === 'F32' ? Math.fround(z) : z, v);
  });
}
export default {
  id: 'C22', level: 'exploration', variants: INST,
  lists: ['runs', 'runs.*.events', 'runs.*.faults', 'world.faults'],
  gen(rng) {
    const m = mixProg(rng, { fuels: [5, 20, 60] });
    const runs = [];
    for (let k = rng.range(2, 5); k > 0; k--) {
      const r = { variant: rng.pick(INST), cr: rng.chance(0.8), events: [], out: rng.pick(['trace.log', 'trace.log', 'err']), stats: rng.chance(0.6) };
      if (rng.chance(0.5)) r.ev = EVENTS.filter(() => rng.chance(0.4)).concat(rng.chance(0.15) ? 'all' : rng.pick(EVENTS));
      if (rng.chance(0.4)) r.res = RES.filter(() => rng.chance(0.5)).concat(rng.pick(RES));
      if (r.cr && rng.chance(0.8)) for (let n = rng.range(1, 3); n > 0; n--) r.events.push(trig(frac(rng)));
      if (r.out !== 'err' && rng.chance(0.4)) r.faults = Array.from({ length: rng.range(1, 6) }, () => [rng.int(rng.pick([5, 40, 400])), rng.weighted([[{ short: rng.range(1, 40) }, 3], [{ errno: E.INTR }, 2], [{ errno: E[rng.pick(['IO', 'NOSPC'])] }, 2]])]);
      if (r.out === 'err' && rng.chance(0.4)) r.faults = Array.from({ length: rng.range(1, 6) }, () => [rng.int(rng.pick([5, 40, 400])), rng.chance(0.6) ? { short: rng.range(1, 40) } : { errno: E.INTR }]);
      runs.push(r);
    }
    return { m, world: mkWorld(rng, { faults: 0.2 }), runs };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: INST[0] });
    if (s.v.kind === 'runaway' || !(s.polls > 1) || s.polls > 4000) return { nt: false };
    const bytes = bytesOf(c), start = new World(c.world).snapshot();
    let size = 0;
    // one execution in as many parts as requests are answered; returns its trace and statistics
    const go = (r) => {
      const flags = []; if (r.trace !== false) { flags.push('--trace'); if (r.ev) flags.push('--trace-events=' + r.ev.join(',')); if (r.res) flags.push('--trace-resource=' + r.res.join(',')); if (r.out !== 'err') flags.push('--trace-output=' + r.out); }
      if (r.stats) flags.push('--stats');
      const w = new World(c.world), disk = newDisk(bytes), o = { text: [], sum: 0, by: new Map(), lost: 0, n: 0, whole: true };
      w.rollback(start);
      let g = [], P = s.polls, at = 0, last = null; const fq = [...(r.events || [])].sort((a, b) => a.frac - b.frac);
      for (let hop = 0; ; hop++) {
        const ev = fq.shift(), f = new Map(r.faults && hop === 0 ? r.faults : []); let k = 0;
        const left = Math.max(1, P - at);
        disk.del('trace.log');
        const x = process1(c, ctx, { variant: r.variant, world: w, disk, restore: hop ? CKPT : null, cr: r.cr, flags, events: ev ? place([{ ...ev, frac: hop ? ev.frac * 0.8 : ev.frac }], left) : [], maxPolls: bound(P) * 2, g0: w.s.gidx,
          oplan: (op, fd) => (r.out === 'err' && fd === 2 ? f.get(k++) || null : null),
          iplan: (j, op, path) => { if (op !== 'fd_write' || !/trace\.log$/.test(path)) return null; const z = f.get(k++); if (z && z.errno && z.errno !== E.INTR) o.lost++; return z || null; } });
        if (x.v.kind === 'flood') return { skip: true };
        at += x.polls; o.n++; o.v = x.v; o.err = x.err;
        const raw = r.out === 'err' ? x.err : Buffer.from(disk.get('trace.log') || '').toString('latin1');
        o.text.push(raw); size += raw.length;
        const t = total(x.err); if (t == null) { o.whole = false; if (r.stats && x.v.how !== 'panic' && x.v.kind !== 'exit' && !o.mute) o.mute = x.v.kind; } else { o.sum += t; for (const [q, z] of table(x.err)) o.by.set(q, (o.by.get(q) || 0) + z); }
        if (/\.\.\. and \d+ more/.test(x.err)) o.more = true;
        if (x.v.kind !== 'checkpoint') break;
        if (hop > 6) return { skip: true };
      }
      o.lines = o.text.flatMap(lines);
      return o;
    };
    const T = go({ variant: INST[0], cr: false, out: 'trace.log', stats: true });
    if (T.skip || size > 2e6) return { nt: false };
    const bad = (cls, r, o) => ({ v: { cls, run: r, ...o } });
    const all = T.lines.map(name), host = s.hist.length, asked = s.x.guestCalls || 0;
    if (!T.lines.length) return bad('no-trace', 'full', { polls: s.polls, says: T.err.slice(0, 200) });
    // against what the simulator saw for itself: instructions polled, host calls made
    if (T.lines.length > s.polls) return bad('more-lines-than-instructions', 'full', { lines: T.lines.length, polls: s.polls });
    const direct = all.filter((q) => q === 'call_wasi').length, ind = all.filter((q) => q === 'call_indirect').length;
    if (asked < direct - 1 && !c.m.hosts.some((h) => /random_get|fdstat_get|args|environ/.test(h)) || asked > direct + ind) return bad('host-calls-not-traced', 'full', { asked, direct, ind });
    // and against the reference engine: the same instructions, locals and globals
    let t = null; try { t = truth(c); } catch { /* too long to be reported step by step */ }
    if (t && t.r.v.kind !== 'range' && t.r.hist.length === host) {
      const want = t.log.filter((x) => !FOLDED.test(x.n)), got = T.lines.filter((l) => !FOLDED.test(name(l)));
      for (let i = 0; i < Math.max(want.length, got.length); i++) {
        const x = want[i], l = got[i];
        if (!x || !l || x.n !== name(l)) return bad('other-instruction', 'full', { line: i, want: x ? x.n : 'nothing', got: l ? l.slice(0, 120) : 'nothing' });
        const q = Object.fromEntries(parts(l).map((p) => [p.slice(0, p.indexOf(':')), p.slice(p.indexOf(':') + 1)]));
        if (!says(q.Locals, x.l)) return bad('locals-differ', 'full', { line: i, instruction: x.n, want: x.l.map(String), got: q.Locals });
        if (!says(q.Globals, x.g)) return bad('globals-differ', 'full', { line: i, instruction: x.n, want: x.g.map(String), got: q.Globals });
      }
      injected('step_checked', want.length);
    }
    const check = (r, i) => {
      const o = go(r);
      if (o.skip) return null;
      let want = T.lines;
      if (r.ev && !r.ev.includes('all')) want = want.filter((l) => r.ev.some((e) => OF[e].test(name(l))));
      if (r.res) want = want.map((l) => project(l, r.res));
      if (!o.lost) { if (o.lines.join('\n') !== want.join('\n')) return bad('trace-differs', r, { parts: o.n, ...first(want, o.lines) }); } else {
        // a line that could not be written is missing; every other one is there
        let j = 0, whole = 0; for (const l of o.lines) { const k = want.indexOf(l, j); if (k < 0) continue; j = k + 1; whole++; }
        if (whole < want.length - 2 * o.lost) return bad('lines-lost', r, { want: want.length, got: whole, failed: o.lost });
      }
      if (o.mute) return bad('no-statistics', r, { ended: o.mute });
      if (r.stats && o.whole) {
        if (o.sum !== T.lines.length) return bad('count-differs', r, { parts: o.n, want: T.lines.length, got: o.sum });
        for (const [q, z] of o.by) { const n = all.filter((y) => y === q).length; if (n && (o.more ? z > n : z !== n)) return bad('instruction-count-differs', r, { instruction: q, want: n, got: z }); }
      }
      if (o.n > 1) injected('trace_cut');
      return null;
    };
    const b0 = check({ variant: INST[1], cr: false, out: 'trace.log', stats: true }, -1); if (b0) return b0;
    for (const [i, r] of c.runs.entries()) { const b = check(r, i); if (b) return b; if (size > 2e7) break; }
    return { sample: { lines: T.lines.length, runs: c.runs.map((r) => [r.variant, r.out, r.events.length, r.ev || 'all', r.faults ? r.faults.length : 0]) } };
  },
};
