// Nothing but the program, its arguments and environment and the host's answers
// decides a run: the same case is run and resumed again and again while
// everything else around the interpreter is different each time.
import { mixProg, mkWorld, frac, trig, bound, THR, POLL, LIGHT } from '../lib.mjs';
import { reference, process1, differ, newDisk, bytesOf, place, gout, fsDigest, CKPT } from '../exec.mjs';
import { World, injected } from '../kernel.mjs';
import fs from 'node:fs';
const ENVS = ['RUST_BACKTRACE=1', 'RUST_BACKTRACE=full', 'RUST_LOG=trace', 'RUST_MIN_STACK=1', 'CHIWAWA_CHECKPOINT=1', 'CHIWAWA_TRACE=1', 'CHECKPOINT=1', 'DEBUG=1', 'TMPDIR=/nowhere', 'HOME=/root', 'PWD=/x', 'TZ=Asia/Tokyo', 'LANG=C', 'NO_COLOR=1', 'WASI_ENV=1', 'TRACE=1', 'SEED=7'];
const FILES = ['trace.log', 'config', '.env', 'chiwawa.toml', 'stats', 'x.wasm', 'checkpoint.txt', 'checkpoint', 'trigger', 'data.bin', 'prog', 'prog.wasm.tmp', 'stop', 'a', 'checkpoint.bin.1'];
// names that occur in the interpreter itself and could be those of variables
const named = new Map();
function names(path) {
  if (!named.has(path)) { const t = fs.readFileSync(path, 'latin1'); named.set(path, [...new Set((t.match(/[A-Z][A-Z0-9]*(_[A-Z0-9]+)+/g) || []).flatMap((n) => [n, n.slice(0, -1)]))].filter((n) => n.length < 40 && !/^(RUST_|PWD$)/.test(n)).sort()); }
  return named.get(path);
}
const VALS = ['1', '0', '', '1000000', '/nowhere', 'a b', 'trace.log', 'true'];
// what may differ around a process without making a difference
function around(rng, poll) {
  const o = { fill: rng.pick([0, 255, 1, rng.int(256)]), boot: { seed: 'b' + rng.u32(), epoch: String(rng.pick([0n, 1n, 1700000000000000000n, 4102444800000000000n, 9000000000000000000n])), step: rng.pick([0, 1, 1000, 1e6, 1e9, 3e10]), back: rng.chance(0.4) } };
  if (rng.chance(0.6)) o.env = Array.from({ length: rng.range(1, 5) }, () => rng.pick(ENVS));
  if (rng.chance(0.4)) o.own = rng.pick(VALS); // and every name found in the interpreter
  if (rng.chance(0.4)) o.sought = rng.int(3); // files it looked for before
  if (rng.chance(0.6)) o.files = Array.from({ length: rng.range(1, 5) }, () => rng.pick(FILES));
  if (!poll) o.monitorEvery = rng.pick([0, 0, 40, 500, 5000]);
  if (rng.chance(0.3)) o.monitorPhase = rng.int(50);
  if (rng.chance(0.25)) o.full = true;
  if (rng.chance(0.2)) o.oldCkpt = rng.pick([0, 10, 5000]);
  if (rng.chance(0.3)) o.name = rng.pick(['saved', 'c.bin', 'checkpoint.bin.bak', 'a b.bin']);
  return o;
}
const KNOWN = /^(\.|prog\.wasm|checkpoint\.bin|checkpoint\.trigger|.*\.tmp)$/;
export default {
  id: 'C21', level: 'exploration', variants: [...THR, ...POLL],
  lists: ['runs', 'runs.*.a.env', 'runs.*.a.files', 'runs.*.b.env', 'runs.*.b.files', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]), poll = variant.startsWith('poll');
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 400], ...(rng.chance(0.4) ? { hostKinds: [...LIGHT, 'argv', 'argv'] } : {}) });
    const runs = Array.from({ length: rng.range(2, 5) }, () => ({ cr: rng.chance(0.7), a: around(rng, poll), b: around(rng, poll) }));
    return { m, world: mkWorld(rng, { faults: 0.3 }), variant, ...(rng.chance(0.5) ? { appArgs: Array.from({ length: rng.range(1, 4) }, () => rng.pick(['a', 'x.wasm', '--', 'trace.log', 'b c', '1'])) } : {}), at: frac(rng), runs };
  },
  run(c, ctx) {
    const r = reference(c);
    if (r.v.kind === 'runaway') return { nt: false };
    const bytes = bytesOf(c), disk = (o, ck) => { const d = newDisk(bytes); for (const f of o.files || []) d.put(f, Buffer.from(f)); if (o.sought != null) for (const f of sought) { try { d.put(f, Buffer.from(['', '1', 'a = 1\n'][o.sought])); } catch { /* below a directory that is not there */ } } if (ck) d.put(o.name || CKPT, ck); else if (o.oldCkpt != null) d.put(CKPT, Buffer.alloc(o.oldCkpt, 3)); if (o.full) d.s.capacity = d.used(); return d; };
    const opt = (o) => ({ variant: c.variant, fill: o.fill, boot: o.boot, env: envOf(o), monitorEvery: o.monitorEvery, monitorPhase: o.monitorPhase });
    const seen = (w, x, outs = []) => ({ hist: w.s.hist, v: x.v, gout: gout([...outs, ...x.guestOut]), fs: fsDigest(w.gfs) });
    const envOf = (o) => (o.own == null ? o.env : [...(o.env || []), ...names(ctx.paths[c.variant]).map((n) => n + '=' + o.own)]);
    const sought = new Set(), seek = (x) => { for (const o of x.iops) if (/^path_(open|filestat_get)$/.test(o.n) && !KNOWN.test(o.path)) sought.add(o.path); };
    let P = null, ck = null, hops = 0;
    for (const [i, t] of c.runs.entries()) {
      const w = new World(c.world);
      const x = process1(c, ctx, { ...opt(t.a), world: w, disk: disk(t.a), cr: t.cr, maxPolls: P ? bound(P) : 2e7 });
      seek(x);
      const d = differ(r, seen(w, x));
      if (d) return { v: { ...d, cls: 'run:' + d.cls, run: i, around: t.a, says: x.err.slice(0, 200) } };
      injected('surroundings_changed');
      if (t.cr) { if (P != null && x.polls !== P) return { v: { cls: 'work-differs', run: i, want: P, got: x.polls, around: t.a } }; P = x.polls; }
      if (!P || P < 2) continue;
      // one checkpoint, by whichever run comes first; every run continues from it
      if (!ck) {
        const w2 = new World(c.world), dk = disk({ ...t.a, full: false, oldCkpt: null });
        const y = process1(c, ctx, { ...opt({ ...t.a, env: t.b.env, own: t.b.own }), world: w2, disk: dk, events: place([trig(c.at)], P), maxPolls: bound(P) });
        if (y.v.kind !== 'checkpoint') { const d2 = differ(r, seen(w2, y)); if (d2) return { v: { ...d2, cls: 'unanswered:' + d2.cls, run: i } }; continue; }
        ck = { b: dk.get(CKPT), snap: w2.snapshot(), outs: y.guestOut };
        if (!ck.b) return { v: { cls: 'no-file', run: i } };
      }
      const w3 = new World(c.world); w3.rollback(ck.snap); w3.s.seg = 1;
      const z = process1(c, ctx, { ...opt(t.b), world: w3, disk: disk(t.b, ck.b), restore: t.b.name || CKPT, cr: t.cr, maxPolls: bound(P), g0: w3.s.gidx });
      seek(z);
      const d3 = differ(r, seen(w3, z, ck.outs));
      if (d3) return { v: { ...d3, cls: 'resumed:' + d3.cls, run: i, around: t.b, says: z.err.slice(0, 200) } };
      injected('surroundings_changed'); hops++;
    }
    return { nt: hops > 0 || c.runs.length > 1, extra: { resumed: hops }, sample: { variant: c.variant, at: c.at, runs: c.runs.length, first: c.runs[0].a } };
  },
};
