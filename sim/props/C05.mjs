// Truthful outcome: a process that says it checkpointed has left a file that
// continues exactly; one that could not says so in its exit status and leaves
// an earlier checkpoint as it was.
import { mixProg, mkWorld, frac, trig, shortage, termOf, THR, POLL } from '../lib.mjs';
import { attempt, resumes, eq } from '../attempt.mjs';
import { CKPT } from '../exec.mjs';
import { E } from '../fs.mjs';
const ERR = ['IO', 'NOSPC', 'DQUOT', 'ROFS', 'ACCES', 'MFILE', 'NFILE', 'NOMEM', 'INTR', 'AGAIN', 'FBIG', 'PERM', 'ISDIR', 'XDEV', 'NOENT', 'STALE'];
export default {
  id: 'C05', level: 'fault_enumeration', variants: [...THR, ...POLL],
  lists: ['plan', 'world.faults', 'events'],
  simpler: (c) => ([...(c.prior != null ? [{ ...c, prior: undefined }] : []), ...(c.term ? [{ ...c, term: undefined }] : [])]),
  gen(rng) {
    const variant = rng.pick([...THR, ...THR, ...POLL]), poll = variant.startsWith('poll');
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 300] });
    const c = { m, world: mkWorld(rng, { faults: 0.1 }), variant, events: [trig(frac(rng))], plan: {} };
    if (rng.chance(0.6)) c.prior = frac(rng);
    const w = rng.f();
    if (rng.chance(0.1)) c.term = termOf(rng, true);
    if (w < 0.12) c.events.push(shortage(rng, c.events[0]));
    else if (w < 0.3) c.capacity = rng.pick([0, 1, 100, 512, 1000, 2000, 4000, 1e4, 1e5]);
    else if (w < 0.97) {
      for (let k = rng.weighted([[1, 6], [2, 3], [4, 1]]); k > 0; k--) c.plan[rng.int(9)] = rng.weighted([[{ errno: E[rng.pick(ERR)] }, 6], [{ short: rng.pick([1, 7, 100, 511, 2000]) }, 3]]);
      if (rng.chance(0.2)) { const e = E[rng.pick(ERR)]; for (let k = rng.int(4); k < 40; k++) c.plan[k] = { errno: e }; } // permanently broken disk
      if (rng.chance(0.1)) for (let k = 1; k < 60; k++) c.plan[k] = rng.chance(0.5) ? { short: rng.pick([1, 50, 300]) } : { errno: E.INTR };
    }
    return c;
  },
  run(c, ctx) {
    const a = attempt(c, ctx);
    if (!a) return { nt: false };
    if (a.bad) return { v: a.bad };
    const { x, disk, old } = a, now = disk.get(CKPT), ops = a.ops.slice(0, 20);
    const done = a.world.s.hist.length === a.s.hist.length && x.v.kind === a.s.v.kind && (x.v.kind !== 'exit' || x.v.code === a.s.v.code);
    const faulted = Object.keys(x.fired).length > 0 || x.refused > 0 || c.capacity != null;
    const sample = { variant: c.variant, prior: c.prior, plan: c.plan, term: c.term, capacity: c.capacity, ops, outcome: x.v.kind, fired: x.fired };
    const bad = (cls, o) => ({ v: { cls, ops, fired: x.fired, outcome: x.v, ...o } });
    // a zero exit status before the guest has ended is a claim of success
    if (x.v.kind === 'checkpoint' || (x.end.kind === 'return' && !done) || (x.end.kind === 'exit' && x.end.code === 0 && !done)) {
      if (!now) return bad('success-without-file');
      if (old && eq(old, now) && a.world.s.gidx !== a.oldWorld.gidx) return bad('success-but-old-file');
      const d = resumes(c, ctx, a, a.newWorld, [...a.oldOut, ...x.guestOut]);
      if (d) return bad('success-but-file-does-not-continue', { diff: d });
      return { nt: faulted, sample, extra: { succeeded: 1 } };
    }
    if (x.v.kind === 'runaway') return bad('stuck');
    if (old) { // a failed or absent attempt must not have cost the earlier checkpoint
      if (!now) return bad('earlier-checkpoint-lost');
      if (!eq(old, now) && resumes(c, ctx, a, a.oldWorld, a.oldOut)) { const d = resumes(c, ctx, a, a.newWorld, [...a.oldOut, ...x.guestOut]); if (d) return bad('earlier-checkpoint-damaged', { diff: d }); }
    } else if (now && !(x.v.kind === 'done' || x.v.kind === 'exit')) { // what is left under the name must be whole
      const d = resumes(c, ctx, a, a.newWorld, x.guestOut); if (d) return bad('partial-file-left', { diff: d });
    }
    if (done) return { nt: false };
    return { nt: faulted, sample, extra: { failed: 1 } };
  },
};
