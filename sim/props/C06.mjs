// Crash atomicity: wherever the process or the machine stops, the checkpoint
// file is the earlier checkpoint or the new one, whole; once success was
// reported it is the new one, also after a power cut.
import { mixProg, mkWorld, frac, trig, shortage, THR, POLL } from '../lib.mjs';
import { attempt, resumes, eq } from '../attempt.mjs';
import { CKPT } from '../exec.mjs';
import { E } from '../fs.mjs';
import { Rng } from '../rng.mjs';
import { injected } from '../kernel.mjs';
export default {
  id: 'C06', level: 'fault_enumeration', variants: [...THR, ...POLL],
  lists: ['world.faults', 'cuts'],
  simpler: (c) => [...(c.prior != null ? [{ ...c, prior: undefined }] : []), ...(c.leftover ? [{ ...c, leftover: undefined }] : [])],
  gen(rng) {
    const variant = rng.pick([...THR, ...THR, ...POLL]), poll = variant.startsWith('poll');
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 300] });
    const c = { m, world: mkWorld(rng), variant, events: [trig(frac(rng))], plan: {}, cuts: [] };
    if (rng.chance(0.7)) c.prior = frac(rng);
    const w = rng.f();
    if (w < 0.12) { c.events.push(shortage(rng, c.events[0])); c.short = 1; }
    else if (w < 0.75) {
      const at = rng.int(9);
      c.plan[at] = rng.weighted([[{ crash: 'before' }, 3], [{ crash: 'after' }, 3], [{ crash: 'torn', n: rng.pick([0, 1, 100, 512, 1000, 3000]) }, 2]]);
      if (rng.chance(0.3)) for (let k = 0; k < at; k++) if (rng.chance(0.5)) c.plan[k] = { short: rng.pick([1, 100, 512, 600]) }; // writes in pieces: more crash points
    } else if (w < 0.85) c.events = [{ frac: c.events[0].frac, do: 'crash' }];
    else if (w < 0.95) { // storage errors that strike files (a host may be unable to sync directories)
      c.opt = { files: true };
      if (rng.chance(0.6)) c.opt.sync = { n: rng.pick([1, 1, 2, 99]), e: E[rng.pick(['IO', 'NOSPC', 'DQUOT', 'INTR', 'AGAIN', 'NOTSUP', 'INVAL', 'BADF', 'ROFS'])] };
      else for (let k = rng.range(1, 3); k > 0; k--) c.plan[rng.int(9)] = { errno: E[rng.pick(['IO', 'NOSPC', 'INTR', 'AGAIN', 'ACCES', 'PERM', 'XDEV', 'NOENT'])] };
    }
    if (rng.chance(0.3)) c.leftover = { events: [trig(frac(rng))], plan: { [rng.int(9)]: rng.weighted([[{ crash: 'before' }, 3], [{ crash: 'after' }, 3], [{ crash: 'torn', n: rng.pick([0, 100, 1000, 5000]) }, 2]]) }, cut: rng.chance(0.3) ? rng.u32() : undefined };
    // several power cuts of the same moment keep different parts of what was not yet durable
    for (let k = rng.range(1, 4); k > 0; k--) c.cuts.push(rng.chance(0.15) ? null : rng.u32());
    return c;
  },
  run(c, ctx) {
    const a = attempt(c, ctx);
    if (!a) return { nt: false };
    if (a.bad) return { v: a.bad };
    const { x, old } = a, ops = a.ops.slice(0, 20), success = x.v.kind === 'checkpoint';
    const crashed = x.end.kind === 'crash' || (x.refused > 0 && x.end.kind === 'trap'); // a process that gets no memory aborts
    const out = { kept_old: 0, kept_new: 0, absent: 0 };
    if (!success && !crashed) return { nt: false };
    const disk0 = a.disk;
    for (const cut of c.cuts) {
      a.disk = disk0.clone();
      let lost = null;
      if (cut != null) { lost = a.disk.powerCut(new Rng('cut' + cut)); injected('power_cut'); if (lost.torn) injected('torn_or_lost_writes'); } else injected('kill');
      const now = a.disk.get(CKPT), bad = (cls, o) => ({ v: { cls, ops, fired: x.fired, outcome: x.v.kind, cut, lost, size: now && now.length, ...o } });
      if (!now) { if (success) return bad('reported-checkpoint-lost'); if (old) return bad('earlier-checkpoint-lost'); out.absent++; continue; }
      if (old && eq(old, now)) {
        if (success && a.newWorld.gidx !== a.oldWorld.gidx) return bad('reported-checkpoint-lost');
        out.kept_old++; continue; // byte for byte the earlier file
      }
      const d = resumes(c, ctx, a, a.newWorld, [...a.oldOut, ...x.guestOut]);
      if (d) { const d2 = old && !success ? resumes(c, ctx, a, a.oldWorld, a.oldOut) : d; if (d2) return bad('file-is-neither-old-nor-new', { diff: d }); out.kept_old++; } else out.kept_new++;
    }
    return { sample: { variant: c.variant, prior: c.prior, plan: c.plan, cuts: c.cuts, ops, outcome: x.v.kind, ...out }, extra: out };
  },
};
