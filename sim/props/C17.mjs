// A checkpoint file is a value: restoring does not change or consume it, and
// every restore of it, after any crash of earlier ones, on any build, continues
// from exactly the same point.
import { mixProg, mkWorld, frac, trig, bound, THR, POLL, grows, termOf } from '../lib.mjs';
import { solo, process1, chain, differ, newDisk, bytesOf, place, gout, fsDigest, CKPT, TRIG } from '../exec.mjs';
import { World, injected } from '../kernel.mjs';
import { eq } from '../attempt.mjs';
import { E } from '../fs.mjs';
export default {
  id: 'C17', level: 'exploration', variants: [...THR, ...POLL],
  lists: ['tries', 'pre', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]), poll = variant.startsWith('poll');
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 400] });
    const pre = [trig(frac(rng))]; while (rng.chance(0.25)) pre.push(trig(frac(rng)));
    const tries = [];
    for (let k = rng.range(2, 7); k > 0; k--) {
      const t = { variant: rng.chance(0.3) ? rng.pick([...THR, ...POLL]) : variant, cr: rng.chance(0.7), events: [] };
      const w = rng.f();
      if (w < 0.45) t.events.push(rng.chance(0.3) ? { call: rng.range(1, 60), do: 'crash' } : { frac: frac(rng), do: 'crash' });
      else if (w < 0.6) { t.events.push(trig(frac(rng))); t.cr = true; t.fail = rng.pick(['IO', 'NOSPC', 'ROFS', 'ACCES']); } // checkpoints again, but cannot write
      else if (w < 0.7) t.fault = { n: rng.int(6), errno: E[rng.pick(['IO', 'NOMEM', 'ACCES'])] }; // disk error while loading
      else if (w < 0.78 && !grows(m)) t.afail = { min: rng.pick([1, 64, 1000, 10000]), first: rng.int(rng.pick([5, 100, 2000])), count: rng.pick([1, 2]) };
      else if (w < 0.84) t.term = termOf(rng, true);
      tries.push(t);
    }
    return { m, world: mkWorld(rng, { faults: 0.2 }), variant, pre, tries };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway' || !(s.polls > 1)) return { nt: false };
    const bytes = bytesOf(c), world = new World(c.world), disk = newDisk(bytes), maxPolls = bound(s.polls), outs = [];
    let left = s.polls, n = 0;
    for (const e of c.pre) {
      const x = process1(c, ctx, { variant: c.variant, world, disk, restore: n ? CKPT : null, events: place([e], left), maxPolls, g0: world.s.gidx });
      outs.push(...x.guestOut); left -= x.polls;
      if (x.v.kind !== 'checkpoint') return { nt: false };
      n++; world.s.seg = n;
    }
    const file = disk.get(CKPT), snap = world.snapshot(); if (!file) return { v: { cls: 'no-file' } };
    let crashes = 0, full = 0;
    for (const [i, t] of [...c.tries, { variant: c.variant, cr: false, events: [], last: 1 }].entries()) {
      const w = new World(c.world); w.rollback(snap);
      let k = 0;
      const iplan = t.fail ? (j, op, path, kk) => (kk.running && /^path_(open|rename)|fd_write|fd_sync/.test(op) ? { errno: E[t.fail] } : null) : t.fault ? (j, op, path, kk) => (!kk.running && op === 'fd_read' && k++ === t.fault.n ? { errno: t.fault.errno } : null) : null;
      const x = process1(c, ctx, { variant: t.variant, world: w, disk, restore: CKPT, cr: t.cr, events: place(t.events, left), iplan, afail: t.afail, term: t.term, maxPolls, g0: w.s.gidx });
      disk.del(TRIG);
      const now = disk.get(CKPT), bad = (cls, o) => ({ v: { cls, try: i, ended: x.v, variant: t.variant, ...o } });
      if (!now) return bad('file-consumed');
      if (!eq(file, now)) return bad(t.fail ? 'file-damaged-by-failed-checkpoint' : 'file-changed-by-restore', { before: file.length, after: now.length });
      const faulted = x.end.kind === 'crash' || x.refused > 0 || Object.keys(x.fired).length > 0;
      const got = { hist: w.s.hist, v: x.v, gout: gout([...outs, ...x.guestOut]), fs: fsDigest(w.gfs) };
      if (faulted && (x.v.kind !== s.v.kind || ((x.refused || t.term) && x.v.kind === 'trap'))) { // what it did until then must still be the true beginning
        crashes++;
        for (let j = 0; j < got.hist.length; j++) if (got.hist[j] !== s.hist[j]) return bad('diverged-before-crash', { at: j, want: s.hist[j], got: got.hist[j] });
        continue;
      }
      const d = differ(s, got, { noResult: !!t.term?.errno }); if (d) return bad('restore-not-repeatable', { diff: d, says: x.err.slice(0, 200) });
      full++;
    }
    return { nt: crashes + full > 1, extra: { restores_completed: full, restores_cut_short: crashes }, sample: { variant: c.variant, tries: c.tries.map((t) => [t.variant, t.events[0]?.do || (t.fault ? 'read error' : 'run')]), crashes, full } };
  },
};
