// Requests are one-shot: no checkpoint without a request, one request never
// makes two checkpoints, and with checkpointing off there is none at all.
import { mixProg, mkWorld, frac, bound, THR, POLL, INST, LIGHT, isPoll, pickBuild } from '../lib.mjs';
import { solo, chain, newDisk, bytesOf } from '../exec.mjs';
import { E } from '../fs.mjs';
const EPROBE = ['IO', 'ACCES', 'NOENT', 'NFILE', 'NOMEM', 'STALE', 'NOTCAPABLE', 'INTR', 'LOOP', 'NOTDIR'];
// files that are not the request
const DECOYS = ['checkpoint', 'trigger', 'checkpoint.trigger~', 'checkpoint.trigger.bak', '.checkpoint.trigger', 'checkpoint.trigger.tmp', 'Checkpoint.Trigger', 'CHECKPOINT.TRIGGER', 'checkpoint.bin', 'checkpoint.bin.tmp', 'checkpoint.bin.trigger', 'checkpoint-trigger', 'checkpoint_trigger', 'checkpoint.triggers', 'checkpoint.trigge', 'stop', 'restore.trigger', 'd/checkpoint.trigger', 'tmp/checkpoint.trigger', 'checkpoint/trigger', 'g/checkpoint.trigger'];
function diskOf(c) {
  const d = newDisk(bytesOf(c));
  for (const n of c.decoys || []) { const [a, b] = n.split('/'); if (!b) d.put(n, Buffer.from('')); else if (!d.has(a)) d.dirWith(a, b); }
  return d;
}
export default {
  id: 'C04', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['decoys', 'segs', 'segs.*.events', 'segs.*.tfault', 'world.faults'],
  gen(rng) {
    const { variant, flags } = pickBuild(rng, [...THR, ...THR, ...POLL]), poll = isPoll(variant);
    const m = mixProg(rng, { fuels: poll ? [500, 2000, 5000] : [30, 200, 600], hostKinds: LIGHT });
    const segs = [], n = rng.range(1, 5);
    for (let i = 0; i < n; i++) {
      const events = [];
      const nt = rng.weighted([[0, 3], [1, 5], [2, 2]]);
      for (let k = 0; k < nt; k++) {
        const t = { do: 'trigger', eager: rng.chance(0.6) };
        const w = rng.f();
        if (w < 0.15) t.call = rng.range(1, 12); else if (w < 0.3) t.iop = rng.int(12); else t.frac = rng.chance(0.06) ? 1 : frac(rng); // 1: just after the last point at which it could be honoured
        if (t.eager && rng.chance(0.3)) t.park = { n: rng.range(1, 3), when: rng.pick(['before', 'after']) };
        events.push(t);
      }
      if (rng.chance(0.25)) events.push({ frac: frac(rng), do: 'untrigger' });
      for (let k = rng.int(3); k > 0; k--) { const e = { frac: frac(rng), do: 'monitor' }; if (rng.chance(0.2)) e.park = { n: rng.range(1, 3), when: rng.pick(['before', 'after']) }; events.push(e); }
      const tfault = {}; if (rng.chance(0.4)) for (let k = rng.range(1, 6); k > 0; k--) tfault[rng.int(rng.pick([4, 20, 60]))] = E[rng.pick(EPROBE)];
      segs.push({ variant, events, tfault, stay: true, cr: rng.chance(0.12) ? false : undefined, monitorEvery: poll ? 0 : rng.pick([0, 3, 17, 100, 1000]) });
    }
    const decoys = []; if (rng.chance(0.4)) for (let k = rng.range(1, 4); k > 0; k--) decoys.push(rng.pick(DECOYS));
    if (rng.chance(0.05)) decoys.push(...DECOYS);
    const world = mkWorld(rng); if (world.dirs && rng.chance(0.6)) decoys.push('d/checkpoint.trigger');
    return { m, world, variant, flags, segs, decoys: [...new Set(decoys)] };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant, disk: diskOf(c), monitorEvery: !isPoll(c.variant) && c.decoys?.length ? 100 : 0 });
    if (s.v.kind === 'runaway') return { nt: false };
    if (s.v.kind === 'checkpoint') return { v: { cls: 'spurious', ended: s.v, requests: 0 } };
    const segs = c.segs.map((x) => ({ ...x, tplan: probeFaults(x.tfault) }));
    let trig = 0, ck = 0, bad = null;
    chain(c, ctx, {
      disk: diskOf(c), P: s.polls, segs, tail: { variant: c.variant, stay: true, monitorEvery: 50 }, maxPolls: bound(s.polls),
      onSeg(i, x) {
        trig += x.st.trigPlaced.filter((t) => !t.dup).length;
        if (x.v.kind === 'checkpoint') ck++;
        if (ck > trig) bad = { cls: 'more-checkpoints-than-requests', process: i, checkpoints: ck, requests: trig };
        else if (x.v.kind === 'checkpoint' && segs[i]?.cr === false) bad = { cls: 'checkpoint-while-off', process: i };
        return bad || ck > 12;
      },
    });
    return { v: bad, nt: trig > 0, extra: { requests: trig }, sample: { variant: c.variant, polls: s.polls, segs: c.segs.map((x) => ({ events: x.events, tfault: x.tfault, off: x.cr === false })) } };
  },
};
function probeFaults(t) { let n = 0; return (op) => { if (op !== 'path_filestat_get') return null; const e = t && t[n++]; return e ? { errno: e } : null; }; }
