// Checkpoint/restore transparency: any chain of checkpoints and restores is
// indistinguishable from the uninterrupted run of the same build.
import { mixProg, mkWorld, names, trig, frac, bound, THR, POLL, INST, isPoll, pickBuild, pure, termOf } from '../lib.mjs';
import { solo, chain, differ } from '../exec.mjs';
export default {
  id: 'C01', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['chains', 'chains.*', 'world.faults'],
  gen(rng) {
    const { variant, flags } = pickBuild(rng, [...THR, ...THR, ...POLL], 0.1);
    const poll = isPoll(variant);
    const m = mixProg(rng, { fuels: poll ? [200, 1000, 3000] : [10, 30, 100, 200, 600] });
    const world = mkWorld(rng, { faults: 0.25 });
    const chains = [];
    const n = rng.pick([4, 8, 12]);
    for (let i = 0; i < n; i++) {
      const segs = [], k = rng.weighted([[1, 5], [2, 3], [3, 2], [5, 1]]);
      for (let j = 0; j < k; j++) segs.push({ variant, events: [trig(frac(rng))], stay: rng.chance(0.5), ...(rng.chance(0.05) ? { term: termOf(rng) } : {}) });
      chains.push(segs);
    }
    return { m, world, variant, flags, chains, ...names(rng, m) };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway') return { nt: false };
    let cks = 0;
    for (let i = 0; i < c.chains.length; i++) {
      const g = chain(c, ctx, { P: s.polls, segs: c.chains[i], tail: { variant: c.variant }, maxPolls: bound(s.polls) });
      cks += g.segs.length - 1;
      const d = differ(s, g, { noResult: false });
      if (d) return { v: { cls: d.cls === 'end' && g.v.kind !== 'done' ? 'end:' + g.v.kind : d.cls, chain: i, ...d, says: g.x.err.slice(0, 200), cut: g.segs.map((x) => [x.endHist, x.x.polls]) } };
    }
    return { nt: cks > 0, sample: { variant: c.variant, polls: s.polls, chains: c.chains.map((x) => x.map((y) => y.events[0]?.frac)), faults: c.world.faults } };
  },
};
