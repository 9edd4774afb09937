// Builds are interchangeable: every build runs a program the same way, and a
// checkpoint of any build continues in any other.
import { mixProg, mkWorld, names, trig, frac, bound, THR, POLL } from '../lib.mjs';
import { solo, chain, differ } from '../exec.mjs';
const ALL = [...THR, ...POLL, 'inst-tco', 'inst-legacy'];
export default {
  id: 'C02', level: 'exploration', variants: ALL,
  lists: ['also', 'chains', 'chains.*', 'world.faults'],
  gen(rng) {
    const m = mixProg(rng, { fuels: [30, 200, 1000, 2000] });
    const world = mkWorld(rng, { faults: 0.25 });
    const base = rng.pick(ALL), also = ALL.filter((v) => v !== base && rng.chance(0.5));
    const chains = [];
    for (let i = rng.range(2, 6); i > 0; i--) {
      const segs = []; for (let j = rng.range(1, 5); j > 0; j--) segs.push({ variant: rng.pick(ALL), events: [trig(frac(rng))], stay: rng.chance(0.3) });
      chains.push({ segs, tail: rng.pick(ALL) });
    }
    return { m, world, ...names(rng, m), base, also, chains: chains.map((x) => [...x.segs, { variant: x.tail, events: [] }]) };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.base });
    if (s.v.kind === 'runaway') return { nt: false };
    for (const v of c.also) {
      const d = differ(s, solo(c, ctx, { variant: v, maxPolls: bound(s.polls) }));
      if (d) return { v: { cls: 'solo:' + d.cls, builds: [c.base, v], ...d } };
    }
    let hops = 0;
    for (let i = 0; i < c.chains.length; i++) {
      const segs = c.chains[i]; if (!segs.length) continue;
      const g = chain(c, ctx, { P: s.polls, segs, tail: { variant: segs[segs.length - 1].variant }, maxPolls: bound(s.polls) });
      for (let k = 1; k < g.segs.length; k++) if (g.segs[k].variant !== g.segs[k - 1].variant) hops++;
      const d = differ(s, g);
      if (d) return { v: { cls: d.cls === 'end' ? 'end:' + g.v.kind : d.cls, chain: i, ...d, says: g.x.err.slice(0, 200), cut: g.segs.map((x) => [x.variant, x.endHist]) } };
    }
    return { nt: hops > 0, extra: { build_changes: hops }, sample: { base: c.base, also: c.also, chains: c.chains.map((x) => x.map((y) => [y.variant, y.events[0]?.frac])) } };
  },
};
