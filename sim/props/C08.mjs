// A request is not lost to transient trouble: while looking for it fails, or
// the thread that looks is stalled, nothing happens; once that stops, it is
// honoured within a bounded amount of work and the program continues exactly.
import { mixProg, mkWorld, frac, bound, THR, POLL, INST, LIGHT, isPoll, pickBuild } from '../lib.mjs';
import { solo, chain, differ } from '../exec.mjs';
import { injected } from '../kernel.mjs';
import { E } from '../fs.mjs';
const EPROBE = ['IO', 'ACCES', 'NFILE', 'MFILE', 'NOMEM', 'STALE', 'INTR', 'LOOP', 'AGAIN', 'TIMEDOUT'];
const OPS = { look: /^path_(filestat_get|open|readlink)$/, take: /^path_(unlink_file|rename)$/, both: /^path_/ };
export default {
  id: 'C08', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['segs', 'world.faults'],
  gen(rng) {
    const { variant, flags } = pickBuild(rng), poll = isPoll(variant);
    const m = mixProg(rng, { fuels: poll ? [3000, 8000, 15000] : [60, 300, 1000], hostKinds: LIGHT });
    const segs = [];
    for (let k = rng.range(1, 4); k > 0; k--) segs.push({ at: rng.chance(0.2) ? { call: rng.range(1, 40) } : { frac: frac(rng) * 0.9 }, fails: rng.pick([0, 1, 1, 2, 3, 6]), errno: E[rng.pick(EPROBE)], alt: E[rng.pick(EPROBE)], every: rng.pick([3, 20, 150, 700]), stall: rng.chance(0.4) ? rng.range(1, 3000) : 0, ops: rng.weighted([['look', 5], ['take', 2], ['both', 2]]) });
    return { m, world: mkWorld(rng, { faults: 0.1 }), variant, flags, segs };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway' || !(s.polls > 10)) return { nt: false };
    const poll = isPoll(c.variant), fired = [];
    const segs = c.segs.map((g, i) => {
      let left = g.fails; fired[i] = 0;
      return { variant: c.variant, stay: true, monitorEvery: poll ? 0 : g.every, monitorPhase: poll ? 0 : 1 + g.stall,
        events: [{ ...g.at, do: 'trigger', eager: false }],
        tplan: (op, path, k) => { if (!OPS[g.ops || 'look'].test(op) || !k.running || left <= 0 || !k.disk.has('checkpoint.trigger')) return null; left--; fired[i]++; return { errno: left & 1 ? g.errno : g.alt }; } };
    });
    const g = chain(c, ctx, { P: s.polls, segs, tail: { variant: c.variant, stay: true }, maxPolls: bound(s.polls) });
    let hit = 0;
    for (const [i, x] of g.segs.entries()) {
      const t = x.x.st.trigPlaced[0]; if (!t || i >= c.segs.length) continue;
      const q = c.segs[i], gap = poll ? 1024 : q.every;
      const limit = poll ? 4096 + gap * fired[i] : (q.stall > t.polls ? q.stall - t.polls : 0) + gap * (fired[i] + 2) + 64;
      const late = x.x.polls - t.polls;
      if (late > limit) return { v: { cls: x.x.v.kind === 'checkpoint' ? 'late' : 'lost', variant: c.variant, process: i, polls_after_request: late, limit, failed_probes: fired[i], ended: x.x.v } };
      if (x.x.v.kind === 'checkpoint') hit++;
      if (q.stall && !poll) injected('monitor_stalled');
    }
    const d = differ(s, g); if (d) return { v: { ...d, variant: c.variant, says: g.x.err.slice(0, 200) } };
    return { nt: hit > 0, extra: { honoured: hit }, sample: { variant: c.variant, polls: s.polls, segs: c.segs } };
  },
};
