// Migration rebinds the host: after a restore every clock reading, random byte,
// event and environment string comes from the host the guest now runs on, and
// what it had received before stays what the old host gave.
import { genProgram } from '../gen.mjs';
import { names, trig, frac, bound, THR, POLL } from '../lib.mjs';
import { reference, solo, chain, differ } from '../exec.mjs';
import { injected } from '../kernel.mjs';
const KINDS = ['clock', 'clock', 'random', 'poll', 'args', 'yield'];
export default {
  id: 'C18', level: 'exploration', variants: [...THR, ...POLL],
  lists: ['segs', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]), poll = variant.startsWith('poll');
    const hk = KINDS.filter(() => rng.chance(0.7)); hk.push(rng.pick(KINDS));
    const m = genProgram(rng, { fuels: poll ? [300, 1000] : [30, 100, 300], hostKinds: hk, features: { floats: rng.chance(0.3) ? 1 : 0, host: 6, obs: 1.5, exit: 1, traps: 0 } });
    // a recorded call before each environment read keeps the two apart
    const walk = (o) => { if (Array.isArray(o)) o.forEach(walk); else if (o && typeof o === 'object') { if (o.k === 'block' && /_sizes_get/.test(o.b[0]?.n)) { o.b.unshift({ k: 'hostmix', n: 'sched_yield', a: [] }); if (!m.hosts.includes('sched_yield')) m.hosts.push('sched_yield'); } for (const k of Object.keys(o)) walk(o[k]); } };
    walk(m.funcs);
    const n = rng.range(1, 4), segs = [], hosts = [];
    for (let i = 0; i <= n; i++) {
      const env = []; for (let k = rng.int(5); k > 0; k--) env.push('K' + rng.int(9) + '=' + 'v'.repeat(rng.int(20)) + rng.u32());
      hosts.push({ seed: 'h' + rng.u32(), epoch: String(rng.pick([0n, 1n, 1000000000000000000n, 1700000000000000000n, 4102444800000000000n])), mono: String(rng.pick([0, 5, 1e12, 1e17])), drift: rng.pick([1, 1, 2, 50]), res: rng.pick([1, 1000, 1000000]), env });
      if (i < n) segs.push({ variant: rng.chance(0.7) ? variant : rng.pick([...THR, ...POLL]), events: [trig(frac(rng))], stay: rng.chance(0.3) });
    }
    return { m, world: { seed: 's' + rng.u32(), files: {}, hosts }, variant, segs, ...names(rng, m) };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway') return { nt: false };
    const g = chain(c, ctx, { P: s.polls, segs: c.segs, tail: { variant: c.variant }, maxPolls: 8 * bound(s.polls) });
    const cuts = g.segs.slice(0, -1).map((x) => x.endHist);
    injected('host_change', cuts.length);
    // the guest on V8, on the same sequence of hosts; how many of the unrecorded
    // environment calls between two recorded ones came before the move is open
    let most = 0, gaps = [];
    const ref = (skips) => {
      let i = 0, k = 0, at = -1;
      const move = (w, gi, skip) => { while (i < cuts.length && (gi > cuts[i] || (gi === cuts[i] && (!skip || k >= (skips[i] || 0))))) { i++; w.s.seg++; } };
      return reference(c, { hostEnv: true, onGuest: (n, gi, kk) => move(kk.world, gi, false), onSkip: (n, gi, kk) => { if (!n.startsWith('environ')) return; if (gi !== at) { at = gi; k = 0; } move(kk.world, gi, true); if (++k > most) most = k; gaps[gi] = Math.max(gaps[gi] || 0, k); } });
    };
    ref([]); if (most > 12) return { nt: false };
    const search = (skips) => {
      const d = differ(ref(skips), g);
      if (!d) return null;
      const i = skips.length; if (i >= cuts.length || !c.m.hosts.includes('environ_get')) return d;
      let first = d;
      for (let k = 0; k <= (gaps[cuts[i]] || 0); k++) { const r = ref([...skips, k]); let same = true; const to = i + 1 < cuts.length ? cuts[i + 1] : Infinity; for (let j = 0; j < Math.min(to, g.hist.length) && same; j++) same = r.hist[j] === g.hist[j]; if (!same) continue; const e = i + 1 < cuts.length ? search([...skips, k]) : differ(r, g); if (!e) return null; first = e; }
      return first;
    };
    const d = search([]);
    if (d) return { v: { ...d, call: d.at != null ? String(d.want).split(' ')[0] : undefined, cuts, variant: c.variant, says: g.x.err.slice(0, 200) } };
    return { nt: cuts.length > 0, sample: { variant: c.variant, calls: g.hist.length, cuts, kinds: c.m.hosts, hosts: c.world.hosts.map((h) => h.epoch) } };
  },
};
