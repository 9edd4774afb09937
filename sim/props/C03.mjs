// A checkpoint request is honoured within a bounded amount of guest work,
// wherever execution is: in loops, deep calls, restored frames, with or
// without host calls.
import { mixProg, mkWorld, frac, bound, addSpin, THR, POLL, INST, LIGHT, isPoll, pickBuild } from '../lib.mjs';
import { solo, chain, differ, reference, workOf, place } from '../exec.mjs';
import { World } from '../kernel.mjs';
import { runDirect } from '../proc.mjs';
const WORK = (v) => (isPoll(v) ? 4096 : 300); // guest statements
const POLLS = (v) => (isPoll(v) ? 4096 : 64);
export default {
  id: 'C03', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['at', 'polls', 'world.faults'],
  simpler(c) { return c.at && c.at.length > 1 ? c.at.map((a) => ({ ...c, at: [a] })) : []; },
  gen(rng) {
    const { variant, flags } = pickBuild(rng), poll = isPoll(variant);
    const mode = rng.weighted([['guest', 5], ['start', 3], ['poll', 2], ['spin', 1.5]]);
    const fuels = poll ? [2000, 5000, 10000] : [100, 400, 1500];
    const m = mode === 'guest' ? mixProg(rng, { hostOnly: true, fuels, hostKinds: rng.chance(0.7) ? ['yield'] : LIGHT, features: { host: 2, obs: 0.2, exit: 1, traps: 0 } }) : mixProg(rng, { fuels, hostKinds: LIGHT });
    const world = mkWorld(rng, { faults: 0.1 });
    if (mode === 'spin') { // never ends by itself
      addSpin(rng, m);
      const hops = []; for (let i = rng.range(1, 3); i > 0; i--) hops.push(Math.round(1 + rng.f() * 10 ** rng.range(1, 5)));
      return { m, world, variant, flags, mode, polls: hops, stay: rng.chance(0.5), monitorEvery: rng.pick([7, 20, 50]) };
    }
    if (rng.chance(0.35)) addSpin(rng, m, rng.pick(poll ? [5000, 20000] : [400, 2000]));
    const at = []; for (let i = rng.range(1, 4); i > 0; i--) at.push(frac(rng));
    return { m, world, variant, flags, mode, at: mode === 'start' ? undefined : at, hops: rng.range(3, 12), stay: rng.chance(0.5), monitorEvery: rng.pick([7, 20, 50]) };
  },
  run(c, ctx) {
    const v = c.variant, opts = { variant: v, stay: c.stay, monitorEvery: !isPoll(v) ? c.monitorEvery : 0, monitorGuest: !isPoll(v) };
    const late = (cls, x) => ({ v: { cls, variant: v, ...x } });
    if (c.mode === 'spin') {
      let hit = 0, bad = null;
      chain(c, ctx, {
        segs: c.polls.map((n) => ({ ...opts, events: [{ poll: n, do: 'trigger', eager: true }] })), tail: { variant: v }, maxPolls: 400000,
        onSeg(i, x) {
          const t = x.st.trigPlaced[0];
          if (t) { const d = x.polls - t.polls; if (d > POLLS(v)) bad = { process: i, polls_after_request: d, limit: POLLS(v), ended: x.v }; if (x.v.kind === 'checkpoint') hit++; }
          return bad || i + 1 >= c.polls.length;
        },
      });
      if (bad) return late('late', bad);
      return { nt: hit > 0, sample: { variant: v, endless: true, at: c.polls } };
    }
    // work done by the guest at the start of each host call, from the reference engine
    const bytes = workOf(c), w = new World(c.world), at = [];
    const ref = runDirect({ bytes, world: w, args: ['prog.wasm'], maxGuestCalls: c.maxGuestCalls, onGuest: (n, g, k) => { if (at[g] == null) at[g] = Number(k.work()); } });
    if (ref.end.kind === 'runaway') return { nt: false };
    const W = Number(ref.work || 0), G = at.length;
    if (c.mode === 'start') { // a request is already there whenever a process starts
      const need = Math.min(c.hops, Math.floor(W / WORK(v)) - 1);
      if (need < 1) return { nt: false };
      const segs = []; for (let i = 0; i < need; i++) segs.push({ ...opts, events: [{ call: 1, do: 'trigger', eager: true }, { poll: 1, do: 'monitor' }] });
      const g = chain(c, ctx, { segs, tail: { variant: v }, maxPolls: 64 * W + 1e6 });
      const bad = g.segs.findIndex((s, i) => i < need && s.x.v.kind !== 'checkpoint');
      if (bad >= 0) return late('starved', { process: bad, work: W, needed: need, ended: g.segs[bad].x.v, polls: g.segs[bad].x.polls });
      return { sample: { variant: v, work: W, hops: need } };
    }
    if (c.mode === 'poll') {
      const s = solo(c, ctx, { variant: v });
      if (s.v.kind === 'runaway' || !(s.polls > 2)) return { nt: false };
      const segs = c.at.map((f) => ({ ...opts, events: [{ frac: f, do: 'trigger', eager: true }] }));
      const g = chain(c, ctx, { P: s.polls, segs, tail: { variant: v }, maxPolls: bound(s.polls) });
      let hit = 0, used = 0;
      for (const [i, x] of g.segs.entries()) {
        const t = x.x.st.trigPlaced[0];
        if (t) { const d = x.x.polls - t.polls; if (d > POLLS(v)) return late('late', { process: i, polls_after_request: d, limit: POLLS(v), ended: x.x.v }); hit++; }
        used += x.x.polls;
      }
      return { nt: hit > 0, sample: { variant: v, polls: s.polls, at: c.at } };
    }
    if (G < 3) return { nt: false };
    const marks = c.at.map((f) => Math.floor(f * G)).sort((a, b) => a - b);
    const segs = marks.map((gm) => ({ ...opts, events: [{ guest: gm, do: 'trigger', eager: true }] }));
    const g = chain(c, ctx, { segs, tail: { variant: v }, maxPolls: 64 * W + 1e6 });
    let hit = 0;
    for (const [i, x] of g.segs.entries()) {
      const t = x.x.st.trigPlaced[0]; if (!t) continue;
      const from = at[t.g] ?? W, end = x.x.v.kind === 'checkpoint' ? (x.endHist - 1 <= t.g ? from : at[x.endHist - 1] ?? W) : W;
      if (end - from > WORK(v)) return late(x.x.v.kind === 'checkpoint' ? 'late' : 'ignored', { process: i, request_at_call: t.g, work_after_request: end - from, limit: WORK(v), ended: x.x.v });
      if (W - from > WORK(v)) hit++;
    }
    return { nt: hit > 0, sample: { variant: v, work: W, calls: G, marks } };
  },
};
