// Observation is transparent: checkpoint support, statistics and tracing, in any
// combination and with failing trace output or trigger probes, never change
// what the guest does.
import { mixProg, mkWorld, bound, THR, POLL, isPoll, termOf } from '../lib.mjs';
import { solo, differ, newDisk, bytesOf, process1, gout, fsDigest } from '../exec.mjs';
import { World } from '../kernel.mjs';
import { E } from '../fs.mjs';
const ALL = [...THR, ...POLL, 'inst-tco', 'inst-legacy'];
const ERR = ['IO', 'NOSPC', 'ACCES', 'ROFS', 'INTR', 'NFILE'];
export default {
  id: 'C13', level: 'exploration', variants: ALL,
  lists: ['runs', 'runs.*.flags', 'runs.*.tfault', 'runs.*.ofault', 'runs.*.ifault', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...ALL, 'inst-tco', 'inst-legacy']);
    const m = mixProg(rng, { fuels: [10, 60, 300] });
    const runs = [];
    for (let k = rng.range(2, 5); k > 0; k--) {
      const flags = [];
      const cr = rng.chance(0.6);
      if (rng.chance(0.5)) flags.push('--stats');
      if (rng.chance(0.5)) {
        flags.push('--trace');
        if (rng.chance(0.5)) flags.push('--trace-events=' + ['all', 'store', 'load', 'call', 'branch', 'Call', 'nonsense', ''].filter(() => rng.chance(0.3)).concat(rng.chance(0.8) ? 'call' : []).join(','));
        if (rng.chance(0.5)) flags.push('--trace-resource=' + ['regs', 'memory', 'locals', 'globals', 'pc', 'stack', 'PC', 'nonsense', ''].filter(() => rng.chance(0.3)).concat(rng.chance(0.8) ? 'pc' : []).join(','));
        if (rng.chance(0.7)) flags.push('--trace-output=' + rng.pick(['trace.log', 'nodir/trace.log']));
      }
      const tfault = {}, ifault = {};
      if (cr && rng.chance(0.5)) for (let i = rng.range(1, 5); i > 0; i--) tfault[rng.int(30)] = E[rng.pick(['IO', 'ACCES', 'NFILE', 'NOMEM', 'INTR'])];
      if (rng.chance(0.5)) { for (let i = rng.range(1, 4); i > 0; i--) ifault[rng.int(12)] = rng.chance(0.7) ? { errno: E[rng.pick(ERR)] } : { short: rng.int(4) }; }
      // messages and a trace on the terminal that are taken slowly; or a trace that is not taken at all
      const toTerm = variant.startsWith('inst') && flags.includes('--trace') && !/trace-output/.test(flags.join());
      const term = toTerm && rng.chance(0.5) ? { n: rng.int(20), count: rng.pick([1, 3, 1e9]), errno: E[rng.pick(ERR)], err: 1 } : rng.chance(0.15) ? termOf(rng) : undefined;
      if (term?.err && flags.includes('--stats')) flags.splice(flags.indexOf('--stats'), 1);
      runs.push({ flags, term, cr, tfault, ifault, every: rng.pick([0, 5, 40, 300]), full: rng.chance(0.2) });
    }
    return { m, world: mkWorld(rng, { faults: 0.2 }), variant, runs };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant, cr: false });
    if (s.v.kind === 'runaway') return { nt: false };
    for (const [i, r] of c.runs.entries()) {
      const world = new World(c.world), disk = newDisk(bytesOf(c));
      if (r.term?.err && s.v.kind !== 'done' && s.v.kind !== 'exit') continue;
      let en = 0;
      if (r.full) disk.s.capacity = disk.used();
      let tn = 0, on = 0;
      const x = process1(c, ctx, { variant: c.variant, world, disk, events: [], flags: r.flags, cr: r.cr, monitorEvery: isPoll(c.variant) ? 0 : r.every, maxPolls: 5e7,
        ...(r.term?.err ? { oplan: (op, fd) => (fd === 2 && en++ >= r.term.n && en <= r.term.n + r.term.count ? { errno: r.term.errno } : null) } : { term: r.term }),
        tplan: (op) => { const e = r.tfault && r.tfault[tn++]; return e ? { errno: e } : null; },
        iplan: (k, op, path) => (/trace\.log/.test(path) ? (r.ifault && r.ifault[on++]) || null : null) });
      if (x.v.kind === 'flood') continue;
      const d = differ(s, { hist: world.s.hist, v: x.v, gout: gout(x.guestOut), fs: fsDigest(world.gfs) });
      if (d) return { v: { cls: d.cls, run: i, variant: c.variant, flags: r.flags, cr: r.cr, ...d, says: x.err.slice(-200) } };
    }
    return { sample: { variant: c.variant, runs: c.runs } };
  },
};
