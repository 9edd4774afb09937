// Host-call fidelity: what the guest asks of the host, and what it gets back,
// is exactly what it would be without the interpreter in between, whatever the
// host answers. The oracle runs the same guest bytes on V8 on the same host.
import { genProgram } from './gen.mjs';
import { mkWorld, bound, THR, POLL } from './lib.mjs';
import { reference, solo, differ } from './exec.mjs';
export function fidelity(id, kinds, o = {}) {
  return {
    id, level: 'exploration', variants: [...THR, ...POLL],
    lists: ['world.faults'],
    gen(rng) {
      const variant = rng.pick([...THR, ...POLL]);
      const hk = kinds.filter(() => rng.chance(0.8)); if (!hk.length) hk.push(rng.pick(kinds));
      if (rng.chance(0.3)) hk.push('yield');
      const m = genProgram(rng, { huge: rng.chance(0.02), stmts: 24, fuels: [10, 40, 120], hostKinds: hk, features: { floats: 0, table: 0, calli: 0, refs: 0, bulk: 0, datadrop: 0, brtab: 0, grow: rng.chance(0.15) ? 1 : 0, host: 9, obs: 1, exit: 1, traps: 0 } });
      const c = { m, world: mkWorld(rng, { faults: 0.8, maxFaults: 25 }), variant, cr: rng.chance(0.5) };
      if (o.world) o.world(rng, c.world);
      return c;
    },
    run(c, ctx) {
      const r = reference(c);
      if (r.v.kind === 'runaway') return { nt: false };
      const s = solo(c, ctx, { variant: c.variant, cr: c.cr, maxPolls: 2e7 });
      const d = differ(r, s);
      if (d) return { v: { cls: d.cls, call: d.at != null ? String(d.want).split(' ')[0] : undefined, variant: c.variant, ...d, says: s.x.err.slice(0, 200) } };
      return { nt: r.hist.length > 2, sample: { variant: c.variant, calls: r.hist.length, kinds: c.m.hosts, faults: c.world.faults, first: r.hist.slice(0, 4) } };
    },
  };
}
