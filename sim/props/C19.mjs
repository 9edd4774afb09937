// Loading: a program file that is torn, missing, unreadable or not a module is
// refused, with a failure status, before any of it runs; slow but correct reads
// load it exactly.
import { mixProg, mkWorld, frac, trig, bound, THR, POLL, grows } from '../lib.mjs';
import { solo, process1, differ, newDisk, bytesOf, place, gout, fsDigest, CKPT, PROG } from '../exec.mjs';
import { World, injected } from '../kernel.mjs';
import { Rng } from '../rng.mjs';
import { Fs, E } from '../fs.mjs';
const KINDS = [['truncate', 5], ['empty', 0.5], ['missing', 0.7], ['garbage', 1], ['head', 1], ['readerr', 3], ['openerr', 1.5], ['readshort', 3], ['intr', 2], ['dir', 0.7], ['zerotail', 1.5], ['shortage', 2]];
export default {
  id: 'C19', level: 'fault_enumeration', variants: [...THR, ...POLL],
  lists: ['muts'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]);
    const m = mixProg(rng, { fuels: [30, 200] });
    const muts = []; for (let k = rng.range(8, 24); k > 0; k--) muts.push({ kind: rng.weighted(KINDS), r: rng.u32(), cr: rng.chance(0.5), restore: rng.chance(0.3) });
    return { m, world: mkWorld(rng), variant, at: frac(rng), muts };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway' || !(s.polls > 1)) return { nt: false };
    const bytes = bytesOf(c), maxPolls = bound(s.polls);
    const w0 = new World(c.world), d0 = newDisk(bytes);
    const x0 = process1(c, ctx, { variant: c.variant, world: w0, disk: d0, events: place([trig(c.at)], s.polls), maxPolls });
    const file = x0.v.kind === 'checkpoint' ? d0.get(CKPT) : null, snap = w0.snapshot();
    let hit = 0;
    for (const mu of c.muts) {
      const r = new Rng('mod' + mu.r), restore = mu.restore && file, w = new World(c.world), d = Fs.durable(); let f = Uint8Array.from(bytes), iplan = null, must = 'refuse', detail = {}, afail;
      if (restore) w.rollback(snap);
      const onRead = (fn) => { let k = 0; iplan = (i, op, path) => (path === PROG && op === 'fd_read' ? fn(k++) : null); };
      switch (mu.kind) {
        case 'truncate': { const n = r.pick([r.int(bytes.length), r.int(bytes.length), bytes.length - 1, bytes.length - 1 - r.int(30), r.int(40)]); f = bytes.slice(0, Math.max(0, n)); detail.size = f.length; break; }
        case 'zerotail': { const n = r.int(bytes.length); f.fill(0, n); detail.kept = n; break; }
        case 'empty': f = new Uint8Array(0); break;
        case 'missing': f = null; break;
        case 'garbage': f = r.bytes(r.pick([1, 4, 8, 100, 3000])); break;
        case 'head': f[r.int(8)] ^= 1 << r.int(8); break;
        case 'readerr': { const n = r.int(3), e = E[r.pick(['IO', 'NOMEM', 'STALE', 'ISDIR', 'ACCES'])]; onRead((k) => (k === n ? { errno: e } : null)); must = 'fired'; detail = { n, e }; break; }
        case 'openerr': { const e = E[r.pick(['IO', 'NOMEM', 'MFILE', 'NFILE', 'ACCES', 'LOOP', 'NOTCAPABLE'])]; iplan = (i, op, path) => (path === PROG && op === 'path_open' ? { errno: e } : null); detail.e = e; break; }
        case 'readshort': { const q = r.pick([1, 7, 100, 511]); onRead(() => ({ short: q })); must = 'run'; detail.q = q; break; }
        case 'intr': { const n = r.int(2); onRead((k) => (k === n ? { errno: E.INTR } : null)); must = 'run'; break; }
        case 'shortage': if (grows(c.m)) continue; afail = { min: r.pick([1, 64, 1000, 10000]), first: r.int(r.pick([5, 100, 2000, 10000])), count: r.pick([1, 2]) }; must = 'begin'; detail = afail; break;
        case 'dir': f = null; d.setEntry(1, PROG, d.mknode(3, 0).id); break;
      }
      if (f) { d.put(PROG, f); if (must === 'refuse' && mu.kind !== 'openerr') { if (Buffer.compare(Buffer.from(f), Buffer.from(bytes)) === 0) continue; if (WebAssembly.validate(f)) must = 'either'; } }
      if (restore) d.put(CKPT, file);
      d.settle();
      const x = process1(c, ctx, { variant: c.variant, world: w, disk: d, restore: restore ? CKPT : null, events: [], iplan, afail, cr: mu.cr, maxPolls, g0: w.s.gidx });
      injected('module_' + mu.kind); hit++;
      const bad = (cls, o) => ({ v: { cls, kind: mu.kind, restore: !!restore, ...detail, of: bytes.length, ended: x.v, ...o } });
      if (must === 'begin' && !x.refused) must = 'run';
      if (must === 'begin') { // whatever it came to do is the true beginning, and it says if there was no more
        for (let j = 0; j < w.s.hist.length; j++) if (w.s.hist[j] !== s.hist[j]) return bad('diverged', { at: j, want: s.hist[j], got: w.s.hist[j] });
        if ((x.end.kind === 'return' || (x.end.kind === 'exit' && x.end.code === 0)) && w.s.hist.length !== s.hist.length) return bad('failure-not-reported');
        continue;
      }
      if (must === 'fired') must = Object.keys(x.fired).length ? 'refuse' : 'run';
      if (must === 'either') {
        // a well-formed remainder may load; but a checkpoint of the whole program must not continue in it
        if (restore && (x.guestCalls > 0 || x.polls > 0)) return bad('checkpoint-resumed-in-other-program');
        continue;
      }
      if (must === 'refuse') {
        if (x.guestCalls > 0 || x.guestOut.length || x.polls > 0) return bad('bad-module-ran', { guest_calls: x.guestCalls, instructions: x.polls });
        if (x.end.kind === 'return' || (x.end.kind === 'exit' && x.end.code === 0)) return bad('refusal-not-reported');
        if (restore) { const now = d.get(CKPT); if (!now || Buffer.compare(Buffer.from(now), Buffer.from(file))) return bad('checkpoint-lost'); }
      } else {
        const df = differ(s, { hist: w.s.hist, v: x.v, gout: gout([...(restore ? x0.guestOut : []), ...x.guestOut]), fs: fsDigest(w.gfs) });
        if (df) return bad('good-module-not-run', { diff: df, says: x.err.slice(0, 200) });
      }
    }
    return { nt: hit > 0, extra: { load_attempts: hit }, sample: { variant: c.variant, size: bytes.length, muts: c.muts.map((x) => x.kind + (x.restore ? '+restore' : '')) } };
  },
};
