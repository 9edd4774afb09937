// A checkpoint file that is truncated, damaged, misread or taken from another
// program is refused before the guest does anything; slow but correct reads
// (short, interrupted) still restore.
import { mixProg, mkWorld, frac, trig, bound, THR, POLL } from '../lib.mjs';
import { solo, process1, differ, newDisk, bytesOf, place, gout, fsDigest, CKPT, PROG } from '../exec.mjs';
import { World, injected } from '../kernel.mjs';
import { Rng } from '../rng.mjs';
import { eq } from '../attempt.mjs';
import { E } from '../fs.mjs';
const KINDS = [['truncate', 4], ['flip', 5], ['zero', 2], ['sector', 2], ['shuffle', 1], ['append', 1], ['empty', 0.5], ['garbage', 0.7], ['missing', 0.4], ['foreign', 3], ['readerr', 2], ['readflip', 2], ['readshort', 2], ['intr', 1], ['mix', 1], ['splice', 1.5]];
export default {
  id: 'C07', level: 'fault_enumeration', variants: [...THR, ...POLL],
  lists: ['muts'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]), poll = variant.startsWith('poll');
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 300] });
    const muts = []; for (let k = rng.range(6, 20); k > 0; k--) muts.push({ kind: rng.weighted(KINDS), r: rng.u32(), cr: rng.chance(0.7) });
    return { m, world: mkWorld(rng), variant, at: frac(rng), at2: muts.some((x) => x.kind === 'splice') ? frac(rng) : undefined, muts };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway' || !(s.polls > 1)) return { nt: false };
    const bytes = bytesOf(c), world = new World(c.world), disk = newDisk(bytes), maxPolls = bound(s.polls);
    const x0 = process1(c, ctx, { variant: c.variant, world, disk, events: place([trig(c.at)], s.polls), maxPolls });
    if (x0.v.kind !== 'checkpoint') return { nt: false };
    const file = disk.get(CKPT); if (!file) return { v: { cls: 'no-file' } };
    const snap = world.snapshot(); let hit = 0, other = null;
    if (c.at2 != null) { const d = newDisk(bytes); process1(c, ctx, { variant: c.variant, world: new World(c.world), disk: d, events: place([trig(c.at2)], s.polls), maxPolls }); other = d.get(CKPT); }
    for (const mu of c.muts) {
      const r = new Rng('mut' + mu.r), d = newDisk(bytes); let f = Uint8Array.from(file), iplan = null, must = 'refuse', detail = {};
      switch (mu.kind) {
        case 'truncate': { const n = r.pick([r.int(f.length), r.int(f.length), f.length - 1, f.length - 1 - r.int(Math.min(64, f.length)), r.int(64)]); f = f.slice(0, Math.max(0, Math.min(n, f.length - 1))); detail.size = f.length; break; }
        case 'flip': for (let k = r.pick([1, 1, 1, 2, 8]); k > 0; k--) { const p = r.chance(0.3) ? r.int(Math.min(96, f.length)) : r.int(f.length); f[p] ^= 1 << r.int(8); detail.at = p; } break;
        case 'zero': { const p = r.int(f.length), n = r.range(1, 700); f.fill(0, p, p + n); Object.assign(detail, { p, n }); break; }
        case 'sector': { const k = r.int(Math.ceil(f.length / 512)); f.fill(r.pick([0, 255]), k * 512, k * 512 + 512); detail.sector = k; break; }
        case 'shuffle': { const p = r.int(f.length), q = r.int(f.length), n = r.range(1, 64); const t = f.slice(p, p + n); f.set(f.slice(q, q + Math.min(n, f.length - p)), p); f.set(t.slice(0, Math.max(0, f.length - q)), q); break; }
        case 'append': f = Uint8Array.from([...f, ...r.bytes(r.range(1, 40))]); break;
        case 'empty': f = new Uint8Array(0); break;
        case 'garbage': f = r.bytes(r.pick([1, 16, 64, 1000])); break;
        case 'missing': f = null; break;
        case 'foreign': { // the same file, another program
          const m2 = structuredClone(c.m), how = r.int(4);
          if (how === 0) m2.custom = 'x' + r.int(100);
          else if (how === 1) m2.fuel += r.range(1, 5);
          else if (how === 2) m2.funcs.push({ params: [], results: [], locals: [], body: [], ret: [] });
          else if (!m2.datas.length) m2.custom = 'y'; else m2.datas[0] = { ...m2.datas[0], hex: m2.datas[0].hex + '00' };
          d.put(PROG, bytesOf({ ...c, m: m2 })); d.settle(); detail.how = how; break;
        }
        case 'readerr': { const n = r.int(3), e = E[r.pick(['IO', 'NOMEM', 'STALE', 'ACCES', 'ISDIR'])]; let k = 0; iplan = (i, op, path) => (path === CKPT && (op === 'fd_read' || (op === 'path_open' && n === 0)) && k++ === n ? { errno: e } : null); detail = { n, e }; must = 'refuse-if-fired'; break; }
        case 'readflip': { const at = r.int(1 << 20), mask = 1 << r.int(8); let k = 0; iplan = (i, op, path) => (path === CKPT && op === 'fd_read' && k++ === 0 ? { flip: { at, mask } } : null); must = 'refuse-if-fired'; break; }
        case 'readshort': { const q = r.pick([1, 10, 333, 4096]); if (f.length / q > 4000) { must = 'either'; break; } iplan = (i, op, path) => (path === CKPT && op === 'fd_read' ? { short: q } : null); must = 'accept'; detail.q = q; break; }
        case 'intr': { const n = r.int(2); let k = 0; iplan = (i, op, path) => (path === CKPT && op === 'fd_read' && k++ === n ? { errno: E.INTR } : null); must = 'accept'; break; }
        case 'splice': { // parts of two checkpoints of the same program
          if (!other) break;
          const p = r.chance(0.5) ? Math.min(512 * r.range(1, 20), f.length) : r.int(f.length); f = Uint8Array.from([...(r.chance(0.5) ? [...file.slice(0, p), ...other.slice(p)] : [...other.slice(0, p), ...file.slice(p)])]);
          detail.at = p; if (eq(f, other)) f = Uint8Array.from(file); break;
        }
        case 'mix': { const p = r.int(f.length); const g = new Uint8Array(f.length); g.set(f.subarray(0, p)); f = g; detail.kept = p; break; }
      }
      if (f && must === 'refuse' && mu.kind !== 'foreign' && eq(f, file)) continue;
      if (f) { d.put(CKPT, f); d.settle(); }
      const w = new World(c.world); w.rollback(snap); w.s.seg = 1;
      const x = process1(c, ctx, { variant: c.variant, world: w, disk: d, restore: CKPT, events: [], iplan, cr: mu.cr, maxPolls, g0: w.s.gidx });
      injected('ckpt_' + mu.kind); hit++;
      const bad = (cls, o) => ({ v: { cls, kind: mu.kind, ...detail, size: file.length, ended: x.v, ...o } });
      if (must === 'refuse-if-fired') must = Object.keys(x.fired).length ? 'refuse' : 'accept';
      if (must === 'refuse') {
        if (x.guestCalls > 0 || x.guestOut.length || x.polls > 0) return bad('damaged-file-used', { guest_calls: x.guestCalls, instructions: x.polls });
        if (x.end.kind === 'return' || (x.end.kind === 'exit' && x.end.code === 0)) return bad('refusal-not-reported');
      } else if (must === 'accept') {
        const df = differ(s, { hist: w.s.hist, v: x.v, gout: gout([...x0.guestOut, ...x.guestOut]), fs: fsDigest(w.gfs) });
        if (df) return bad('good-file-not-restored', { diff: df, says: x.err.slice(0, 200) });
      }
    }
    return { nt: hit > 0, extra: { damaged_files: hit }, sample: { variant: c.variant, at: c.at, size: file.length, muts: c.muts.map((x) => x.kind) } };
  },
};
