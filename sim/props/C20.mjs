// The interpreter's own file activity is confined: whatever a process does or
// suffers, the only files it makes, changes or removes are the checkpoint (and
// its unfinished copy), the request it answers and the trace output it was told
// to write. The program, the file restored from and everything else that lies
// there stay exactly as they are, and leftovers do not pile up.
import { mixProg, mkWorld, frac, trig, bound, THR, POLL } from '../lib.mjs';
import { solo, process1, newDisk, bytesOf, place, CKPT, TRIG, PROG } from '../exec.mjs';
import { World } from '../kernel.mjs';
import { E } from '../fs.mjs';
const INST = ['inst-tco', 'inst-legacy'];
const NEAR = ['checkpoint', 'checkpoint.old', 'checkpoint.bin.old', 'checkpoint.bin.bak', 'checkpoint.bin~', 'checkpoint-1.bin', 'checkpoint2.bin', 'Checkpoint.bin', 'xcheckpoint.bin', 'checkpoint.binary', 'checkpoint.trigger.off', 'checkpoint.trigger2', 'my.checkpoint.trigger', '.checkpoint', 'prog.wasm.bak', 'prog', 'data.txt', 'trace', 'trace.log.1', 'restore', 'core', 'a b', 'é.bin'];
const DIRS = ['tmp', 'data', 'checkpoints', 'checkpoint.d'], INNER = ['checkpoint.bin', 'checkpoint.trigger', 'x', 'prog.wasm'];
const SAVED = ['saved.bin', 'checkpoint.1', 'my ckpt', 'b.checkpoint', 'x'];
const ERR = ['IO', 'NOSPC', 'ROFS', 'ACCES', 'NFILE', 'MFILE', 'NOMEM', 'PERM', 'STALE', 'INTR', 'AGAIN', 'DQUOT', 'EXIST', 'BUSY'].filter((k) => E[k] != null);
// everything on the disk, by path
function look(disk) {
  const out = new Map(), seen = [];
  const walk = (id, p) => {
    const n = disk.node(id); if (seen.includes(id) && n.type === 3) return; seen.push(id);
    if (n.type === 3) { if (p) out.set(p, 'd'); for (const [k, v] of n.ent) walk(v, p ? p + '/' + k : k); } else out.set(p, n.type === 7 ? 'l' + n.target : `f${id} ${n.size} ${n.mtim} ${Buffer.from(n.data.subarray(0, n.size)).toString('latin1')}`);
  };
  walk(1, ''); return out;
}
const brief = (s) => (s == null ? 'absent' : s.slice(0, 60));
export default {
  id: 'C20', level: 'exploration', variants: [...THR, ...POLL, ...INST],
  lists: ['files', 'dirs', 'steps', 'steps.*.events', 'world.faults'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL, ...INST]), poll = variant.startsWith('poll') || variant === 'inst-legacy';
    const m = mixProg(rng, { fuels: poll ? [1000, 3000] : [30, 100, 400] });
    const files = []; for (let k = rng.range(1, 8); k > 0; k--) files.push([rng.pick(NEAR), rng.pick([0, 1, 40, 3000])]);
    const dirs = []; for (let k = rng.int(3); k > 0; k--) dirs.push([rng.pick(DIRS), rng.pick(INNER)]);
    const steps = [];
    for (let k = rng.range(1, 6); k > 0; k--) {
      const t = { variant: rng.chance(0.3) ? rng.pick([...THR, ...POLL, ...INST]) : variant, cr: rng.chance(0.85), from: rng.pick(['start', 'last', 'last', 'saved']), events: [] };
      if (rng.chance(0.8)) t.events.push(trig(frac(rng)));
      if (rng.chance(0.15)) t.events.push({ frac: frac(rng), do: 'crash' });
      const w = rng.f();
      if (w < 0.35) { t.plan = {}; for (let n = rng.range(1, 3); n > 0; n--) t.plan[rng.int(9)] = rng.weighted([[{ errno: E[rng.pick(ERR)] }, 4], [{ short: rng.pick([1, 50, 700]) }, 2], [{ crash: 'before' }, 1], [{ crash: 'after' }, 1], [{ crash: 'torn', n: rng.pick([0, 100, 2000]) }, 1]]); } else if (w < 0.45) { t.all = E[rng.pick(['IO', 'NOSPC', 'ROFS', 'ACCES'])]; t.after = rng.int(4); } else if (w < 0.55) t.load = { n: rng.int(8), errno: E[rng.pick(['IO', 'NOMEM', 'ACCES', 'STALE'])] };
      if (rng.chance(0.12)) t.harm = rng.pick(['cut', 'flip', 'empty', 'program']);
      if (rng.chance(0.2)) t.flags = ['--trace', '--trace-output=' + rng.pick(['trace.log', 'out/trace.log', 'checkpoint.log'])];
      else if (rng.chance(0.1)) t.flags = ['--trace'];
      if (rng.chance(0.1)) t.flags = [...(t.flags || []), '--stats'];
      if (rng.chance(0.15)) t.trig0 = 1; // a request that lies there already
      if (rng.chance(0.15)) t.tfail = [rng.pick(['unlink', 'any']), E[rng.pick(ERR)]];
      t.boot = { seed: 'b' + rng.u32(), epoch: String(1700000000000000000n + BigInt(rng.u32()) * 1000n) };
      steps.push(t);
    }
    // again and again cut short in the middle of saving
    if (rng.chance(0.25)) for (const t of steps) { t.cr = true; if (!t.events.length) t.events.push(trig(frac(rng))); delete t.all; delete t.load; t.plan = { [rng.range(1, 4)]: rng.pick([{ crash: 'before' }, { crash: 'after' }, { crash: 'torn', n: rng.pick([0, 100, 2000]) }]) }; }
    return { m, world: mkWorld(rng, { faults: 0.2 }), variant, files, dirs, saved: rng.pick(SAVED), steps };
  },
  run(c, ctx) {
    const s = solo(c, ctx, { variant: c.variant });
    if (s.v.kind === 'runaway' || !(s.polls > 1)) return { nt: false };
    const bytes = bytesOf(c), disk = newDisk(bytes), maxPolls = bound(s.polls);
    for (const [n, k] of c.files) disk.put(n, Buffer.alloc(k, n));
    for (const [d, n] of c.dirs) if (!disk.has(d)) disk.dirWith(d, n);
    const world0 = new World(c.world).snapshot();
    let last = null, saved = null, n = 0; const outs = new Set();
    for (const [i, t] of c.steps.entries()) {
      let src = t.from === 'start' ? null : t.from === 'saved' ? saved : last;
      const name = src === saved && saved ? c.saved : CKPT;
      if (src && !disk.has(name)) src = null;
      if (src && t.harm) { const b = disk.get(name), h = t.harm; if (h === 'cut') disk.put(name, b.slice(0, b.length >> 1)); else if (h === 'flip') { b[b.length >> 2] ^= 4; disk.put(name, b); } else if (h === 'empty') disk.put(name, Buffer.from('')); }
      if (t.harm === 'program') disk.put(PROG, bytes.slice(0, bytes.length >> 1));
      if (t.trig0) disk.put(TRIG, Buffer.from(''));
      const w = new World(c.world); w.rollback(src ? src.snap : world0);
      const pre = look(disk), trace = t.flags?.map((f) => (f.match(/^--trace-output=(.*)/) || [])[1]).find(Boolean);
      if (trace) outs.add(trace);
      const mine = (p) => c.files.some((f) => f[0] === p) || c.dirs.some((d) => p.startsWith(d[0])) || p === PROG || p === c.saved;
      let wrote = null, k = 0, ran = 0, hits = 0, only = '';
      const hit = (op, f) => { if (f && f.errno) { hits++; only = op; } return f; };
      const iplan = (j, op, path, kk, a) => {
        if (op === 'path_open' && !wrote && ((BigInt(a[5]) & 64n) || (a[4] & 13)) && pre.has(path) && mine(path) && path !== trace) wrote = path;
        if (!kk.running) return t.load && op === 'fd_read' && k++ === t.load.n ? hit(op, { errno: t.load.errno }) : null;
        const r = ran++; return hit(op, (t.plan && t.plan[r]) || (t.all && r >= t.after && !/close|stat/.test(op) ? { errno: t.all } : null));
      };
      const x = process1(c, ctx, { variant: t.variant, world: w, disk, restore: src ? name : null, cr: t.cr, flags: t.flags, events: place(t.events, src ? src.left : s.polls), iplan, boot: t.boot, tplan: t.tfail && ((op) => (t.tfail[0] === 'any' || op === 'path_unlink_file' ? { errno: t.tfail[1] } : null)), maxPolls, g0: w.s.gidx });
      n++;
      const post = look(disk);
      const bad = (cls, o) => ({ v: { cls, step: i, ended: x.v, variant: t.variant, ...o } });
      // only a process that was cut short, or could not even clean up, may leave something
      const troubled = x.end.kind === 'crash' || x.end.kind === 'flood' || hits > 1 || only === 'path_unlink_file';
      if (wrote) return bad('opened-for-writing', { path: wrote });
      let extra = 0;
      for (const p of new Set([...pre.keys(), ...post.keys()])) {
        if (pre.get(p) === post.get(p)) { if (![CKPT, TRIG].includes(p) && !mine(p) && !outs.has(p)) extra++; continue; }
        if (p === trace) continue;
        if (t.cr && p === CKPT) continue;
        if (p === TRIG) { if (!post.has(p) && !t.cr) return bad('request-removed-though-disabled'); continue; }
        if (!pre.has(p) || !mine(p) && p !== CKPT) { // something of its own
          if (!post.has(p)) continue;
          extra++;
          if (!troubled || !t.cr) return bad('stray-file', { path: p, now: brief(post.get(p)) });
          continue;
        }
        return bad('touched', { path: p, was: brief(pre.get(p)), now: brief(post.get(p)) });
      }
      if (extra > 1) return bad('leftovers-pile-up', { extra });
      if (t.harm === 'program') disk.put(PROG, bytes);
      if (src && t.harm && t.harm !== 'program' && x.v.kind !== 'checkpoint') { disk.del(name); if (src === saved) saved = null; if (src === last) last = null; }
      if (x.v.kind === 'checkpoint' && disk.has(CKPT)) {
        last = { snap: w.snapshot(), left: Math.max(1, (src ? src.left : s.polls) - x.polls) };
        if (!saved && i % 2 === 0) { disk.put(c.saved, disk.get(CKPT)); saved = last; last = { ...last }; } // carried off under another name
      }
      disk.del(TRIG);
    }
    return { nt: n > 0, sample: { variant: c.variant, files: c.files.length, steps: c.steps.map((t) => [t.from, t.cr, t.plan ? 'faults' : t.all ? 'broken disk' : t.load ? 'read error' : t.harm || 'run']) } };
  },
};
