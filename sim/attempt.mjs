// One checkpoint attempt under storage faults, with or without an earlier
// checkpoint in place, and what can be resumed from the disk afterwards.
import { World } from './kernel.mjs';
import { process1, chain, differ, newDisk, bytesOf, place, solo, gout, fsDigest, CKPT } from './exec.mjs';
import { bound } from './lib.mjs';
import { injected } from './kernel.mjs';
import { Rng } from './rng.mjs';

// plan: {ordinal: fault} over the storage operations of the running process
// (o.files: errors strike regular files only; o.sync: so many of the first syncs of a file fail)
export function planner(plan, state, o = {}) {
  state.n = 0; state.seen = []; let left = o.sync ? o.sync.n : 0;
  const dir = (n, path, k, a) => { if (n === 'path_open') { const r = k.disk.resolve(1, path || '.', true); return r.id && k.disk.node(r.id).type === 3; } return n.startsWith('fd_') && k.fds.get(a[0])?.kind === 'dir'; };
  return (i, n, path, k, a) => {
    if (!k.running) return null;
    const f = plan[state.n++] || null; state.seen.push(n);
    if (/sync/.test(n) && left && !dir(n, path, k, a)) { left--; return { errno: o.sync.e }; }
    return f && f.errno && o.files && dir(n, path, k, a) ? null : f;
  };
}
export function attempt(c, ctx) {
  const s = solo(c, ctx, { variant: c.variant });
  if (s.v.kind === 'runaway' || !(s.polls > 1)) return null;
  const bytes = bytesOf(c), world = new World(c.world), disk = newDisk(bytes), maxPolls = bound(s.polls);
  let left = s.polls, old = null, oldWorld = null;
  const gpre = [];
  if (c.prior != null) {
    const x = process1(c, ctx, { variant: c.variant, world, disk, events: place([{ frac: c.prior, do: 'trigger', eager: true }], left), maxPolls });
    gpre.push(...x.guestOut);
    if (x.v.kind !== 'checkpoint') return null;
    old = disk.get(CKPT); oldWorld = world.snapshot(); left -= x.polls;
    if (!old) return { s, bad: { cls: 'no-file', after: 'prior checkpoint' } };
  }
  if (c.leftover) { // an earlier try of the same process, cut short: whatever it left lies about
    const w = new World(c.world); if (oldWorld) w.rollback(oldWorld);
    process1(c, ctx, { variant: c.variant, world: w, disk, restore: old ? CKPT : null, events: place(c.leftover.events, left), iplan: planner(c.leftover.plan, {}), maxPolls });
    if (c.leftover.cut != null) { disk.powerCut(new Rng('left' + c.leftover.cut)); injected('power_cut'); }
    const now = disk.get(CKPT);
    if (old ? !eq(now, old) : now) { if (old) disk.put(CKPT, old); else disk.del(CKPT); }
  }
  if (c.capacity != null) disk.s.capacity = disk.used() + c.capacity;
  world.s.seg = 1;
  const st = {};
  const x = process1(c, ctx, { variant: c.variant, world, disk, restore: old ? CKPT : null, events: place(c.events, left), iplan: planner(c.plan || {}, st, c.opt), term: c.term, maxPolls });
  disk.s.capacity = null;
  return { s, world, disk, old, oldWorld, oldOut: gpre, newWorld: world.snapshot(), x, ops: st.seen, bytes, maxPolls };
}
// Resumes from the checkpoint file on the disk (as one of the two states it may
// hold) and compares the whole execution with the uninterrupted one.
export function resumes(c, ctx, a, snap, outs) {
  const world = new World(c.world); world.rollback(snap); world.s.seg = 2;
  const disk = a.disk.clone();
  const x = process1(c, ctx, { variant: c.variant, world, disk, restore: CKPT, events: [], maxPolls: a.maxPolls, g0: world.s.gidx });
  const got = { hist: world.s.hist, v: x.v, gout: gout([...outs, ...x.guestOut]), fs: fsDigest(world.gfs) };
  const d = differ(a.s, got);
  return d ? { ...d, says: x.err.slice(0, 200) } : null;
}
export const eq = (a, b) => !!a && !!b && a.length === b.length && Buffer.compare(Buffer.from(a), Buffer.from(b)) === 0;
