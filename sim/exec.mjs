// Building blocks shared by the property checks: reference runs, single
// processes, and chains of processes linked by checkpoint files.
import { emit } from './wasm.mjs';
import { World, STATS, injected } from './kernel.mjs';
import { Fs } from './fs.mjs';
import { runChiwawa, runDirect } from './proc.mjs';
import { hashText } from './rng.mjs';

export const CKPT = 'checkpoint.bin', TRIG = 'checkpoint.trigger', PROG = 'prog.wasm';
// the program may have any name (c.prog), a moved checkpoint too (c.kept),
// and may have another one on the next machine (c.moved)
export const progOf = (c) => c.prog || PROG;
export const ARGV = (c) => [progOf(c), ...(c.appArgs || [])];
// --app-args is split on blanks, double quotes group; c.quoting: how they are written
const QUOTE = { all: (a) => `"${a}"`, inner: (a) => (a ? a.replace(/ +/g, (b) => `"${b}"`) : '""'), split: (a) => (a.length > 1 ? `"${a.slice(0, a.length >> 1)}"${/ /.test(a.slice(a.length >> 1)) ? `"${a.slice(a.length >> 1)}"` : a.slice(a.length >> 1)}` : `"${a}"`) };
export const appArgs = (c) => (c.appArgs && c.appArgs.length ? ['--app-args', (c.quoting ? '  ' : '') + c.appArgs.map(QUOTE[c.quoting] || ((a) => (/ /.test(a) || !a ? `"${a}"` : a))).join(c.quoting ? '   ' : ' ') + (c.quoting === 'all' ? ' ' : '')] : []);

export function bytesOf(c) { return emit(c.m); }
export function workOf(c) { return emit(c.m, { count: true }); }

let insts = 0;
export function tidy(n = 1) { insts += n; if (insts > 60) { insts = 0; globalThis.gc?.(); } }

// ------------------------------------------------------------ reference run
const BUDGET = 20000000; // statements; what takes longer is given up as too long
export function reference(c, opt = {}) {
  const w = new World(c.world);
  const r = runDirect({ bytes: opt.bytes || emit(c.m, { budget: BUDGET }), sim: opt.sim, world: w, args: ARGV(c), env: opt.env, entry: c.entry, params: opt.params, maxGuestCalls: opt.maxGuestCalls || c.maxGuestCalls, onGuest: opt.onGuest, onSkip: opt.onSkip, hostEnv: opt.hostEnv });
  tidy();
  if (r.work > BUDGET) r.end = { kind: 'runaway' };
  return { w, r, v: verdictDirect(r), hist: w.s.hist, gout: gout(r.guestOut), fs: fsDigest(w.gfs) };
}
export function gout(list) { return list.map(([fd, b]) => fd + ':' + Buffer.from(b).toString('hex')).join(' '); }
// content and metadata of the guest-visible tree
export function fsDigest(fs) {
  const seen = new Map(), out = [];
  const walk = (id, p) => {
    const n = fs.node(id);
    if (n.type === 3) { out.push(p + '/'); for (const k of [...n.ent.keys()].sort()) walk(n.ent.get(k), p + '/' + k); }
    else if (n.type === 7) out.push(p + '->' + n.target);
    else { const a = seen.get(id); if (a) out.push(p + '==' + a); else { seen.set(id, p); out.push(p + ' ' + n.size + ' ' + Buffer.from(n.data.subarray(0, n.size)).toString('hex') + ' ' + n.atim + ' ' + n.mtim); } }
  };
  walk(1, '');
  return hashText(out.join('\n'));
}
function verdictDirect(r) {
  const e = r.end;
  if (e.kind === 'return') return { kind: 'done', value: r.value === undefined ? null : norm(r.value) };
  if (e.kind === 'exit') return { kind: 'exit', code: e.code };
  if (e.kind === 'trap' || e.kind === 'efault') return { kind: 'trap' };
  return { kind: e.kind };
}
const norm = (v) => (Object.is(v, -0) ? '-0' : String(v));
// what a finished chiwawa process says about itself
export function verdict(x) {
  const e = x.end;
  if (e.kind === 'trap') return { kind: 'trap', how: 'panic', msg: (x.err.match(/panicked at .*\n?.*/) || [e.msg])[0].slice(0, 200) };
  if (e.kind === 'exit' && e.code >>> 0 >= 16) return { kind: 'exit', code: e.code };
  if (e.kind === 'exit') {
    const m = x.err.match(/Execution Error: (.*)/);
    if (/Checkpoint failed/.test(x.err)) return { kind: 'ckpt-failed', code: e.code, msg: x.err.slice(0, 200) };
    if (m) return { kind: 'trap', how: 'error', code: e.code, msg: m[1].slice(0, 200) };
    return { kind: 'failed', code: e.code, msg: x.err.slice(0, 300) };
  }
  if (e.kind !== 'return') return { kind: e.kind, msg: e.msg || '' };
  if (x.ckpt) return { kind: 'checkpoint' };
  const r = x.out.match(/Result: (.*)/);
  return { kind: 'done', value: r ? resultValue(r[1]) : null };
}
function resultValue(s) { const m = s.match(/\((?:I32|I64|F32|F64)\((.*?)\)\)/); return m ? m[1] : s; }

// trouble with the interpreter's own messages: from the n-th write to the terminal on, so many times
export const terminal = (t) => { if (!t) return undefined; let k = 0; return () => { const i = k++ - t.n; return i >= 0 && i < t.count ? (t.errno ? { errno: t.errno } : { short: t.short }) : null; }; };
// ------------------------------------------------------------- one process
export function process1(c, ctx, o) {
  const args = [];
  if (o.restore) args.push('--restore', o.restore);
  if (o.cr !== false) args.push('--cr');
  args.push(...(o.flags || []), ...(c.flags && o.variant.startsWith('inst') ? c.flags : []), progOf(c), ...appArgs(c));
  const x = runChiwawa({ mod: ctx.mods[o.variant], args, world: o.world, disk: o.disk, env: o.env, events: o.events, iplan: o.iplan, tplan: o.tplan, oplan: o.oplan || terminal(o.term), loadFiles: o.restore ? [progOf(c), o.restore] : [progOf(c)], monitorEvery: o.monitorEvery, monitorPhase: o.monitorPhase, monitorGuest: o.monitorGuest, maxPolls: o.maxPolls || 6e6, refuse: o.refuse, boot: o.boot, maxGuestCalls: o.maxGuestCalls || c.maxGuestCalls, onProbe: o.onProbe, onGuest: o.onGuest, afail: o.afail, fill: o.fill ?? fillOf(c, o) });
  tidy();
  x.v = verdict(x);
  STATS.procs++; STATS.polls += x.polls || 0; STATS.calls += x.calls; STATS.vtime += o.world.s.gidx - (o.g0 || 0);
  if (x.v.kind === 'checkpoint') STATS.ckpts++;
  if (o.restore) STATS.restores++;
  if (x.st.parked) injected('monitor_descheduled', x.st.parked);
  for (const e of x.st.trace) { const k = e.split('@')[0]; injected(k === 'trigger' ? 'checkpoint_request' : k); }
  STATS.sig.push(o.variant + (o.restore ? 'R' : '') + x.st.trace.join() + '|' + x.st.monTurns + '|' + JSON.stringify(x.fired) + x.v.kind + '@' + x.polls + '/' + o.world.s.gidx);
  return x;
}
// what fresh memory holds in a process
function fillOf(c, o) { return parseInt(hashText((c.world && c.world.seed) + o.variant + o.world.s.gidx + !!o.restore).slice(0, 6), 16) & 255; }
// positions may be given as a fraction of the polls that are left
export function place(events, left) { return (events || []).map((e) => (e.frac == null ? e : { ...e, poll: 1 + Math.floor(e.frac * Math.max(1, left)) })); }
export function newDisk(bytes, c = {}) { const d = Fs.durable(); d.put(progOf(c), bytes); d.settle(); return d; }

// A chain: the program runs, is checkpointed, the file is carried to the next
// process, and so on. c.segs[i] = {variant, events, monitorEvery, monitorPhase, cr, stay}
export function chain(c, ctx, opt = {}) {
  const bytes = opt.bytes || bytesOf(c);
  const world = new World(c.world);
  let disk = opt.disk || newDisk(bytes, c), gouts = [], segs = [], x = null, left = opt.P || 0, from = null, at = c;
  for (let i = 0; i < 64; i++) {
    const seg = (opt.segs || c.segs)[i] || { ...(opt.tail || c.tail), events: [] };
    world.s.seg = i;
    const startHist = world.s.hist.length;
    x = process1(at, ctx, { ...seg, events: place(seg.events, left), g0: world.s.gidx, world, disk, restore: i ? from : null, maxPolls: opt.maxPolls, maxGuestCalls: opt.maxGuestCalls });
    gouts.push(...x.guestOut);
    left = Math.max(1, left - (x.polls || 0));
    segs.push({ x, variant: seg.variant, startHist, endHist: world.s.hist.length, ended: world.s.ended });
    if (opt.onSeg) { const r = opt.onSeg(i, x, disk, world); if (r) return { world, segs, x, v: x.v, stop: r, hist: world.s.hist }; }
    if (x.v.kind !== 'checkpoint') break;
    const f = disk.get(CKPT);
    if (!f) { x.v = { kind: 'no-file' }; break; }
    from = CKPT;
    if (!seg.stay) { if (c.moved) at = at === c ? { ...c, prog: c.moved } : c; disk = newDisk(bytes, at); disk.put(from = c.kept || CKPT, f); }
  }
  return { world, segs, x, v: x.v, disk, hist: world.s.hist, gout: gout(gouts), fs: fsDigest(world.gfs) };
}
// first difference between a reference execution and an observed one (null: same)
export function differ(ref, got, o = {}) {
  const n = Math.min(ref.hist.length, got.hist.length);
  for (let i = 0; i < n; i++) if (ref.hist[i] !== got.hist[i]) return { cls: 'history', at: i, want: cut(ref.hist[i]), got: cut(got.hist[i]) };
  if (ref.v.kind !== got.v.kind) return { cls: 'end', want: ref.v, got: got.v };
  if (ref.hist.length !== got.hist.length) return { cls: 'history-length', want: ref.hist.length, got: got.hist.length, next: cut(ref.hist[n] || got.hist[n]) };
  if (ref.v.kind === 'exit' && ref.v.code !== got.v.code) return { cls: 'exit-code', want: ref.v.code, got: got.v.code };
  if (ref.v.kind === 'done' && !o.noResult && (ref.v.value ?? null) !== (got.v.value ?? null)) return { cls: 'result', want: ref.v.value, got: got.v.value };
  if (ref.gout !== got.gout) return { cls: 'guest-output', want: cut(ref.gout), got: cut(got.gout) };
  if (ref.fs !== got.fs) return { cls: 'files' };
  return null;
}
const cut = (s) => (s == null ? s : s.length > 300 ? s.slice(0, 300) + '…' : s);

// uninterrupted run of the real interpreter
export function solo(c, ctx, o = {}) {
  const bytes = o.bytes || bytesOf(c);
  const world = new World(c.world);
  const disk = o.disk || newDisk(bytes, c);
  const x = process1(c, ctx, { variant: o.variant, world, disk, events: place(o.events, o.P), cr: o.cr, maxPolls: o.maxPolls, flags: o.flags, env: o.env, monitorEvery: o.monitorEvery, onProbe: o.onProbe, onGuest: o.onGuest, fill: o.fill, afail: o.afail });
  return { x, world, disk, v: x.v, hist: world.s.hist, gout: gout(x.guestOut), fs: fsDigest(world.gfs), polls: x.polls };
}
