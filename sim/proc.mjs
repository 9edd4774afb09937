// Runs one process: the real interpreter (chiwawa compiled to WebAssembly) or
// the reference (the guest program run directly by V8), on a simulated host.
import { Kernel, Signal, World, HOOKS, injected } from './kernel.mjs';
import { Fs } from './fs.mjs';

const BIG = 0x40000000;

// opt: {mod, args, env, world, disk, events:[{poll|call|guest:n, do, ...}], iplan, tplan, oplan, loadFiles, memMax, maxPolls}
export function runChiwawa(opt) {
  const disk = opt.disk;
  const k = new Kernel({ world: opt.world, disk, args: ['chiwawa', ...opt.args], environ: opt.env || opt.world?.host().env || [], loadFiles: opt.loadFiles, iplan: opt.iplan, tplan: opt.tplan, oplan: opt.oplan, refuse: opt.refuse, boot: opt.boot, maxGuestCalls: opt.maxGuestCalls });
  const st = { granted: 0, threads: [], wakes: new Map(), inMon: false, scheds: 0, monTurns: 0, monSys: 0, parked: 0, trace: [], trigPlaced: [], trigSeen: 0 };
  let ex = null;
  const evs = (opt.events || []).map((e, i) => ({ ...e, i }));
  const pollEv = evs.filter((e) => e.poll != null).sort((a, b) => a.poll - b.poll);
  const callEv = evs.filter((e) => e.call != null).sort((a, b) => a.call - b.call);
  const guestEv = evs.filter((e) => e.guest != null).sort((a, b) => a.guest - b.guest);
  const saveEv = evs.filter((e) => e.iop != null);
  let pi = 0, ci = 0, gi = 0;
  const period = opt.monitorEvery || 0; // polls between monitor turns (0: only explicit turns)
  let nextMon = period ? (opt.monitorPhase || period) : Infinity;
  const T = (s) => { if (st.trace.length < 4000) st.trace.push(s); };

  function monitor(e) {
    if (st.inMon || !ex || !ex.chiwawa_sim_resume) return;
    for (const id of [...st.threads]) {
      if (st.done?.has(id)) continue;
      const sp = ex.__stack_pointer.value;
      st.inMon = true; st.monPark = e && e.park; st.monSys = 0; st.monTurns++;
      const fired = k.fault;
      try { ex.chiwawa_sim_resume(id); (st.done = st.done || new Set()).add(id); }
      catch (x) { if (!(x instanceof Signal) || (x.kind !== 'sleep' && x.kind !== 'park')) throw x; if (x.kind === 'park') { st.parked++; (st.done = st.done || new Set()).add(id); } } // descheduled for good
      finally { st.inMon = false; st.monPark = null; ex.__stack_pointer.value = sp; k.fault = fired; }
    }
  }
  // requests for at least e.min bytes fail: the e.first-th from now on, e.count of them
  function shortage(e) { if (ex.chiwawa_sim_memory) ex.chiwawa_sim_memory(opt.fill || 0, e.min || 0, e.first || 0, e.count ?? 1); }
  function fire(e) {
    T(`${e.do}@p${st.granted}c${k.calls}g${opt.world ? opt.world.s.gidx : 0}`);
    switch (e.do) {
      case 'trigger': { const dup = disk.has('checkpoint.trigger'); disk.put('checkpoint.trigger', Buffer.from('')); st.trigPlaced.push({ dup, polls: st.granted, g: opt.world ? opt.world.s.gidx : 0 }); if (e.eager) monitor(e); break; }
      case 'untrigger': disk.del('checkpoint.trigger'); break;
      case 'monitor': monitor(e); break;
      case 'crash': throw new Signal('crash', { at: e });
      case 'afail': shortage(e); break;
      case 'probe': if (opt.onProbe) opt.onProbe(e, k, st, ex); break;
      default: throw new Error('event ' + e.do);
    }
  }
  k.onCall = (n, when, guest) => {
    if (st.inMon) { // a monitor system call; may be descheduled here
      if (when === 'before') st.monSys++;
      const p = st.monPark;
      if (p && p.n === st.monSys && p.when === when) throw new Signal('park');
      return;
    }
    if (when !== 'before' || !ex) return;
    while (ci < callEv.length && callEv[ci].call <= k.calls) fire(callEv[ci++]);
    for (const e of saveEv) if (!e.fired && e.iop <= k.iop) { e.fired = true; fire(e); }
  };
  k.onGuest = (n, g) => { while (gi < guestEv.length && guestEv[gi].guest <= g) fire(guestEv[gi++]); if (opt.monitorGuest && st.trigPlaced.length) monitor(); if (opt.onGuest) opt.onGuest(n, g, k, st); };
  const sim = {
    sched() {
      st.scheds++;
      const cur = st.granted + 1; // this poll's number
      while (pi < pollEv.length && pollEv[pi].poll <= cur) fire(pollEv[pi++]);
      if (cur >= nextMon) { monitor(); nextMon = cur + period; }
      if (opt.maxPolls && cur > opt.maxPolls) throw new Signal('runaway');
      let nx = Math.min(pi < pollEv.length ? pollEv[pi].poll : BIG, nextMon, opt.maxPolls ? opt.maxPolls + 1 : BIG);
      let d = nx - cur; if (!(d > 0)) d = 1; if (d > BIG) d = BIG;
      st.granted = cur + d - 1;
      return d;
    },
    spawned(id) { st.threads.push(id); },
    sleep(n) { if (!st.inMon) return; throw new Signal('sleep', n); },
  };
  const res = { end: null };
  try {
    const inst = new WebAssembly.Instance(opt.mod, { wasi_snapshot_preview1: k.imports(), chiwawa_sim: sim });
    ex = inst.exports; k.bind(ex.memory);
    shortage(opt.afail || { count: 0 });
    ex._start();
    res.end = { kind: 'return' };
  } catch (x) {
    res.end = endOf(x);
  }
  try { res.polls = ex && ex.chiwawa_sim_budget && st.scheds ? st.granted + 1 - ex.chiwawa_sim_budget() : 0; } catch { res.polls = st.granted; }
  res.out = k.out[0]; res.err = k.out[1]; res.guestOut = k.guestOut; res.iops = k.iops; res.calls = k.calls; res.guestCalls = k.guestCalls || 0; res.fired = k.fired; res.st = st; res.running = k.running; res.fdsOpen = k.fds.size;
  res.mem = ex ? ex.memory.buffer.byteLength : 0;
  try { res.refused = ex && ex.chiwawa_sim_refused ? ex.chiwawa_sim_refused() : 0; } catch { res.refused = 0; }
  if (res.refused) injected('allocation_failed', res.refused);
  res.ckpt = /Checkpoint successful|stopped for checkpoint/.test(res.out);
  res.kernel = null;
  return res;
}
function endOf(x) {
  if (x instanceof Signal) return { kind: x.kind, code: x.kind === 'exit' ? x.info : undefined, info: x.info };
  if (x instanceof WebAssembly.RuntimeError) return { kind: 'trap', msg: x.message };
  if (x instanceof RangeError) return { kind: 'range', msg: x.message };
  throw x;
}

// reference: guest bytes straight in V8
export function runDirect(opt) { // {bytes|mod, world, args, entry, params, hostAt}
  const k = new Kernel({ world: opt.world, disk: new Fs(), args: opt.args, environ: opt.env || opt.world.host().env, direct: true, maxGuestCalls: opt.maxGuestCalls, onGuest: opt.onGuest, onSkip: opt.onSkip, hostEnv: opt.hostEnv });
  const res = {};
  HOOKS.phase(1);
  try {
    const mod = opt.mod || new WebAssembly.Module(opt.bytes);
    const inst = new WebAssembly.Instance(mod, { wasi_snapshot_preview1: k.imports(), ...(opt.sim ? { sim: opt.sim.imports } : {}) });
    if (opt.sim) opt.sim.inst = inst;
    k.bind(inst.exports.memory); res.inst = inst; k.work = () => (inst.exports.work ? inst.exports.work.value : 0n);
    res.value = inst.exports[opt.entry || '_start'](...(opt.params || []));
    res.end = { kind: 'return' };
  } catch (x) { res.end = endOf(x); } finally { HOOKS.phase(0); }
  res.guestOut = k.guestOut; res.calls = k.calls;
  if (res.inst && res.inst.exports.work) res.work = res.inst.exports.work.value;
  res.inst = null;
  return res;
}
