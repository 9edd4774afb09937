// Generators and oracles shared by the properties.
import { genProgram } from './gen.mjs';
import { E } from './fs.mjs';
import { reference, solo, chain, differ, place, bytesOf, process1, newDisk, CKPT, TRIG, PROG } from './exec.mjs';
import { hashText } from './rng.mjs';
import { World } from './kernel.mjs';

export const THR = ['thr-tco', 'thr-legacy'], POLL = ['poll-tco', 'poll-legacy'];
// these two have tracing and statistics built in
export const INST = ['inst-tco', 'inst-legacy'];
export const isPoll = (v) => v.startsWith('poll') || v === 'inst-legacy';
// a build, now and then one that observes as well: -> {variant, flags}
export function pickBuild(rng, list = [...THR, ...POLL], p = 0.2) {
  if (!rng.chance(p)) return { variant: rng.pick(list) };
  const flags = []; if (rng.chance(0.6)) flags.push('--stats');
  if (rng.chance(0.4)) flags.push('--trace', '--trace-events=' + rng.pick(['store', 'call', 'load']), '--trace-resource=pc', '--trace-output=t.log');
  return { variant: rng.pick(INST), flags };
}
export const ALLHOST = ['yield', 'stdout', 'clock', 'random', 'poll', 'open', 'rw', 'fdop', 'pathop', 'sock'];
export const LIGHT = ['yield', 'stdout', 'clock', 'random'];
const FILES = { b: '0102030405060708090a', 'd/x': '61626364' };

// a program of the general mix; o: {hostKinds, features, fuels, ...}
export function mixProg(rng, o = {}) {
  const kind = rng.f();
  if (kind < 0.08 && !o.hostOnly) { // no host imports at all
    const m = genProgram(rng, { fuels: o.fuels, nomem: rng.chance(0.3), features: { ...o.features, host: 0, obs: 0, exit: 0, traps: 0 } });
    if (m.mem && rng.chance(0.25)) { // a memory that was not empty at first and is afterwards
      const c = (v) => ({ k: "const", t: "i32", v });
      const bare = (o) => { if (Array.isArray(o)) return o.map(bare).filter((x) => !x || !['store', 'nstore', 'memfill', 'memcopy', 'meminit', 'ifpage'].includes(x.k)); if (!o || typeof o !== 'object') return o; const r = {}; for (const k of Object.keys(o)) r[k] = bare(o[k]); return r; };
      m.funcs = m.funcs.map((f) => ({ ...f, body: bare(f.body), ret: bare(f.ret) }));
      m.datas.push({ active: true, off: 8 * rng.int(64), hex: Buffer.from(rng.bytes(rng.range(1, 600))).toString('hex') });
      const f = m.funcs[m.entry]; f.body.unshift({ k: 'memfill', a: [c(0), c(0), c(m.mem.min * 65536)] });
      for (let i = 0; i < 8; i++) f.body.push({ k: 'mix', t: 'i64', e: { k: 'load', op: 'i64.load', a: c(64 * i), off: 0 } });
    }
    m.dump = false; m.hosts = []; m.result = true; m.exitCode = undefined; delete m.prelude;
    return m;
  }
  const hk = o.hostKinds || (rng.chance(0.6) ? LIGHT : ALLHOST);
  return genProgram(rng, { big: 0.02, ...o, hostKinds: hk, features: { host: rng.pick([0.3, 1, 2]), obs: 0.5, exit: 1, traps: rng.chance(0.2) ? 1 : 0, ...o.features } });
}
// adds a long (or, without n, endless) loop of one of many shapes to a program
export const SPINS = ['br', 'br_if', 'block', 'br_table', 'if', 'nest', 'call', 'store', 'global'];
export function addSpin(rng, m, n) {
  const shape = rng.pick(m.mem ? SPINS : SPINS.filter((x) => x !== 'store')), leaf = m.funcs.length, T = { tag: true, params: [], ret: [] };
  const entry = m.funcs[m.entry], where = rng.chance(0.7) ? entry : rng.pick(m.funcs.filter((f) => !f.tag));
  if (n != null && where !== entry) n = Math.ceil(n / 20); // may run again and again
  m.funcs.push({ ...T, results: [], locals: [], body: [] }, { ...T, results: [], locals: ['i32'], body: [n == null ? { k: 'spin', shape, f: leaf } : { k: 'spin', shape, f: leaf, n }] });
  where.body.splice(rng.int(where.body.length + 1), 0, { k: 'call', f: leaf + 1, a: [] });
  return shape;
}
export const pure = (m) => m.dump === false;
export function mkWorld(rng, o = {}) {
  const w = { seed: 's' + rng.u32().toString(16), files: FILES };
  // the interpreter's directory need not be the only one, nor the first
  if (rng.chance(0.15)) w.dirs = rng.pick([['/zz', '.'], ['.', '/zz'], ['/zz', '/y', '.']]);
  if (o.faults && rng.chance(o.faults)) w.faults = hostFaults(rng, o);
  return w;
}
// names other than the usual ones, with directories
export const names = (rng, m) => ({ ...(m && !m.hosts.some((h) => h.startsWith('args')) && rng.chance(0.15) ? { moved: rng.pick(['other/prog.wasm', 'prog2.wasm']) } : {}), ...(rng.chance(0.15) ? { prog: rng.pick(['bin/app.wasm', 'my prog', 'a.out', 'x/y/z/p.wasm']) } : {}), ...(rng.chance(0.15) ? { kept: rng.pick(['saves/one.bin', 'ck 1', 'checkpoint.bin.old', 'a/b/c', 'checkpoint']) } : {}) });
const ERR = ['IO', 'INTR', 'AGAIN', 'NOSPC', 'NOMEM', 'BADF', 'ACCES', 'NOENT', 'PERM', 'MFILE', 'NFILE', 'ROFS', 'DQUOT', 'CONNRESET', 'TIMEDOUT', 'PIPE', 'INVAL', 'NOSYS', 'NOTSUP', 'STALE', 'FBIG', 'SPIPE', 'NOTCAPABLE'];
export function hostFaults(rng, o = {}) {
  const f = {}, n = rng.range(1, o.maxFaults || 12), span = o.span || rng.pick([10, 40, 200]);
  for (let i = 0; i < n; i++) {
    const g = rng.int(span);
    f[g] = rng.weighted([[{ errno: E[rng.pick(ERR)] }, 5], [{ short: rng.pick([0, 1, 1, 2, 5, 20]) }, 4], [{ jump: String(rng.pick([-1, 1]) * rng.pick([1, 1e3, 1e9, 3600e9])), ...(rng.chance(0.3) ? { mono: 1 } : {}) }, 2]]);
  }
  if (rng.chance(0.15)) { const g = rng.int(span), k = rng.range(2, 20), e = rng.pick(['IO', 'NOSPC', 'AGAIN', 'INTR']); for (let i = 0; i < k; i++) f[g + i] = { errno: E[e] }; injectedBurst(f); }
  return f;
}
function injectedBurst() {}
// P polls of the uninterrupted run bound everything that follows
export const bound = (P) => 4 * P + 100000;
export const grows = (m) => /"k":"grow"/.test(JSON.stringify(m));
// memory runs short at the same moment
export const shortage = (rng, e) => ({ frac: e.frac, do: 'afail', min: rng.pick([1, 1, 64, 1000, 10000]), first: rng.int(rng.pick([3, 40, 40, 400])), count: rng.pick([1, 1, 2, 1000]) });
export const termOf = (rng, hard) => ({ n: rng.int(rng.pick([3, 12, 30])), count: rng.pick([1, 1, 2, 1000]), ...(hard && rng.chance(0.7) ? { errno: E[rng.pick(['IO', 'PIPE', 'NOSPC', 'AGAIN', 'BADF'])] } : rng.chance(0.3) ? { errno: E.INTR, count: rng.int(9) } : { short: rng.pick([1, 3, 10]) }) });
export const trig = (frac) => ({ frac, do: 'trigger', eager: true });
export const frac = (rng) => (rng.chance(0.1) ? 0 : rng.chance(0.1) ? 0.999 : Math.round(rng.f() * 1e6) / 1e6);
export const baseOf = (s) => ({ hist: s.hist, v: s.v, gout: s.gout, fs: s.fs });
// a run that ended in a way no guest can ask for
export const brokenEnd = (v) => ['range', 'efault', 'runaway', 'no-file', 'failed', 'ckpt-failed', 'crash'].includes(v.kind);
export function short(v) { const s = JSON.stringify(v); return s.length > 500 ? s.slice(0, 500) : JSON.parse(s); }
