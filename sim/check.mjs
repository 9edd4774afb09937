// node --expose-gc sim/check.mjs <property> [--tier quick|thorough] [--seconds S] [--cases N] [--from I] [--workers W]
// node --expose-gc sim/check.mjs <property> --replay FILE
import { Worker } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { ensure, sourceHash } from './build.mjs';

const here = path.dirname(new URL(import.meta.url).pathname), root = path.dirname(here);
const argv = process.argv.slice(2), prop = argv[0];
const opt = (n, d) => { const i = argv.indexOf('--' + n); return i < 0 ? d : argv[i + 1]; };
const tier = opt('tier', process.env.VERIF_TIER || 'quick'), seed = Number(process.env.VERIF_SEED || 1);
const P = (await import(`./props/${prop}.mjs`)).default;
const t0 = Date.now();
const W = Number(opt('workers', 8));
const seconds = Number(opt('seconds', P.seconds?.[tier] ?? (tier === 'quick' ? 45 : 600)));
const cases = Number(opt('cases', P.cases?.[tier] ?? 1e9)), from = Number(opt('from', 0));
const HANG = 90;

let built;
try { built = await ensure(P.variants); } catch (e) { console.error(e.message); process.exit(2); }
const mods = {};
for (const v of P.variants) mods[v] = new WebAssembly.Module(fs.readFileSync(built.paths[v]));
const sab = new SharedArrayBuffer(4 * (2 + 3 * 64));
const heart = new Int32Array(sab);
heart[0] = from;
const spawn = (slot) => new Worker(new URL('./worker.mjs', import.meta.url), { workerData: { prop, tier, seed, mods, paths: built.paths, sab, slot, last: from + cases }, resourceLimits: { maxOldGenerationSizeMb: 1536, stackSizeMb: 8 } });
// one request to a fresh worker, bounded in time
function ask(msg, ms, onMsg) {
  return new Promise((res) => {
    const w = spawn(60); let out = null;
    const t = setTimeout(() => { w.terminate(); res(out || (heart[4 + 60 * 3] ? { error: 'the reference engine does not come to an end' } : { hang: true })); }, ms);
    w.on('message', (m) => { if (onMsg && onMsg(m)) { out = m; return; } if (m.shrunk) m = out || m; clearTimeout(t); w.terminate(); res(m); });
    w.on('error', (e) => { clearTimeout(t); res({ error: e.stack || String(e) }); });
    w.postMessage(msg);
  });
}
const same = (a, b) => JSON.stringify(a) === JSON.stringify(b);

if (opt('replay')) {
  const f = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
  const a = await ask({ do: 'case', c: f.case }, HANG * 1000);
  if (a.error) { console.error(a.error); process.exit(2); }
  const v = a.hang ? { cls: 'hang' } : a.r.v;
  if (!v) { console.log(`no violation: property ${prop} holds in this execution`); process.exit(0); }
  console.log(JSON.stringify(v, null, 1));
  console.log(same(v, f.violation) ? 'reproduced exactly' : 'reproduced with different details (the code has changed since the file was written)');
  console.log(`VIOLATION property=${prop} replay=${opt('replay')}`);
  process.exit(1);
}

// ------------------------------------------------------------------ search
const tot = { cases: 0, nt: 0, procs: 0, polls: 0, vtime: 0, calls: 0, ckpts: 0, restores: 0, faults: {}, extra: {}, twice: 0, twiceBad: 0 };
const sigs = new Set(), samples = [];
let bad = null, errors = [], slow = null;
const add = (o, x) => { for (const [k, n] of Object.entries(x)) o[k] = (o[k] || 0) + n; };
const stop = () => Atomics.store(heart, 1, 1);
const tSearch = Date.now();
const timer = setTimeout(stop, seconds * 1000);
const stuck = []; // cases that did not come to an end in time; looked at again afterwards, alone
await Promise.all(Array.from({ length: W }, (_, slot) => new Promise((res) => {
  let w = null, over = false, seen = '', ticks = 0;
  const fin = () => { if (over) return; over = true; clearInterval(dog); w.terminate(); res(); };
  // time is counted in turns of this timer, so that a machine that stood still is not taken for a case that did
  const dog = setInterval(() => {
    const i = heart[2 + slot * 3], now = i + ' ' + heart[3 + slot * 3];
    if (now !== seen) { seen = now; ticks = 0; }
    if (i >= 0 && heart[3 + slot * 3] && ++ticks > HANG) {
      if (heart[4 + slot * 3]) slow = i; // the reference engine is still at it: the program itself is too long
      else stuck.push(i);
      w.terminate(); heart[2 + slot * 3] = -1;
      if (heart[1] || stuck.length > 2) { stop(); fin(); } else start();
    }
  }, 1000);
  function start() { w = spawn(slot);
  w.on('message', (m) => {
    if (m.error) { errors.push(m.error); stop(); return fin(); }
    if (m.done) return fin();
    const { i, r } = m;
    if (r.v) { if (!bad || i < bad.i) bad = { i, v: r.v }; stop(); }
    tot.cases++; if (r.nt) { tot.nt++; sigs.add(r.sig); }
    if (m.twice != null) { tot.twice++; if (!m.twice) tot.twiceBad++; }
    const s = r.st; for (const k of ['procs', 'polls', 'vtime', 'calls', 'ckpts', 'restores']) tot[k] += s[k];
    add(tot.faults, s.faults); add(tot.extra, s.extra);
    if (r.sample && samples.length < 12 && r.nt) samples.push({ case: i, ...r.sample });
  });
  w.on('error', (e) => { errors.push(e.stack || String(e)); stop(); fin(); });
  w.postMessage({ do: 'go' }); }
  start();
})));
if (!bad && stuck.length) bad = { i: Math.min(...stuck), v: { cls: 'hang' } };
clearTimeout(timer);
const searchS = (Date.now() - tSearch) / 1000;

// -------------------------------------------------------------- known findings
const known = fs.existsSync(path.join(root, 'known-findings.txt')) ? fs.readFileSync(path.join(root, 'known-findings.txt'), 'utf8').split('\n').filter((l) => l.startsWith('known: property=' + prop + ' ')) : [];
for (const l of known) console.log('KNOWN-FINDING: property=' + prop + ' ' + l.replace(/^known: property=\S+ /, ''));

let replay = null, code = 0, violations = 0;
if (bad) {
  const cls = bad.v.cls;
  let best = null, v = bad.v, tries = 0;
  if (cls === 'hang') { // confirm alone, with room to spare
    for (const i of stuck.sort((x, y) => x - y)) {
      const a = await ask({ do: 'case', i }, 150000);
      bad = { i, v: { cls } }; best = a.c;
      if (a.hang) break;
      if (a.r?.v) { v = a.r.v; break; }
      if (a.error && !/^the reference engine/.test(a.error)) errors.push(a.error);
      console.log('case ' + i + ' was slow, but finished'); slow = i; bad = null;
    }
  } else {
    await ask({ do: 'shrink', i: bad.i, cls, ms: 60000 }, 100000, (m) => { if (m.best) { best = m.best; v = m.v; tries = m.tries; return true; } });
  }
  if (bad) {
    if (!best) { const a = await ask({ do: 'gen', i: bad.i }, 1000); best = a.c || null; }
    if (!best) { const { Rng } = await import('./rng.mjs'); best = P.gen(new Rng(`${seed}/${prop}/${bad.i}`), bad.i, tier); }
    violations = 1;
    const dir = path.join(root, 'target/replays'); fs.mkdirSync(dir, { recursive: true });
    replay = path.join(dir, `${prop}-${seed}-${bad.i}.json`);
    fs.writeFileSync(replay, JSON.stringify({ property: prop, seed, case_index: bad.i, tier, source: built.hash, shrink_runs: tries, violation: v, case: best }, null, 1));
    if (cls !== 'hang') { // a fresh process of the simulator must see exactly the same
      const a = await ask({ do: 'case', c: best }, HANG * 1000);
      console.log(a.r && same(a.r.v, v) ? 'replay confirmed' : 'replay differs: ' + JSON.stringify(a.r ? a.r.v : a).slice(0, 400));
    }
    console.log(JSON.stringify(v).slice(0, 1200));
    console.log(`VIOLATION property=${prop} replay=${replay}`);
    code = 1;
  }
}
if (errors.length && !violations) { console.error('harness error: ' + errors[0]); code = 2; }
const wall = (Date.now() - t0) / 1000;
const ev = {
  property: prop, tier, seed, level: P.level,
  coverage: {
    evaluations: tot.cases, distinct_nontrivial: sigs.size,
    rule: P.rule || 'a case counts as non-trivial when its schedule or fault actually took effect; two cases are the same when all their processes have the same variant, schedule trace, fired faults, poll and host-call positions and outcome',
    samples: samples.slice(0, 8),
    simulated_runs: tot.procs, runs_per_hour: Math.round((tot.procs / searchS) * 3600), seeds_per_hour: Math.round((tot.cases / searchS) * 3600),
    simulated_guest_seconds: Math.round(tot.vtime) / 1000, simulated_instruction_polls: tot.polls, host_calls: tot.calls, checkpoints: tot.ckpts, restores: tot.restores,
    faults_injected: tot.faults, ...tot.extra,
    determinism_rechecks: tot.twice, determinism_mismatches: tot.twiceBad,
    components: { real: 'the whole interpreter (src/main.rs and the library: parser, dispatcher, handlers, migration, WASI pass-through), built from the working tree for ' + P.variants.join(', '), simulated: 'WASI host (files, clocks, sockets, randomness, durability), thread scheduling of the checkpoint monitor, process crashes', stub: 'none inside the interpreter' },
    workers: W, search_s: searchS, ...(slow != null ? { slow_case: slow } : {}), source: built.hash.slice(0, 16), ...(replay ? { replay } : {}),
  },
  assumptions: P.assumptions || [], wall_s: wall, violations,
};
fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
fs.writeFileSync(path.join(root, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1));
console.log(`${prop} ${tier}: ${tot.cases} cases, ${tot.procs} processes, ${sigs.size} distinct, ${tot.ckpts} checkpoints, ${searchS.toFixed(1)} s search, faults ${JSON.stringify(tot.faults)}${tot.twiceBad ? ' DETERMINISM MISMATCHES ' + tot.twiceBad : ''} ${JSON.stringify(tot.extra)}`);
process.exit(code);
