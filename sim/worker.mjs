// Worker: runs cases of one property; also shrinks and replays.
import { parentPort, workerData } from 'node:worker_threads';
import { Rng, hashText } from './rng.mjs';
import { resetStats, STATS, HOOKS } from './kernel.mjs';
import { minimise } from './minimise.mjs';

const { prop, tier, seed, mods, paths, sab, slot, last } = workerData;
const P = (await import(`./props/${prop}.mjs`)).default;
const ctx = { mods, paths, tier };
const heart = new Int32Array(sab); // [next, stop, (case, started seconds) per worker]
const beat = (i) => { heart[2 + slot * 3] = i; heart[4 + slot * 3] = 0; heart[3 + slot * 3] = Math.floor(Date.now() / 1000) & 0x7fffffff; };
HOOKS.phase = (p) => { heart[4 + slot * 3] = p; };

export function runCase(c) {
  resetStats();
  const r = P.run(c, ctx) || {};
  const sig = hashText(STATS.sig.join('\n'));
  return { v: r.v || null, nt: r.nt !== false, sig, st: { procs: STATS.procs, polls: STATS.polls, vtime: STATS.vtime, calls: STATS.calls, faults: STATS.faults, ckpts: STATS.ckpts, restores: STATS.restores, extra: r.extra || {} }, sample: r.sample };
}
export const makeCase = (i) => P.gen(new Rng(`${seed}/${prop}/${i}`), i, tier);

parentPort.on('message', (msg) => {
  try {
    if (msg.do === 'go') {
      for (;;) {
        if (Atomics.load(heart, 1)) break;
        const i = Atomics.add(heart, 0, 1);
        if (i >= last) break;
        beat(i);
        const c = makeCase(i);
        const r = runCase(c);
        let twice = null;
        if (i % 64 === 5) { const r2 = runCase(c); twice = r2.sig === r.sig && JSON.stringify(r2.v) === JSON.stringify(r.v); }
        parentPort.postMessage({ i, r, twice });
        if (r.v) break;
      }
      beat(-1);
      parentPort.postMessage({ done: 1 });
    } else if (msg.do === 'case') {
      beat(msg.i ?? 0);
      const c = msg.c || makeCase(msg.i);
      parentPort.postMessage({ c, r: runCase(c) });
    } else if (msg.do === 'shrink') {
      const c = makeCase(msg.i);
      minimise(P, c, msg.cls, (x) => runCase(x).v, Date.now() + msg.ms, (best, v, tries) => parentPort.postMessage({ best, v, tries }));
      parentPort.postMessage({ shrunk: 1 });
    }
  } catch (e) { parentPort.postMessage({ error: e.stack || String(e) }); }
});
