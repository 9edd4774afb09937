// Builds the interpreter variants from /repo's working tree (nothing in /repo
// changes: all output goes to /verif/target). A content hash decides whether a
// rebuild is needed, so edits are seen whatever their timestamps are.
import { execFileSync, spawn } from 'node:child_process';
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
export const REPO = process.env.CHIWAWA_REPO || '/repo';
export const OUT = process.env.CHIWAWA_SIM_TARGET || path.join(path.dirname(path.dirname(new URL(import.meta.url).pathname)), 'target/build');
export const VARIANTS = {
  'thr-tco': { feats: 'wasmtime,tco', cfg: 'tco', atomics: true },
  'thr-legacy': { feats: 'wasmtime', cfg: 'legacy', atomics: true },
  'poll-tco': { feats: 'wasmtime,tco', cfg: 'tco' },
  'poll-legacy': { feats: 'wasmtime', cfg: 'legacy' },
  'inst-tco': { feats: 'wasmtime,tco,stats,trace', cfg: 'tco', atomics: true },
  'inst-legacy': { feats: 'wasmtime,stats,trace', cfg: 'legacy' },
};
function files(d, out = []) {
  for (const e of fs.readdirSync(d, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const p = path.join(d, e.name);
    if (e.isDirectory()) files(p, out); else out.push(p);
  }
  return out;
}
export function sourceHash() {
  const h = crypto.createHash('sha256');
  for (const p of ['src', '.cargo']) if (fs.existsSync(path.join(REPO, p))) for (const f of files(path.join(REPO, p))) { h.update(path.relative(REPO, f)); h.update(fs.readFileSync(f)); }
  for (const f of ['Cargo.toml', 'Cargo.lock', 'build.rs', 'rust-toolchain', 'rust-toolchain.toml']) { const p = path.join(REPO, f); if (fs.existsSync(p)) { h.update(f); h.update(fs.readFileSync(p)); } }
  h.update(JSON.stringify(VARIANTS));
  return h.digest('hex');
}
function one(v, hash, log) {
  const o = VARIANTS[v], dir = path.join(OUT, v), stamp = path.join(dir, 'stamp'), wasm = path.join(dir, 'wasm32-wasip1/release/chiwawa.wasm');
  if (fs.existsSync(wasm) && fs.existsSync(stamp) && fs.readFileSync(stamp, 'utf8') === hash) return Promise.resolve(wasm);
  fs.mkdirSync(dir, { recursive: true });
  fs.rmSync(stamp, { force: true });
  const fp = path.join(dir, 'wasm32-wasip1/release/.fingerprint');
  if (fs.existsSync(fp)) for (const e of fs.readdirSync(fp)) if (e.startsWith('chiwawa-')) fs.rmSync(path.join(fp, e), { recursive: true });
  const flags = ['--cfg', 'chiwawa_sim', ...(o.atomics ? ['-C', 'target-feature=+atomics'] : []), '-C', 'link-arg=--export=__stack_pointer'];
  const cmd = `. /opt/vp/env.sh; export RUSTC_BOOTSTRAP=1; unset CARGO_TARGET_DIR; cd ${REPO} && exec cargo build --bin chiwawa --target wasm32-wasip1 --release --features ${o.feats} --config .cargo/config-wasmtime-${o.cfg}.toml --config 'build.rustflags=${JSON.stringify(flags)}' --target-dir ${dir} --locked --offline`;
  return new Promise((res, rej) => {
    const c = spawn('bash', ['-c', cmd], { stdio: ['ignore', 'pipe', 'pipe'] });
    let out = ''; c.stdout.on('data', (d) => (out += d)); c.stderr.on('data', (d) => (out += d));
    c.on('close', (code) => {
      if (code !== 0) return rej(new Error('build of ' + v + ' failed\n' + out.slice(-4000)));
      fs.writeFileSync(stamp, hash); if (log) log('built ' + v); res(wasm);
    });
  });
}
export async function ensure(names, log) {
  fs.mkdirSync(OUT, { recursive: true });
  const hash = sourceHash();
  const r = {};
  await Promise.all(names.map(async (v) => { r[v] = await one(v, hash, log); }));
  return { hash, paths: r };
}
if (process.argv[1] === new URL(import.meta.url).pathname) {
  const names = process.argv.slice(2).length ? process.argv.slice(2) : Object.keys(VARIANTS);
  ensure(names, (s) => console.log(s)).then((r) => console.log(r.hash)).catch((e) => { console.error(e.message); process.exit(2); });
}
