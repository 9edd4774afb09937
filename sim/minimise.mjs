// Reduces a failing case: fewer processes, events and faults, then a smaller program.
import { shrinkProgram } from './shrink.mjs';
function setAt(c, path, v) { const o = structuredClone(c); let p = o; for (const k of path.slice(0, -1)) p = p[k]; p[path[path.length - 1]] = v; return o; }
// paths of every list (or map) the property lets us thin out
function lists(c, spec) {
  const out = [];
  const go = (o, ks, path) => {
    if (o == null) return;
    if (!ks.length) { if (Array.isArray(o) ? o.length : typeof o === 'object' && Object.keys(o).length) out.push(path); return; }
    if (ks[0] === '*') { for (const k of Object.keys(o)) go(o[k], ks.slice(1), [...path, k]); } else go(o[ks[0]], ks.slice(1), [...path, ks[0]]);
  };
  for (const s of spec) go(c, s.split('.'), []);
  return out;
}
const get = (c, path) => path.reduce((o, k) => (o == null ? o : o[k]), c);
export function minimise(P, c, cls, run, deadline, report) {
  let cur = c, tries = 0;
  const ok = (x) => {
    if (Date.now() > deadline) return false;
    tries++;
    let v; try { v = run(x); } catch { return false; }
    if (!v || v.cls !== cls) return false;
    report(x, v, tries);
    return true;
  };
  if (!ok(c)) return;
  const thin = () => {
    for (const path of lists(cur, P.lists || [])) {
      const l = get(cur, path); if (l == null) continue;
      if (Array.isArray(l)) {
        for (let n = Math.max(1, get(cur, path).length >> 1); n >= 1; n >>= 1) for (let i = 0; i + n <= get(cur, path).length && Date.now() < deadline; ) { const a = get(cur, path); const x = setAt(cur, path, [...a.slice(0, i), ...a.slice(i + n)]); if (ok(x)) cur = x; else i += n; }
      } else for (const k of Object.keys(l)) { const o = { ...get(cur, path) }; delete o[k]; const x = setAt(cur, path, o); if (ok(x)) cur = x; }
    }
    for (const alt of P.simpler ? P.simpler(cur) : []) if (ok(alt)) { cur = alt; }
  };
  thin();
  if (cur.m && cur.m.funcs) {
    const half = Date.now() + (deadline - Date.now()) * 0.8;
    const r = shrinkProgram(cur.m, (m) => ok({ ...cur, m }), 4000, half);
    cur = { ...cur, m: r.m };
  }
  thin();
}
