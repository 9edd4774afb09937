// Greedy structural minimiser for JSON cases: `ok(x)` says whether the
// candidate still fails the same way.
export function shrinkProgram(m, ok, budget = 3000, deadline = Infinity) {
  let cur = structuredClone(m), tries = 0, progress = true;
  const tryIt = (cand) => { if (tries >= budget || Date.now() > deadline) return false; tries++; if (ok(cand)) { cur = cand; progress = true; return true; } return false; };
  const at = (root, path) => path.reduce((o, k) => o[k], root);
  const withAt = (path, fn) => { const c = structuredClone(cur); const p = at(c, path.slice(0, -1)); fn(p, path[path.length - 1]); return c; };
  while (progress && tries < budget && Date.now() < deadline) {
    progress = false;
    // 1. drop statements, largest first; 2. hoist bodies; 3. simplify expressions
    const lists = [];
    const walk = (o, path) => {
      if (Array.isArray(o)) { if (o.length && o.every((x) => x && typeof x === 'object' && x.k) && isStmts(path)) lists.push(path); o.forEach((x, i) => walk(x, [...path, i])); }
      else if (o && typeof o === 'object') for (const k of Object.keys(o)) walk(o[k], [...path, k]);
    };
    walk(cur, []);
    for (const p of lists) {
      let arr; try { arr = at(cur, p); } catch { continue; }
      if (!Array.isArray(arr)) continue;
      for (let n = arr.length; n >= 1; n = n >> 1) for (let i = 0; i + n <= (at(cur, p) || []).length; ) { if (!tryIt(withAt(p, (o, k) => o[k].splice(i, n)))) i += n; }
    }
    // hoist nested bodies
    const nested = [];
    const walk2 = (o, path) => { if (Array.isArray(o)) o.forEach((x, i) => walk2(x, [...path, i])); else if (o && typeof o === 'object') { if (['if', 'block', 'loop', 'forn', 'ifpage'].includes(o.k)) nested.push(path); for (const k of Object.keys(o)) walk2(o[k], [...path, k]); } };
    walk2(cur, []);
    for (const p of nested) {
      let s; try { s = at(cur, p); } catch { continue; }
      if (!s || !s.k || !['if', 'block', 'loop', 'forn', 'ifpage'].includes(s.k)) continue;
      const body = s.b || s.t; if (!Array.isArray(body)) continue;
      tryIt(withAt(p, (o, k) => o.splice(k, 1, ...body)));
      if (s.k === 'if' && s.f) tryIt(withAt(p, (o, k) => { o[k].f = null; }));
    }
    // expressions -> constants / sub-expressions
    const exprs = [];
    const walk3 = (o, path) => { if (o && o.k === 'hostmix') return; if (Array.isArray(o)) o.forEach((x, i) => walk3(x, [...path, i])); else if (o && typeof o === 'object') { if (['op', 'load', 'select', 'ifx', 'blockx', 'call', 'calli', 'tee', 'lget', 'gget', 'acc', 'memsize', 'isnull'].includes(o.k) && o.a !== undefined || ['lget', 'gget', 'acc', 'memsize', 'isnull', 'tee'].includes(o.k)) exprs.push(path); for (const k of Object.keys(o)) walk3(o[k], [...path, k]); } };
    walk3(cur.funcs, ['funcs']);
    for (const p of exprs) {
      let e; try { e = at(cur, p); } catch { continue; }
      if (!e || !e.k) continue;
      const t = exprType(e);
      const cands = [];
      for (const tt of t ? [t] : ['i32', 'i64', 'f32', 'f64']) cands.push({ k: 'const', t: tt, v: tt === 'i32' ? 1 : '1' });
      for (const sub of [e.a, e.b, e.e, ...(Array.isArray(e.a) ? e.a : [])]) if (sub && sub.k && !Array.isArray(sub)) cands.push(sub);
      for (const c of cands) { if (tryIt(withAt(p, (o, k) => { o[k] = structuredClone(c); }))) break; }
    }
    // fuel and loop counts
    for (const v of [5, 20, 100, 500]) if (cur.fuel > v) { const c = structuredClone(cur); c.fuel = v; if (tryIt(c)) break; }
    for (const p of nested) { let s; try { s = at(cur, p); } catch { continue; } if (s && s.k === 'forn' && s.n > 1) for (const n of [1, 2, 3]) if (s.n > n && tryIt(withAt(p, (o, k) => { o[k].n = n; }))) break; }
    // unused globals cannot be removed without renumbering; passive data can be blanked
    if (cur.globals?.length) { const c = structuredClone(cur); c.globals.pop(); tryIt(c); }
    if (cur.datas?.length > 1) { const c = structuredClone(cur); c.datas.pop(); tryIt(c); }
    cur.funcs.forEach((f, i) => { if (f.body.length && i !== cur.entry) { const c = structuredClone(cur); c.funcs[i].body = []; tryIt(c); } });
  }
  return { m: cur, tries };
}
export function shrink(m, ok, budget, deadline) { return shrinkProgram(m, ok, budget, deadline).m; }
function isStmts(path) { const k = path[path.length - 1]; if (k === 'body' || k === 'b' || k === 'b2' || k === 'pt' || k === 'pf' || k === 'prelude') return true; return (k === 't' || k === 'f'); }
function exprType(e) { if (e.t) return e.t; if (e.k === 'op' || e.k === 'load') return e.k === 'load' || e.op.includes('.') ? resultOf(e) : null; if (e.k === 'acc') return 'i64'; if (e.k === 'memsize' || e.k === 'isnull') return 'i32'; return null; }
import { OPS, LOADS } from './wasm.mjs';
function resultOf(e) { return e.k === 'load' ? LOADS[e.op][1] : OPS[e.op][2]; }
// Greedy reduction of a list (events, faults, segments)
export function shrinkList(list, ok, deadline = Infinity) {
  let cur = list.slice();
  for (let n = Math.max(1, cur.length >> 1); n >= 1; n = n >> 1) for (let i = 0; i + n <= cur.length && Date.now() < deadline; ) { const c = [...cur.slice(0, i), ...cur.slice(i + n)]; if (ok(c)) cur = c; else i += n; }
  return cur;
}
