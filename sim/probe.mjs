// Puts a report in front of every instruction of a program's functions, so that
// the reference engine says what it executes and with which locals and globals.
import { OPS, LOADS, STORES, uleb } from './wasm.mjs';
const NAMES = new Map(), SUB = new Map();
for (const [n, [code]] of Object.entries(OPS)) if (code.length === 1) NAMES.set(code[0], n); else SUB.set(code[1], n);
for (const t of [LOADS, STORES]) for (const [n, [op]] of Object.entries(t)) NAMES.set(op, n);
for (const [op, n] of [[0, 'unreachable'], [1, 'nop'], [2, 'block'], [3, 'loop'], [4, 'if'], [5, 'else'], [0x0b, 'end'], [0x0c, 'br'], [0x0d, 'br_if'], [0x0e, 'br_table'], [0x0f, 'return'], [0x10, 'call'], [0x11, 'call_indirect'], [0x1a, 'drop'], [0x1b, 'select'], [0x1c, 'select'], [0x20, 'local.get'], [0x21, 'local.set'], [0x22, 'local.tee'], [0x23, 'global.get'], [0x24, 'global.set'], [0x25, 'table.get'], [0x26, 'table.set'], [0x3f, 'memory.size'], [0x40, 'memory.grow'], [0x41, 'i32.const'], [0x42, 'i64.const'], [0x43, 'f32.const'], [0x44, 'f64.const'], [0xd0, 'ref.null'], [0xd1, 'ref.is_null']]) NAMES.set(op, n);
for (const [s, n] of [[8, 'memory.init'], [9, 'data.drop'], [10, 'memory.copy'], [11, 'memory.fill'], [17, 'table.fill']]) SUB.set(s, n);
export function instructions(c, nImp) { // [{name, at, end}] of a function's code
  const out = []; let i = 0;
  const u = () => { let r = 0, s = 0, b; do { b = c[i++]; r += (b & 0x7f) * 2 ** s; s += 7; } while (b & 0x80); return r; };
  while (i < c.length) {
    const at = i, op = c[i++]; let name = NAMES.get(op);
    if (op >= 2 && op <= 4 || op === 0x41 || op === 0x42) { while (c[i] & 0x80) i++; i++; } else if (op === 0x0e) { for (let n = u(); n >= 0; n--) u(); } else if (op === 0x10) { if (u() < nImp) name = 'call_wasi'; } else if (op === 0x11 || op >= 0x28 && op <= 0x3e) { u(); u(); } else if (op === 0x0c || op === 0x0d || op >= 0x20 && op <= 0x26) u(); else if (op === 0x1c) { for (let n = u(); n > 0; n--) i++; } else if (op === 0x3f || op === 0x40 || op === 0xd0) i++; else if (op === 0x43) i += 4; else if (op === 0x44) i += 8; else if (op === 0xfc) {
      const s = u(); name = SUB.get(s);
      for (let n = [0, 0, 0, 0, 0, 0, 0, 0, 2, 1, 2, 1, 2, 1, 2, 1, 1, 1][s]; n > 0; n--) u();
    }
    if (!name) throw new Error('instruction ' + op);
    out.push({ name, at, end: i });
  }
  return out;
}
// imp: indices of the reporting imports {at, i32, i64, f32, f64}; locals: types; sites: shared list of names
export function instrument(c, nImp, locals, imp, sites) {
  const out = [], all = instructions(c, nImp);
  if (all.length * (locals.length + 1) > 100000) throw new Error('too many values to report');
  for (const x of all) {
    if (x.name !== 'end' && x.name !== 'else') {
      locals.forEach((t, i) => { t = { n32: 'f32', n64: 'f64' }[t] || t; if (t !== 'ref') out.push(0x20, ...uleb(i), 0x10, ...uleb(imp[t])); else out.push(0x41, 0, 0x10, ...uleb(imp.ref)); });
      out.push(0x41, ...sl(sites.length), 0x10, ...uleb(imp.at)); sites.push(x.name);
    }
    for (let i = x.at; i < x.end; i++) out.push(c[i]);
  }
  return out;
}
const sl = (v) => { const o = []; for (;;) { const b = v & 0x7f; v >>= 7; if (v === 0 && !(b & 0x40)) { o.push(b); return o; } o.push(b | 0x80); } };
