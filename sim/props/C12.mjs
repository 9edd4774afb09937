// Arguments, environment, entry point and parameters reach the guest exactly
// as given, before and after a restore.
import { genProgram } from '../gen.mjs';
import { mkWorld, names, trig, frac, bound, THR, POLL } from '../lib.mjs';
import { reference, solo, chain, differ } from '../exec.mjs';
const word = (rng) => { const A = rng.pick(['abcXYZ019', 'a-=/.:,_%$!~+', 'aé√b漢', 'a b  c', 'a\tb\n\r\u00a0\u3000', "it's;|&<>()[]{}*?\\"]); let s = ''; const n = rng.pick([1, 2, 5, 9, 40, 130]); const cs = [...A]; for (let i = 0; i < n; i++) s += rng.pick(cs); s = s.trim().replace(/"/g, ''); return s || 'x'; };
const F = ['0.5', '-0', '0', '1e10', '-3.25', '3.4028235e38', '1e-45', '16777217', '0.1', 'inf', '-inf', 'NaN', '123456.789', '1.5e-7'];
// decimals that are not the nearest single when rounded to a double first
const TWICE = { '1.000000059604644775390625000001': 1 + 2 ** -23, '-16777217.0000000000001': -16777218, '8388608.5000000000000001': 8388609, '1.00000017881393432617187499999999': 1 + 2 ** -23 };
const PARAM = {
  i32: (rng) => String(rng.pick([0, 1, -1, 7, 2147483647, -2147483648, rng.u32() | 0, rng.u32() | 0])),
  i64: (rng) => String(rng.pick([0n, -1n, 9223372036854775807n, -9223372036854775808n, 123456789012n, 9007199254740993n, BigInt.asIntN(64, rng.u64()), BigInt.asIntN(64, rng.u64()), BigInt(rng.u32())])),
  f32: (rng) => rng.pick([...F, ...Object.keys(TWICE), String(rng.int(1 << 24) / 64)]),
  f64: (rng) => rng.pick([...F, '1.7976931348623157e308', '5e-324', '9007199254740993', '3.141592653589793', String(rng.f()), String(rng.f() * 1e12)]),
};
const num = (v) => (/inf/.test(v) ? (v[0] === '-' ? -Infinity : Infinity) : Number(v));
const js = ([t, v]) => (t === 'i64' ? BigInt(v) : t === 'f32' && v in TWICE ? TWICE[v] : t[0] === 'f' ? num(v) : Number(v));
// a reported float is compared as the value it stands for
const canon = (t, v) => { if (v == null || t[0] !== 'f') return v; const x = num(String(v).replace('Infinity', 'inf')); return Object.is(x, -0) ? '-0' : String(t === 'f32' ? Math.fround(x) : x); };
export default {
  id: 'C12', level: 'exploration', variants: [...THR, ...POLL],
  lists: ['appArgs', 'env', 'chain'],
  gen(rng) {
    const variant = rng.pick([...THR, ...POLL]);
    if (rng.chance(0.35)) {
      const fl = rng.chance(0.6) ? 1 : 0;
      const m = genProgram(rng, { fuels: [30, 200, 2000], features: { floats: fl, table: 0, refs: 0, calls: 1, host: 0, traps: 0, multi: 0 }, swarm: false });
      m.dump = false; m.hosts = []; m.result = false; m.exitCode = undefined; delete m.prelude;
      m.exports = m.funcs.map((f, i) => ({ name: rng.pick(['main', 'run', 'f', '_start', 'ma']) + i, func: i }));
      const fi = rng.int(m.funcs.length), fn = m.funcs[fi];
      const params = fn.params.map((t) => [t, PARAM[t](rng)]);
      if (params.length && fn.results.length && rng.chance(0.4)) { const k = params.findIndex((p) => p[0] === fn.results[0]); if (k >= 0) fn.ret = [{ k: 'lget', i: k }]; } // tells what arrived
      const wrong = rng.chance(0.06) ? rng.pick(['nosuch', 'memory', '']) : undefined;
      return { m, world: mkWorld(rng), variant, ...names(rng), invoke: fi, params, ...(wrong != null ? { wrong, chain: [] } : { chain: rng.chance(0.5) ? [trig(frac(rng))] : [] }) };
    }
    const m = genProgram(rng, { stmts: 20, fuels: [10, 60, 300], hostKinds: ['args', 'args', 'yield'], features: { floats: 0, table: 0, calli: 0, refs: 0, bulk: 0, host: 9, obs: 2, exit: 1, traps: 0 } });
    const appArgs = [], env = [], big = rng.chance(0.12), many = rng.chance(0.1); let room = big ? 16000 : 1400;
    const w = () => (big && rng.chance(0.3) ? word(rng).repeat(rng.pick([3, 10, 40])) : many ? word(rng).slice(0, 3).trim() || 'm' : word(rng));
    for (let i = many ? rng.range(40, 150) : rng.int(12); i > 0; i--) { const s = rng.chance(0.06) ? '' : w(); if ((room -= Buffer.byteLength(s) + 8) > 0) appArgs.push(s); }
    room = big ? 16000 : 1400; for (let i = many ? rng.range(40, 150) : rng.int(10); i > 0; i--) { const s = 'K' + i + '=' + (rng.chance(0.15) ? '' : rng.chance(0.1) ? rng.pick(['\udcff\udc80x', 'a\udcc3', '\udcf0\udc9fé\udc98']) : w()); if ((room -= Buffer.byteLength(s) + 8) > 0) env.push(s); }
    return { m, world: mkWorld(rng), variant, ...names(rng), appArgs, env, ...(rng.chance(0.3) ? { quoting: rng.pick(['all', 'inner', 'split']) } : {}), chain: Array.from({ length: rng.int(4) }, () => trig(frac(rng))) };
  },
  run(c, ctx) {
    const inv = c.invoke != null;
    const o = inv ? { entry: c.m.exports[c.invoke].name, params: c.params.map(js) } : {};
    if (c.wrong != null) { // no such entry: nothing runs, and that is said
      const s = solo(c, ctx, { variant: c.variant, flags: ['--invoke', c.wrong], env: c.env });
      return s.x.guestCalls || s.x.polls > 0 || s.gout || !(s.x.end.kind === 'trap' || (s.x.end.kind === 'exit' && s.x.end.code)) ? { v: { cls: 'wrong-entry-ran', entry: c.wrong, ended: s.x.end, polls: s.x.polls } } : {};
    }
    const cc = { ...c, entry: o.entry, params: o.params };
    const r = reference(cc, { env: c.env, params: o.params });
    if (r.v.kind === 'runaway') return { nt: false };
    const flags = inv ? ['--invoke', o.entry, ...(c.params.length ? ['--params=' + c.params.map(([t, v]) => `${t.toUpperCase()}(${v})`).join(',')] : [])] : [];
    const rt = inv ? c.m.funcs[c.invoke].results[0] || '' : '', fix = (x) => { if (inv && x.v.value != null) x.v.value = canon(rt, Object.is(x.v.value, -0) ? '-0' : String(x.v.value)); return x; };
    fix(r);
    const s = solo(cc, ctx, { variant: c.variant, flags, env: c.env, maxPolls: 2e7 });
    const d = differ(r, fix(s));
    if (d) return { v: { cls: d.cls, mode: inv ? 'invoke' : 'args', ...d, says: s.x.err.slice(0, 200) } };
    if (c.chain.length) {
      const g = chain(cc, ctx, { P: s.polls, segs: c.chain.map((e) => ({ variant: c.variant, events: [e], env: c.env, flags })), tail: { variant: c.variant, env: c.env, flags: [] }, maxPolls: bound(s.polls) });
      const d2 = differ(r, fix(g));
      if (d2) return { v: { cls: 'restored:' + d2.cls, mode: inv ? 'invoke' : 'args', ...d2, says: g.x.err.slice(0, 200) } };
    }
    return { nt: inv ? c.params.length > 0 : (c.appArgs.length + c.env.length) > 0, sample: inv ? { invoke: o.entry, params: c.params } : { appArgs: c.appArgs, env: c.env } };
  },
};
