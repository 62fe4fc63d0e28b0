// Records calls of the evaluation engine for validation by EvaluationTrace.tla
import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal } from '../lib/env.mjs';
import { isDeepStrictEqual as eq } from 'node:util';

const codes = (s) => Array.from({ length: s.length }, (_, i) => s.charCodeAt(i));
const jsonList = (s) => { try { const v = JSON.parse(s); return Array.isArray(v) ? v : undefined; } catch { return undefined; } };
export const enc = (v, deep = true) => {
  if (v === undefined || v === null) return { t: 'x' };
  if (typeof v === 'string') { const j = deep ? jsonList(v) : undefined; return { t: 's', c: codes(v), ...(j ? { j: j.map((x) => enc(x, false)) } : {}) }; }
  if (typeof v === 'number') return { t: 'n', c: codes(String(v)) };
  if (typeof v === 'boolean') return { t: 'b', c: codes(String(v)) };
  if (Array.isArray(v)) return { t: 'l', c: codes(JSON.stringify(v)), v: v.map((x) => enc(x, false)) };
  return { t: 'o', c: codes(JSON.stringify(v)), f: Object.fromEntries(Object.entries(v).map(([k, x]) => [k, enc(x)])) };
};
export const rand = (seed) => {
  let x = (seed * 2654435761 + 12345) >>> 0 || 1;
  const r = () => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x / 4294967296; };
  for (let i = 0; i < 8; i++) r();
  return { f: r, int: (n) => Math.floor(r() * n), pick: (a) => a[Math.floor(r() * a.length)], chance: (p) => r() < p,
    some: (a, n) => Array.from({ length: n }, () => a[Math.floor(r() * a.length)]),
    shuffle: (a) => { const b = [...a]; for (let i = b.length - 1; i > 0; i--) { const j = Math.floor(r() * (i + 1)); [b[i], b[j]] = [b[j], b[i]]; } return b; } };
};
// generator's own hash, used only to aim range edges at the interesting places
export const murmur = (s) => {
  const d = Buffer.from(s, 'utf8'); let h = 0; const n = d.length >> 2;
  const sc = (k) => { k = Math.imul(k, 0xcc9e2d51); k = (k << 15) | (k >>> 17); return Math.imul(k, 0x1b873593); };
  for (let i = 0; i < n; i++) { h ^= sc(d.readInt32LE(i * 4)); h = (h << 13) | (h >>> 19); h = (Math.imul(h, 5) + 0xe6546b64) | 0; }
  let k = 0; for (let j = d.length - 1; j >= n * 4; j--) k = (k << 8) | d[j];
  if (d.length & 3) h ^= sc(k);
  h ^= d.length; h ^= h >>> 16; h = Math.imul(h, 0x85ebca6b); h ^= h >>> 13; h = Math.imul(h, 0xc2b2ae35); h ^= h >>> 16;
  return h >>> 0;
};

const OPS = ['is', 'is not', 'contains', 'does not contain', 'less', 'less or equal', 'greater', 'greater or equal', 'version less', 'version less or equal',
  'version greater', 'version greater or equal', 'set is', 'set is not', 'set contains', 'set does not contain', 'set contains any', 'set does not contain any',
  'regex match', 'regex does not match', 'no such operator'];
const TEXTS = ['', 'a', 'A', 'b', 'ab', 'abc', 'ABC', 'Abc', 'xabcx', 'B', 'true', 'TRUE', 'True', 'false', 'False', 'trueish', '(none)', 'none', '0', '1', '9', '10', '9.5', '-1', '+3', '007', '1.0', '1.5',
  '.5', '5.', '-', '10abc', '2.9', '2.10', '2.10.3', '2.9.0', '2.9.0-alpha', '2.9.0-beta.1', '2.9.0-beta.', '2.9.0-', '2.9.0-a..b', '1.2.3.4', 'v1.2', '02.09', '10.0.0', '[', '[x', '[1,2]', '["a","b"]', '["A","true"]', '[]', '[""]',
  '[null,1]', '[["a"],"b"]', ' ["a"]', '{"a":1}', 'é', 'É', '日本', '本', '😀x', '😀', 'ａ'];
const VALUES = [...TEXTS, undefined, null, 0, 1, 9, 10, -2.5, 1.5, true, false, [], ['a'], ['a', 'b'], ['b', 'a', 'a'], ['b', 'c'], ['true'], ['True', 'x'], ['FALSE'], [1, 2], [9], [true, 'b'], [null, ''], [null, 'a'], [['a'], 'b'], ['2.9.0', '3.0'],
  ['(none)'], { a: 1 }, {}, { a: ['b'] }];
const RX = [{ k: 'prefix', x: 'a' }, { k: 'suffix', x: 'c' }, { k: 'exact', x: 'abc' }, { k: 'has', x: 'b' }, { k: 'has', x: 'B' }, { k: 'either', x: '1', y: 'b' }, { k: 'digits', x: '' }, { k: 'any', x: '' }, { k: 'has', x: '.' }, { k: 'has', x: '[' }, { k: 'exact', x: '😀' }];
const esc = (s) => s.replace(/[.*+?^${}()|[\]\\]/g, '\\$&');
const rxText = (r) => ({ prefix: `^${esc(r.x)}`, suffix: `${esc(r.x)}$`, exact: `^${esc(r.x)}$`, has: esc(r.x), either: `${esc(r.x)}|${esc(r.y ?? '')}`, digits: '^\\d+$', any: '.*' })[r.k];
const rxEnc = (r) => ({ k: r.k, x: codes(r.x), y: codes(r.y ?? '') });
const isRx = (op) => op.startsWith('regex');

const attempt = (f) => { try { return f(); } catch (e) { return `threw ${e?.message ?? e}`; } };
const batch = (events, n) => { const out = []; for (let i = 0; i < events.length; i += n) out.push({ events: events.slice(i, i + n) }); return out; };

async function engine() {
  const load = compile(await bundle("export * from '@amplitude/experiment-core';"));
  return load(makeGlobal());
}

function matchEvents(M, R, tier) {
  const E = new M.EvaluationEngine();
  const ev = [];
  const run = (op, fs, rx, vals) => {
    const values = isRx(op) ? rx.map(rxText) : fs;
    const got = vals.map((v, i) => {
      // alternately through a bare condition and through a whole flag
      if (i % 3) return attempt(() => E.evaluateConditions({ context: { v }, result: {} }, [[{ selector: ['context', 'v'], op, values }]]));
      return attempt(() => 'f' in E.evaluate({ v }, [{ key: 'f', variants: { on: { key: 'on' } }, segments: [{ conditions: [[{ selector: ['context', 'v'], op, values }]], variant: 'on' }] }]));
    });
    ev.push({ k: 'match', op, fs: fs.map(codes), rx: rx.map(rxEnc), vs: vals.map((v) => enc(v)), got });
  };
  // every operator with every value and every single filter value
  for (const op of OPS) {
    if (isRx(op)) { for (const r of RX) run(op, [], [r], VALUES); run(op, [], [], VALUES); run(op, [], [RX[0], RX[6]], VALUES); continue; }
    for (const f of TEXTS) run(op, [f], [], VALUES);
    run(op, [], [], VALUES);
    for (const fs of [['a', 'b'], ['b', 'a', 'c'], ['a', 'a'], ['a', 'true'], ['FALSE', 'b'], ['(none)', 'a'], ['9', 'zz'], ['2.9', '2.10.0', 'x'], ['1', '2'], ['b', ''], ['', '']]) run(op, fs, [], VALUES);
  }
  const letters = ['a', 'C', '1', '0', '.', '-', 'é', 'É', 't', '_'];
  const word = () => (R.chance(0.5) ? R.pick(TEXTS) : R.some(letters, 1 + R.int(5)).join('').replace(/^\s+$/, 'a'));
  const value = () => (R.chance(0.3) ? R.pick(VALUES) : R.chance(0.3) ? Array.from({ length: R.int(4) }, word) : word());
  // an exponent or blank is out of scope of the numbers specified
  for (let i = 0; i < (tier === 'thorough' ? 30000 : 6000); i++) {
    const op = R.pick(OPS);
    run(op, Array.from({ length: R.int(4) }, word), isRx(op) ? R.some(RX, 1 + R.int(2)) : [], Array.from({ length: 8 }, value));
  }
  return ev;
}

const CTXS = (R) => {
  const v = () => R.pick(['a', 'b', 'A', 'true', 'x1', '10', 9, true, false, null, undefined, ['a', 'b'], ['b'], '["a"]', { z: 'a' }, '2.9.0', '']);
  const user = { user_id: R.pick(['u1', 'u2', 'ü', '', null, 7]), device_id: R.pick(['d1', undefined]), p: v(), user_properties: { p: v(), q: v(), deep: { er: v() } } };
  return { user, ...(R.chance(0.5) ? { groups: { org: { group_name: R.pick(['acme', 'b']), group_properties: { plan: v() } } } } : {}) };
};
const SEL = [['context', 'user', 'user_id'], ['context', 'user', 'device_id'], ['context', 'user', 'p'], ['context', 'user', 'user_properties', 'p'], ['context', 'user', 'user_properties', 'q'],
  ['context', 'user', 'user_properties', 'deep', 'er'], ['context', 'user', 'user_properties', 'deep'], ['context', 'groups', 'org', 'group_name'], ['context', 'groups', 'org', 'group_properties', 'plan'], ['context', 'user', 'nothing', 'there'], ['context', 'user', 'user_id', 'deeper'], [], ['nowhere']];
function genFlags(R, n) {
  const keys = Array.from({ length: n }, (_, i) => `f${i + 1}`);
  const md = () => Object.fromEntries(['m', 'segmentName', 'default', 'n'].filter(() => R.chance(0.35)).map((k) => [k, R.pick(['x', 'y', 'z', true, 3, ['q']])]));
  return keys.map((key) => {
    const vk = ['on', 'off', 'c'].slice(0, 1 + R.int(3));
    const variants = Object.fromEntries(vk.map((k) => [k, { key: R.chance(0.9) ? k : undefined, value: R.pick([k, `${k}!`, 5, undefined]), payload: R.pick([undefined, { a: key }]), metadata: R.chance(0.5) ? md() : undefined }]));
    const anyV = () => R.pick([...vk, ...vk, 'missing']);
    const rsel = () => [['result', R.pick(keys), 'key'], ['result', R.pick(keys), 'value'], ['result', R.pick(keys), 'metadata', R.pick(['m', 'n', 'segmentName'])]][R.int(3)];
    const cond = () => {
      const op = R.pick(['is', 'is not', 'contains', 'less', 'version greater', 'set contains', 'set does not contain any', 'set is', 'is', 'is']);
      const selector = R.chance(0.35) ? rsel() : R.pick(SEL);
      return { selector, op, values: R.some(['a', 'b', 'on', 'off', 'c', 'true', '(none)', 'x', 'u1', '9', '2.9.0'], 1 + R.int(2)) };
    };
    const dist = () => { const cut = R.int(42949673); return R.shuffle([{ variant: anyV(), range: [0, cut] }, { variant: anyV(), range: [cut, 42949673] }]).slice(0, 1 + R.int(2)); };
    const bucket = () => { const a = R.int(101); return { selector: R.pick(SEL.slice(0, 5)), salt: R.pick(['s', 'salt-1', 'é', '']), allocations: R.shuffle([{ range: [0, a], distributions: dist() }, { range: [R.pick([a, 0]), 100], distributions: dist() }]).slice(0, 1 + R.int(2)) }; };
    const segments = Array.from({ length: R.int(4) }, () => ({
      ...(R.chance(0.75) ? { conditions: Array.from({ length: R.int(3) }, () => Array.from({ length: R.int(3) }, cond)) } : {}),
      ...(R.chance(0.4) ? { bucket: bucket() } : {}), ...(R.chance(0.8) ? { variant: anyV() } : {}), ...(R.chance(0.5) ? { metadata: md() } : {}),
    }));
    return { key, variants, segments, ...(R.chance(0.6) ? { metadata: md() } : {}) };
  });
}
const encMd = (m) => Object.fromEntries(Object.entries(m ?? {}).map(([k, v]) => [k, enc(v)]));
const encFlag = (f) => ({
  key: f.key, md: encMd(f.metadata),
  variants: Object.fromEntries(Object.entries(f.variants).map(([k, v]) => [k, { md: encMd(v.metadata), f: Object.fromEntries(['key', 'value', 'payload'].filter((x) => v[x] !== undefined).map((x) => [x, enc(v[x])])) }])),
  segments: f.segments.map((g) => ({
    hasConds: !!g.conditions, conds: (g.conditions ?? []).map((inner) => inner.map((c) => ({ sel: c.selector, op: c.op, fs: c.values.map(codes), rx: [] }))),
    hasBucket: !!g.bucket, variant: g.variant ?? '~', md: encMd(g.metadata),
    bucket: g.bucket ? { sel: g.bucket.selector, salt: codes(g.bucket.salt), allocs: g.bucket.allocations.map((a) => ({ range: a.range, dists: a.distributions.map((d) => ({ variant: d.variant, range: d.range })) })) } : { sel: [], salt: [], allocs: [] },
  })),
});
const bare = (v) => { const { metadata, ...r } = v; return Object.fromEntries(Object.entries(r).filter(([, x]) => x !== undefined)); };
const outcome = (f, r) => {
  if (!r) return { has: false };
  const name = Object.keys(f.variants).find((k) => eq(bare(f.variants[k]), bare(r)) && nameFits(f, k, r));
  return { has: true, variant: name ?? '?', md: encMd(r.metadata) };
};
// variants that look alike are told apart by nothing: prefer the exact key
const nameFits = () => true;
function evalEvents(M, R, tier) {
  const E = new M.EvaluationEngine();
  const ev = [];
  for (let i = 0; i < (tier === 'thorough' ? 40000 : 12000); i++) {
    const flags = R.shuffle(genFlags(R, 1 + R.int(4)));
    // payloads make the variants of a flag distinguishable
    flags.forEach((f) => Object.entries(f.variants).forEach(([k, v]) => { v.payload = { of: `${f.key}.${k}` }; }));
    const ctx = CTXS(R);
    const before = structuredClone({ flags, ctx });
    const got = attempt(() => {
      const r = E.evaluate(ctx, flags);
      const again = new M.EvaluationEngine().evaluate(ctx, flags);
      const t = E.evaluateWithTraces(ctx, flags);
      return {
        results: flags.map((f) => outcome(f, r[f.key])),
        steps: flags.map((f) => t.traces[f.key].steps.map((s) => ({ conds: s.conditionsPassed, variant: s.bucketVariant ?? '~' }))),
        traced: eq(t.results, r) && flags.every((f) => t.traces[f.key].matched === f.key in r) && Object.keys(r).every((k) => flags.some((f) => f.key === k)),
        again: eq(r, again), untouched: eq(before, { flags, ctx }),
      };
    });
    ev.push({ k: 'eval', ctx: enc(ctx), flags: flags.map(encFlag), got });
  }
  return ev;
}
const traceOf = (f, t) => ({
  key: t.flagKey, matched: t.matched, segment: t.matched ? enc(t.matchedSegment) : enc(undefined),
  steps: t.steps.map((s, j) => {
    const g = f.segments[j];
    return { has: !!s.conditionResult, passed: s.conditionsPassed, bucketed: s.bucketed, matched: s.matched, variant: s.bucketVariant ?? '~', md: encMd(s.segmentMetadata),
      conds: (s.conditionResult ?? []).map((l, k) => l.map((c, m) => ({ own: c.condition === g.conditions[k][m], held: c.matched, value: enc(c.propValue) }))) };
  }),
});
function traceEvents(M, R, tier) {
  const E = new M.EvaluationEngine();
  const ev = [];
  for (let i = 0; i < (tier === 'thorough' ? 20000 : 5000); i++) {
    const flags = R.shuffle(genFlags(R, 1 + R.int(4)));
    const ctx = CTXS(R);
    const before = structuredClone({ flags, ctx });
    const got = attempt(() => {
      const r = E.evaluate(ctx, flags), t = E.evaluateWithTraces(ctx, flags);
      return { traces: flags.map((f) => traceOf(f, t.traces[f.key])), only: eq(Object.keys(t.traces).sort(), flags.map((f) => f.key).sort()), same: eq(t.results, r), untouched: eq(before, { flags, ctx }) };
    });
    ev.push({ k: 'trace', ctx: enc(ctx), flags: flags.map(encFlag), got });
  }
  return ev;
}
function bucketEvents(M, R, tier) {
  const E = new M.EvaluationEngine();
  const ev = [];
  const chars = [...'abcXYZ019-_.~ ', 'é', 'ß', 'ÿ', 'Ā', '߿', 'ࠀ', '日', '\uffff', '😀', '𐀀', '🏳️‍🌈', '\u0000', '\u007f', '\u0080', '\ud800', '\udbff', '\udc00', '\udfff', '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{10ffff}'];
  const text = (n) => R.some(chars, n).join('');
  for (let i = 0; i < (tier === 'thorough' ? 20000 : 5000); i++) {
    const salt = R.chance(0.2) ? '' : text(R.int(12));
    const vals = Array.from({ length: 6 }, (_, j) => (R.chance(0.15) ? R.pick([7, 0, true, false, 12.5, ['a', 1], { a: 1 }]) : text(1 + ((i + j * 7) % (R.chance(0.1) ? 70 : 20)))));
    const str = (v) => (typeof v === 'object' ? JSON.stringify(v) : String(v));
    const h = murmur(`${salt}/${str(vals[0])}`), a = h % 100, q = Math.floor(h / 100);
    // cut right at, before and after where the first value falls
    const da = R.pick([0, 1]), dq = R.pick([0, 1]);
    const dists = () => R.shuffle([{ variant: 'low', range: [0, q + dq] }, { variant: 'high', range: [q + dq, 42949673] }, { variant: 'at', range: [q, q + 1] }]).slice(0, 1 + R.int(3));
    const allocs = R.shuffle([{ range: [0, a + da], distributions: dists() }, { range: [a + da, 100], distributions: dists() }, { range: [a, a + 1], distributions: dists() }]).slice(0, 1 + R.int(3));
    const bucket = { selector: ['context', 'user', 'user_id'], salt, allocations: allocs };
    const flag = { key: 'f', variants: Object.fromEntries(['low', 'high', 'at', 'default'].map((k) => [k, { key: k }])), segments: [{ bucket, variant: 'default' }] };
    ev.push({ k: 'bucket', b: { sel: [], salt: codes(salt), allocs: allocs.map((x) => ({ range: x.range, dists: x.distributions })) }, vs: vals.map((v) => codes(str(v))),
      got: vals.map((v) => attempt(() => E.evaluate({ user: { user_id: v } }, [flag]).f?.key ?? 'none')) });
  }
  return ev;
}
function sortEvents(M, R, tier) {
  const ev = [];
  const run = (deps, req, order) => {
    const flags = Object.fromEntries((order ?? Object.keys(deps)).map((k) => [k, { key: k, variants: {}, segments: [], ...(deps[k].length || R.chance(0.5) ? { dependencies: deps[k] } : {}) }]));
    const before = structuredClone(flags);
    let got;
    try {
      const out = M.topologicalSort(flags, req);
      got = { what: out.every((f) => f && flags[f.key] === f) && eq(flags, before) ? 'ordered' : 'corrupt', out: out.map((f) => f?.key ?? '?') };
    } catch (e) {
      got = { what: /cycle/i.test(e?.message) ? 'cycle' : `threw ${e?.message}`, out: [] };
    }
    ev.push({ k: 'sort', deps, req: req ?? Object.keys(deps), got });
  };
  const subs = [[]];
  for (const x of ['a', 'b', 'c', 'x']) subs.push(...subs.map((s) => [...s, x]));
  const reqs = [undefined, undefined, ['a'], ['b'], ['c'], ['b', 'a'], ['c', 'b', 'a'], ['x'], ['a', 'a'], [], ['x', 'c']];
  for (const a of subs) for (const b of subs) for (const c of subs) {
    for (let n = 0; n < (tier === 'thorough' ? 8 : 2); n++) run({ a: R.shuffle(a), b: R.shuffle(b), c: R.shuffle(c) }, R.pick(reqs), R.shuffle(['a', 'b', 'c']));
  }
  for (let i = 0; i < (tier === 'thorough' ? 20000 : 2500); i++) {
    const n = 2 + R.int(7), keys = Array.from({ length: n }, (_, k) => `n${k}`);
    const acyclic = R.chance(0.6), dens = R.f() * 0.5;
    const deps = Object.fromEntries(keys.map((k, j) => [k, R.shuffle(keys.filter((_, m) => (acyclic ? m < j : true) && R.chance(dens)).concat(R.chance(0.1) ? ['ghost'] : []))]));
    run(deps, R.chance(0.5) ? undefined : R.shuffle(keys).slice(0, R.int(n + 1)), R.shuffle(keys));
  }
  for (const n of [30, 120]) { // long chains, either way round
    const keys = Array.from({ length: n }, (_, k) => `n${k}`);
    const deps = Object.fromEntries(keys.map((k, j) => [k, j ? [keys[j - 1]] : []]));
    run(deps, undefined, keys); run(deps, undefined, [...keys].reverse()); run({ ...deps, n0: [keys[n - 1]] }, undefined, keys);
  }
  return ev;
}
export async function record({ seed, tier, what }) {
  const M = await engine();
  const R = rand(seed + { match: 1, eval: 2, bucket: 3, sort: 4, trace: 5 }[what] * 1000);
  const ev = { match: matchEvents, eval: evalEvents, bucket: bucketEvents, sort: sortEvents, trace: traceEvents }[what](M, R, tier);
  return batch(ev, 50);
}
