import { loadBrowser, Net, makeGlobal, drain, FakeStorage } from '../lib/browser.mjs';
import { mkFlag } from '../lib/flags.mjs';

const KEYS = { k1: 'client-one-123456', k1x: 'client-two-123456', k2: 'client-one-654321' };
const parse = (c) => { const [inst, k, w] = c.split('-'); return { inst, key: KEYS[k], web: w === 'web' }; };
const ns = (c) => { const p = parse(c); return `amp-exp-${p.inst}${p.web ? '-web' : ''}-${p.key.slice(-6)}`; };
export async function prepare() {
  const load = await loadBrowser();
  return { create: async () => system(load) };
}
// current and older persisted forms, by the meaning they must be read with
const FORMS = {
  a: { key: 'a', value: 'va', payload: { p: 1 }, expKey: 'ea', metadata: { experimentKey: 'ea', x: 1 } },
  b: { key: 'b', value: 'b' },
  off: { key: 'off', metadata: { default: true } },
  text: 'text', val: { value: 'val' }, valp: { value: 'valp', payload: 'pp' }, exp: { key: 'exp', value: 'exp', expKey: 'ek' },
  bare: { payload: 'bare' }, null: null, num: 5,
};
const MEANING = {
  a: FORMS.a, b: FORMS.b, off: FORMS.off,
  text: { key: 'text', value: 'text' }, val: { key: 'val', value: 'val' }, valp: { key: 'valp', value: 'valp', payload: 'pp' },
  exp: { key: 'exp', value: 'exp', expKey: 'ek', metadata: { experimentKey: 'ek' } }, bare: { payload: 'bare' },
};
const canon = (v) => JSON.stringify(v, (k, x) => (x && typeof x === 'object' && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort()) : x));
const NAME = Object.fromEntries(Object.entries(MEANING).map(([k, v]) => [canon(v), k]));
const wire = (n) => { const { expKey, ...r } = structuredClone(MEANING[n]); return r; };

function system(load) {
  const local = new FakeStorage();
  const session = new FakeStorage();
  const clock = makeGlobal().clock;
  let client, net, threw, cur;
  const boot = (c, mode, init) => {
    cur = parse(c);
    const g = makeGlobal({ clock });
    clock.timers.clear();
    for (const [p, st] of [['localStorage', local], ['sessionStorage', session]]) {
      st._f.set = mode === 'full';
      st._f.get = mode === 'unreadable';
      if (mode === 'unreadable') st._f.set = true;
      Object.defineProperty(g, p, {
        configurable: true,
        get() {
          if (mode === 'blocked') throw new Error('SecurityError');
          return mode === 'absent' ? undefined : st;
        },
      });
    }
    net = new Net();
    g.fetch = net.fetch;
    // globals are passed as parameters too: do not trip over a blocked storage there
    const env = new Proxy(g, { get: (o, k) => { try { return o[k]; } catch (e) { if (k === 'localStorage' || k === 'sessionStorage') return undefined; throw e; } } });
    g.globalThis = g; g.window = g;
    const M = load(env);
    client = new M.ExperimentClient(cur.key, {
      instanceName: cur.inst, automaticExposureTracking: true, retryFetchOnFailure: false, pollOnStart: false, fetchOnStart: false,
      initialFlags: JSON.stringify(Object.entries(init ?? {}).filter(([, k]) => k !== '~').map(([f, k]) => mkFlag(f, k))),
      ...(cur.web ? { internalInstanceNameSuffix: 'web' } : {}),
      exposureTrackingProvider: { track() {} },
    });
    client.addPlugin({ type: 'integration', getUser: () => ({}), track: () => false });
  };
  let track;
  const fetch = async (answer, opt) => {
    const p = client.fetch({ user_id: 'u' }, opt);
    await drain(2);
    track = net.drainSent().at(-1)?.track ?? '~';
    if (answer) net.ok(1, answer);
    else net.status(1, 404);
    await p;
  };
  const body = (b) => Object.fromEntries(Object.entries(b).filter(([, n]) => n !== '~').map(([f, n]) => [f, wire(n)]));
  const raw = (c) => (parse(c).web ? session : local)._m;
  const run = async (a) => {
    switch (a.n) {
      case 'init': boot(a.c, 'ok', {}); break;
      case 'page': boot(a.c, a.mode, a.init); break;
      case 'fetch': await fetch(body(a.body)); break;
      case 'fetchOne': await fetch(body({ [a.f]: a.v }), { flagKeys: [a.f] }); break;
      case 'fetchFails': await fetch(null); break;
      case 'flags': {
        const p = client.start();
        await drain(2);
        net.ok(1, Object.entries(a.body).filter(([, k]) => k !== '~').map(([f, k]) => mkFlag(f, k)));
        await p;
        client.stop();
        break;
      }
      case 'track': await client.setTracksAssignment(a.t === 'track').catch(() => {}); break;
      case 'clear': client.clear(); break;
      case 'lookups':
        client.setUser({ user_id: `u${Math.random()}` });
        for (const f of ['v1', 'v2', 'f1', 'f2', 'none']) { client.variant(f, 'fb'); client.exposure(f); }
        break;
      case 'older': {
        const k = ns(a.c);
        let o;
        try { o = JSON.parse(raw(a.c).get(k) ?? '{}') ?? {}; } catch { o = {}; }
        o[a.f] = FORMS[a.v];
        raw(a.c).set(k, JSON.stringify(o));
        break;
      }
      case 'damage': {
        const k = ns(a.c) + { v: '', f: '-flags', o: '-variants-options' }[a.part];
        if (a.how === 'gone') raw(a.c).delete(k);
        else raw(a.c).set(k, { garbage: '{"v1":{"key":"a"', text: 'undefined', null: 'null', empty: '' }[a.how]);
        break;
      }
      case 'damageExposures':
        for (const st of [local, session]) for (const k of [`EXP_unsent_${cur.inst}`, `EXP_sent_v3_${cur.inst}`]) {
          if (a.how === 'gone') st._m.delete(k);
          else st._m.set(k, { garbage: '[{"x"', null: 'null' }[a.how]);
        }
        break;
    }
  };
  return {
    async step(a) {
      threw = false;
      track = '~';
      try { await run(a); } catch (e) { threw = String(e); }
      await drain();
      let all = {};
      try { all = client.all(); } catch (e) { threw = String(e); }
      const pick = (fs, name) => Object.fromEntries(fs.filter((f) => all[f]).map((f) => [f, name(all[f])]));
      const extra = Object.keys(all).filter((k) => !['v1', 'v2', 'f1', 'f2'].includes(k));
      return {
        v: { ...pick(['v1', 'v2'], (v) => NAME[canon(v)] ?? `?${canon(v)}`), ...(extra.length ? { extra } : {}) },
        f: pick(['f1', 'f2'], (v) => v.key), track, threw,
      };
    },
  };
}
