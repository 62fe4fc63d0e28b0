import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, drain } from '../lib/env.mjs';

export async function prepare() {
  const load = compile(await bundle("export * from '@amplitude/experiment-plugin-segment';"));
  return { create: async () => system(load) };
}
const un = (x) => x ?? '~';
// Segment's own snippet: a queue with stubs for its methods
const officialStub = () => {
  const q = [];
  q.factory = (m) => (...args) => { q.push([m, ...args]); return q; };
  for (const m of ['ready', 'track', 'identify', 'user']) q[m] = q.factory(m);
  return q;
};

function system(load) {
  let g, plugin, real, key, tracked, resolved = 0, stub, bad = 0;
  let clock;
  const sdk = () => {
    const cbs = [];
    const r = {
      initialized: false, id: {}, cbs,
      initialize: () => Promise.resolve(r),
      ready: (f) => { if (r.initialized) Promise.resolve().then(f); else cbs.push(f); return Promise.resolve(); },
      user: () => ({ id: () => (r.id.u === '~' ? null : r.id.u), anonymousId: () => (r.id.d === '~' ? null : r.id.d), traits: () => (r.id.p === '~' ? {} : { p: r.id.p }) }),
      track: (name, properties) => { tracked.push({ name, v: properties?.v, extra: Object.keys(properties ?? {}).length - 1 }); return Promise.resolve(); },
    };
    r.id = { u: '~', d: '~', p: '~' };
    return r;
  };
  const put = (k, v, wrap) => {
    if (v === '~') g.localStorage.removeItem(k);
    else g.localStorage.setItem(k, v === 'bad' ? ['plain-text', '{', '', 'undefined'][bad++ % 4] : JSON.stringify(wrap ? { p: v } : v));
  };
  let stores;
  return {
    async step(a) {
      tracked = [];
      let ok = true;
      switch (a.n) {
        case 'init': {
          const k = a.kind;
          g = makeGlobal();
          clock = g.clock;
          stores = g.localStorage;
          key = k.key;
          real = undefined;
          if (k.page === 'loaded' || k.page === 'ready') {
            real = sdk();
            real.initialized = k.page === 'ready';
            if (k.how !== 'given' && !k.given) g[key] = k.nested ? Object.assign([], { instance: real }) : real;
          } else if (k.page === 'stub') g[key] = officialStub();
          stub = g[key];
          const M = load(g);
          plugin = M.segmentIntegrationPlugin({ ...(k.how === 'given' || k.given ? { instance: real } : {}), ...(key === 'analytics' ? {} : { instanceKey: key }), ...(k.how === 'skip' ? { skipSetup: true } : {}) });
          stub = g[key];
          break;
        }
        case 'setup': Promise.resolve(plugin.setup()).then(() => { resolved += 1; }, () => { resolved += 1000; }); break;
        case 'load': {
          real = sdk();
          const q = [...g[key]];
          g[key] = real;
          if (a.reads) for (const [m, ...args] of q) if (typeof real[m] === 'function') real[m](...args);
          break;
        }
        case 'ready': real.initialized = true; for (const f of real.cbs.splice(0)) f(); break;
        case 'wait': await clock.advance(a.ms); break;
        case 'identify': real.id = a.id; break;
        case 'persist': {
          const ls = stores;
          const cur = Object.getOwnPropertyDescriptor(g, 'localStorage');
          Object.defineProperty(g, 'localStorage', { configurable: true, writable: true, value: ls });
          put('ajs_user_id', a.id.u); put('ajs_anonymous_id', a.id.d); put('ajs_user_traits', a.id.p, true);
          Object.defineProperty(g, 'localStorage', cur);
          break;
        }
        case 'store':
          if (a.mode === 'blocked') Object.defineProperty(g, 'localStorage', { configurable: true, get() { throw new Error('SecurityError'); } });
          else Object.defineProperty(g, 'localStorage', { configurable: true, writable: true, value: a.mode === 'ok' ? stores : undefined });
          break;
        case 'track': {
          const ev = { eventType: '$exposure', eventProperties: { v: a.v } };
          ok = plugin.track(ev);
          break;
        }
      }
      await drain(3);
      let user;
      try {
        const u = plugin.getUser();
        user = { u: un(u.user_id), d: un(u.device_id), p: un(u.user_properties?.p) };
      } catch (e) { user = { threw: String(e) }; }
      return { user, resolved, tracked: tracked.map((t) => (t.extra ? { ...t } : { name: t.name, v: t.v })), ok };
    },
  };
}
