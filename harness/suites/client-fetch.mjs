import { loadBrowser, Net, makeGlobal, drain } from '../lib/browser.mjs';

const KEY = 'client-apikey-123456';
const STORE = `amp-exp-inst-${KEY.slice(-6)}`;
export async function prepare() {
  const load = await loadBrowser();
  return { create: async () => system(load) };
}
// variant names <-> what the server sends
const wire = (v) => ({ key: v, value: v, payload: { p: v }, metadata: { experimentKey: `exp-${v}`, segmentName: 's' } });
const name = (v) => {
  if (!v) return '~';
  const ok = v.value === v.key && v.payload?.p === v.key && v.expKey === `exp-${v.key}` && v.metadata?.segmentName === 's';
  return ok ? v.key : `?${JSON.stringify(v)}`;
};
const names = (o) => Object.fromEntries(Object.entries(o ?? {}).map(([k, v]) => [k, name(v)]));

function system(load) {
  const g = makeGlobal();
  let net, client, cfg, done;
  let waiting = false; // requests sent while time passes are background retries
  const boot = () => {
    net = new Net(g.clock, () => (waiting ? 10000 : cfg.timeout));
    g.clock.timers.clear();
    g.fetch = net.fetch;
    const M = load(g);
    client = new M.ExperimentClient(cfg.key ? KEY : '', {
      retryFetchOnFailure: cfg.retry, throwOnError: cfg.throw, fetchTimeoutMillis: cfg.timeout,
      automaticExposureTracking: false, instanceName: 'inst',
    });
    done = [];
  };
  const obs = () => {
    const sent = net.drainSent().filter((r) => r.kind === 'vardata').map((r) => ({
      slot: r.slot, user: r.user?.user_id ?? 'none', keys: r.keys === undefined ? ['*'] : r.keys, track: r.track ?? '~',
    }));
    const d = done.map((x) => ({ slot: x.rec.slot, ok: x.ok }));
    done = [];
    const raw = g.localStorage._m.get(STORE);
    const all = names(client.all());
    for (const f of ['f1', 'f2', 'f3', 'f4']) { // single lookups agree with the listing
      const v = client.variant(f);
      const n = v.key === undefined && v.value === undefined ? '~' : name(v);
      if (n !== (all[f] ?? '~')) all[`variant-${f}`] = n;
    }
    return { all, disk: raw ? names(JSON.parse(raw)) : {}, sent, done: d };
  };
  return {
    async step(a) {
      switch (a.n) {
        case 'init': cfg = a.cfg; boot(); break;
        case 'fetch': {
          const before = new Set(net.slots.keys());
          const dn = done;
          const rec = { slot: 0 };
          const c = client;
          const end = (ok) => { if (c === client) { done.push({ rec, ok }); net.forget(rec.slot); } };
          c.fetch(a.user === '~' ? undefined : { user_id: a.user }, a.keys[0] === '*' ? undefined : { flagKeys: a.keys }).then(() => end(true), () => end(false));
          await drain();
          rec.slot = [...net.slots.keys()].find((s) => !before.has(s)) ?? 0;
          break;
        }
        case 'ok': net.ok(a.slot, Object.fromEntries(Object.entries(a.body).filter(([, v]) => v !== '~').map(([k, v]) => [k, wire(v)]))); break;
        case 'status': net.status(a.slot, a.status); break;
        case 'neterr': net.neterr(a.slot); break;
        case 'wait': {
          waiting = true;
          await g.clock.advance(a.units / 128);
          waiting = false;
          net.expire();
          break;
        }
        case 'clear': client.clear(); break;
        case 'track': await client.setTracksAssignment(a.t === 'track'); break;
        case 'user': client.setUser(a.user === '~' ? undefined : { user_id: a.user }); break;
        case 'fault': g.localStorage._f.set = a.on; break;
        case 'reload': boot(); break;
      }
      await drain(3);
      return obs();
    },
  };
}
