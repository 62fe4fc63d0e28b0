import { loadBrowser, Net, makeGlobal, drain } from '../lib/browser.mjs';
import { mkFlag, mkUser } from '../lib/flags.mjs';

const KEY = 'client-apikey-123456';
const STORE = `amp-exp-inst-${KEY.slice(-6)}-flags`;
export async function prepare() {
  const load = await loadBrowser();
  return { create: async () => system(load) };
}
const kindOf = (f) => (f.metadata?.evaluationMode === 'remote' ? 'rem' : Object.keys(f.variants)[0]);

function system(load) {
  const g = makeGlobal();
  let net, client, cfg, done, ids, prov;
  const list = (m) => Object.entries(m).filter(([, k]) => k !== '~').map(([f, k]) => mkFlag(f, k));
  const boot = () => {
    net = new Net(g.clock, () => 10000);
    g.clock.timers.clear();
    g.fetch = net.fetch;
    prov = '~';
    const M = load(g);
    client = new M.ExperimentClient(KEY, {
      retryFetchOnFailure: false, throwOnError: cfg.throw, pollOnStart: cfg.poll, fetchOnStart: cfg.fetch,
      automaticExposureTracking: false, instanceName: 'inst',
      ...(cfg.interval === -1 ? {} : { flagConfigPollingIntervalMillis: cfg.interval }),
      initialFlags: JSON.stringify(list(cfg.init)),
      userProvider: { getUser: () => mkUser(prov) ?? {} },
    });
    done = [];
    ids = new Map();
  };
  const obs = () => {
    const sent = net.drainSent().map((r) => ({
      slot: r.slot, kind: r.kind === 'vardata' ? 'fetch' : r.kind, user: r.kind === 'vardata' ? r.user?.user_id ?? '~' : '~',
    }));
    const all = Object.fromEntries(Object.entries(client.all()).map(([f, v]) => [f, v.value === v.key ? v.key : `?${JSON.stringify(v)}`]));
    const look = Object.fromEntries(['f1', 'f2', 'f3'].map((f) => [f, client.variant(f).value ?? '~']).filter(([, v]) => v !== '~'));
    const raw = g.localStorage._m.get(STORE);
    const disk = Object.fromEntries(Object.entries(raw ? JSON.parse(raw) : {}).map(([k, f]) => [k, kindOf(f)]));
    const d = done;
    done = [];
    return { all, look, disk, sent, done: d };
  };
  return {
    async step(a) {
      switch (a.n) {
        case 'init': cfg = a.cfg; boot(); break;
        case 'start': {
          const c = client;
          const before = net.sent.length;
          let id = 0;
          const end = (ok) => { if (c === client) { done.push({ start: id, ok }); ids.delete(id); } };
          c.start(mkUser(a.user)).then(() => end(true), () => end(false));
          if (net.sent.length > before) for (id = 1; ids.has(id); ) id++;
          if (id) ids.set(id, true);
          break;
        }
        case 'stop': client.stop(); break;
        case 'okFlags': net.ok(a.slot, list(a.body)); break;
        case 'okFetch': net.ok(a.slot, {}); break;
        case 'fail': if (a.how === 0) net.neterr(a.slot); else net.status(a.slot, a.how); break;
        case 'wait': await g.clock.advance(a.ms); net.expire(); break;
        case 'setUser': client.setUser(mkUser(a.user)); break;
        case 'provider': prov = a.user; break;
        case 'reload': cfg = { ...cfg, init: a.init }; boot(); break;
      }
      await drain(3);
      return obs();
    },
  };
}
