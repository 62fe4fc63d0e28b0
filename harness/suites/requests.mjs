import { loadBrowser, makeGlobal, drain, Net } from '../lib/browser.mjs';
const HOSTS = { 'https://api.lab.amplitude.com': 'api-us', 'https://api.lab.eu.amplitude.com': 'api-eu', 'https://flag.lab.amplitude.com': 'flag-us', 'https://flag.lab.eu.amplitude.com': 'flag-eu' };
const given = (v, yes = (x) => x) => (v === '~' ? undefined : v === 'null' ? null : yes(v));
const yn = (v) => given(v, (x) => x === 'yes');
const ms = (v) => (v.is === 'ms' ? v.ms : given(v.is === 'none' ? '~' : v.is));
export async function prepare({ ids }) {
  const load = await loadBrowser();
  return { create: async () => system(load, ids) };
}
// ids: [name of the client, deployment key, instance name, web]
function system(load, ids) {
  const g = makeGlobal({ href: 'https://www.example.com/' });
  g.document.cookie = 'secret=1';
  let net, M, cl, first, done, log, mode = { v: 'ok', f: 'ok' }, handed, gen = 0;
  const boot = () => {
    const mine = ++gen;
    g.clock.timers.clear();
    net = new Net(g.clock, () => 1e15);
    g.fetch = net.fetch;
    g.console = Object.fromEntries(['log', 'error', 'warn', 'info', 'debug', 'verbose'].map((l) => [l, () => mine === gen && log.push(owns() ? 'console ' + l : l)]));
    M = load(g);
    cl = {}; first = {}; done = []; log = []; handed = [];
  };
  // the console is for clients without a logger of their own
  const owns = () => { const l = Object.values(first); return l.length > 0 && l.every((c) => c.logger === 'own'); };
  const client = (id) => ids.find((x) => x[0] === id);
  const logger = () => { const mine = gen; return Object.fromEntries(['error', 'warn', 'info', 'debug', 'verbose'].map((l) => [l, () => mine === gen && log.push(l)])); };
  const answers = () => {
    for (const [k, r] of [...net.slots]) {
      const m = mode[r.kind === 'flags' ? 'f' : 'v'];
      if (m === 'ok') net.ok(k, r.kind === 'flags' ? [] : {});
      else if (m === 'fail') net.status(k, 500);
      else net.forget(k);
    }
  };
  const seen = [];
  const sync = () => { for (const r of net.drainSent()) seen.push(r); };
  const who = (h) => ids.filter((x) => h.Authorization === `Api-Key ${x[1]}`).map((x) => x[0]);
  const out = () => {
    sync();
    const sent = seen.splice(0).map((r) => {
      const u = new URL(r.url), flags = r.kind === 'flags';
      const extra = Object.keys(r.headers).filter((h) => !['Authorization', 'X-Amp-Exp-User', 'X-Amp-Exp-Flag-Keys', 'X-Amp-Exp-Track', 'X-Amp-Exp-Library'].includes(h));
      const bad = extra.length || (flags ? u.pathname !== '/sdk/v2/flags' || !/^experiment-js-client\/\d/.test(r.headers['X-Amp-Exp-Library']) || (r.user && Object.keys(r.user).some((k) => !['user_id', 'device_id'].includes(k)))
        : u.pathname !== '/sdk/v2/vardata' || u.searchParams.get('v') !== '0' || !r.user || 'cookie' in r.user || r.user.platform !== 'Web' || !/^experiment-js-client\/\d/.test(r.user.library));
      return { id: r.own ?? who(r.headers)[0], kind: flags ? 'f' : 'v', host: HOSTS[u.origin] ?? u.origin, by: r.own ? 'own' : '~', limit: r.own ? r.limit : 0,
        uid: r.user?.user_id ?? '~', keys: r.keys ?? (flags ? [] : ['*']), track: r.track ?? '~', web: u.searchParams.get('delivery_method') === 'web', ...(bad ? { bad: [r.url, r.headers, r.user] } : {}) };
    });
    const o = { sent_bag: sent, done_bag: done, log_between: [...new Set(log)], clients: Object.fromEntries(Object.keys(cl).map((k) => [k, true])) };
    done = []; log = [];
    return o;
  };
  const track = (id, what, p) => { const mine = gen; p.then(() => mine === gen && done.push({ id, what, ok: true }), () => mine === gen && done.push({ id, what, ok: false })); };
  boot();
  return {
    async step(a) {
      if (a.n === 'init') return {};
      switch (a.n) {
        case 'make': {
          const [id, key, name, web] = client(a.id), c = a.cfg;
          const own = (url, method, headers, data, limit) => new Promise((resolve, reject) => {
            net.fetch(url, { method, headers }).then(async (r) => resolve({ status: r.status, body: await r.text() }), reject);
            const r = net.sent.at(-1);
            r.own = id; r.limit = limit;
          });
          const config = {
            instanceName: name, serverZone: given(c.zone), serverUrl: given(c.url), flagsServerUrl: given(c.furl), fetchTimeoutMillis: ms(c.timeout), flagConfigPollingIntervalMillis: ms(c.poll),
            fetchOnStart: yn(c.fos), pollOnStart: yn(c.pos), retryFetchOnFailure: yn(c.retry), throwOnError: yn(c.thr), debug: yn(c.debug), logLevel: c.level < 0 ? undefined : c.level,
            automaticExposureTracking: false, ...(c.logger === 'own' ? { loggerProvider: logger() } : {}), ...(c.http === 'own' ? { httpClient: { request: own } } : {}), ...(web ? { internalInstanceNameSuffix: 'web' } : {}),
          };
          for (const k of Object.keys(config)) if (config[k] === undefined && k.length % 2) delete config[k];
          if (!first[a.id]) first[a.id] = c;
          const made = M.Experiment.initialize(key, config);
          if (cl[a.id] && cl[a.id] !== made) return { another: a.id };
          if (!cl[a.id] && Object.values(cl).includes(made)) return { same: a.id };
          cl[a.id] = made;
          break;
        }
        case 'start': track(a.id, 'start', cl[a.id].start(a.u === '~' ? undefined : { user_id: a.u, cookie: { z: '9' } })); break;
        case 'fetch': track(a.id, 'fetch', cl[a.id].fetch(a.u === '~' ? undefined : { user_id: a.u, cookie: { z: '9' } }, a.keys[0] === '*' ? undefined : { flagKeys: a.keys })); break;
        case 'track': await cl[a.id].setTracksAssignment(a.o === 'track'); break;
        case 'user': cl[a.id].setUser(a.u === '~' ? undefined : { user_id: a.u, cookie: { z: '9' } }); break;
        case 'stop': cl[a.id].stop(); break;
        case 'server': mode[a.k] = a.m; break;
        case 'wait': {
          // requests are answered when they are sent
          const end = g.clock.now + a.t / 128;
          for (;;) {
            const at = Math.min(end, g.clock.nextAt());
            await g.clock.advance(at - g.clock.now);
            for (let i = 0; i < 3; i++) { sync(); answers(); await drain(2); }
            if (at >= end) break;
          }
          break;
        }
        case 'reload': boot(); break;
      }
      for (let i = 0; i < 4; i++) { await drain(2); sync(); answers(); }
      await drain(2);
      return out();
    },
  };
}
