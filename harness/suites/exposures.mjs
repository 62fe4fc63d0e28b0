import { loadBrowser, makeGlobal, drain, FakeStorage } from '../lib/browser.mjs';

const QUEUE = 'EXP_unsent_inst';
export async function prepare({ detail = true } = {}) {
  const load = await loadBrowser();
  return { create: async () => system(load, detail) };
}
const prop = (f, v) => ({ conditions: [[{ selector: ['context', 'user', 'user_properties', f], op: 'is', values: [v] }]], variant: v });
const choice = (f) => ({
  key: f, metadata: { evaluationMode: 'local', ...(f === 'f2' ? { exposureEvent: 'seen f2' } : {}) }, // a flag may name its own event
  variants: { a: { key: 'a', value: 'a' }, b: { key: 'b', value: 'b' }, off: { key: 'off', metadata: { default: true } } },
  segments: [prop(f, 'a'), prop(f, 'b'), { variant: 'off' }],
});
const web = (k) => ({ key: `w${k}`, metadata: { evaluationMode: 'local', deliveryMethod: 'web', ...(k % 2 ? { exposureEvent: `seen w${k}` } : {}) }, variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }] });
const SMALL = JSON.stringify(['f1', 'f2'].map(choice).concat([0, 1, 2, 3, 4, 5, 6, 7].map(web)));
const LARGE = JSON.stringify(['f1', 'f2'].map(choice).concat(Array.from({ length: 700 }, (_, k) => web(k))));
const evName = (e) => {
  const f = e.eventProperties.flag_key, web = /^w\d+$/.test(f);
  const type = f === 'f2' || (web && f.slice(1) % 2) ? `seen ${f}` : web ? '$impression' : '$exposure';
  return e.eventType !== type ? `?${JSON.stringify(e)}` : web ? f : `${f}=${e.eventProperties.variant ?? '~'}`;
};

function system(load, detail) {
  let g, client, offers, ep, torn, budget, how, n, setups, user, props, webNext = 0, store, via = 0;
  const boot = (keep) => {
    const prev = g;
    g = makeGlobal({
      clock: prev?.clock,
      localStorage: store === 'none' ? undefined : keep ? prev.localStorage : new FakeStorage(),
      sessionStorage: store === 'none' ? undefined : keep === 'all' ? prev.sessionStorage : new FakeStorage(),
    });
    g.clock.timers.clear();
    budget = 100000; how = 'no'; n = 0; setups = {}; user = {}; props = {};
    const M = load(g);
    client = new M.ExperimentClient('client-apikey-123456', {
      instanceName: 'inst', automaticExposureTracking: true, retryFetchOnFailure: false,
      initialFlags: detail ? SMALL : LARGE,
      exposureTrackingProvider: { track: (e) => ep.push({ f: e.flag_key, v: e.variant ?? '~' }) },
    });
    client.setUser({});
  };
  const integration = (i, setup) => ({
    type: 'integration', name: `i${i}`, getUser: () => ({}),
    ...(setup ? { setup: () => new Promise((ok, no) => (setups[i] = { ok, no })) } : {}),
    teardown: async () => void torn.push(i),
    track(e) {
      const right = this?.name === `i${i}` ? i : `wrong-this-${i}`;
      const ok = budget > 0;
      if (ok && budget < 100000) budget--;
      offers.push({ to: right, ev: evName(e), ok });
      if (!ok && how === 'throw') throw new Error('refused');
      return ok;
    },
  });
  const setUser = () => client.setUser({ ...user, user_properties: props });
  return {
    async step(a) {
      offers = []; ep = []; torn = [];
      switch (a.n) {
        case 'init': store = a.stores; boot(); break;
        case 'expose':
          props = { [a.f]: a.v === '~' ? 'none' : a.v };
          setUser();
          if (via++ % 2) client.exposure(a.f);
          else client.variant(a.f);
          break;
        case 'web': for (let k = 0; k < a.k; k++) { client.exposure(`w${webNext}`); webNext = (webNext + 1) % (detail ? 8 : 700); } break;
        case 'user': user = { ...(a.u === '~' ? {} : { user_id: a.u }), ...(a.d === '~' ? {} : { device_id: a.d }) }; setUser(); break;
        case 'answer': budget = a.budget; how = a.how; break;
        case 'attach': n++; client.addPlugin(integration(n, a.setup)); break;
        case 'settle': setups[n][a.ok ? 'ok' : 'no'](new Error('setup')); break;
        case 'late': setups[a.i]?.ok(); break;
        case 'wait': await g.clock.advance(a.ms); break;
        case 'reload': boot('all'); break;
        case 'newSession': boot('local'); break;
      }
      await drain(2);
      const raw = g.localStorage?._m.get(QUEUE);
      const q = (raw ? JSON.parse(raw) : []).map(evName);
      return { offers, ep: ep.filter((x) => !/^w\d/.test(x.f)), torn, disk: { len: q.length, first: q[0] ?? '~', last: q.at(-1) ?? '~', all: detail ? q : [] } };
    },
  };
}
