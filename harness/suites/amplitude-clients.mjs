import { loadBrowser, makeGlobal, drain, Net } from '../lib/browser.mjs';

const KEYS = { k1: '1111111111aaaaaa', k2: '2222222222bbbbbb', c1: 'client-33333333cc' };
export async function prepare() {
  const load = await loadBrowser();
  return { create: async () => system(load) };
}
const b64 = (x) => Buffer.from(x, 'latin1').toString('base64');
const web = (k) => ({ key: `w${k}`, metadata: { evaluationMode: 'local', deliveryMethod: 'web' }, variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }] });

function system(load) {
  let g, M, net, clients, got, reply = 0, exposed = 0, bad = 0;
  const boot = () => {
    const prev = g;
    g = makeGlobal(prev ? { clock: prev.clock, jar: prev.jar, localStorage: prev.localStorage, sessionStorage: prev.sessionStorage } : {});
    g.clock.timers.clear();
    net = new Net(g.clock, () => 1e12);
    g.fetch = net.fetch;
    M = load(g);
    clients = [];
    for (const k of Object.keys(balk)) delete balk[k];
  };
  // one instance's name is the beginning of the other's
  const inst = (name) => (name === 'B' ? 'A-2' : name);
  const balk = {};
  const conn = (name) => M.AnalyticsConnector.getInstance(inst(name));
  const un = (x) => x ?? '~';
  const persist = (key, src, v) => {
    const K = KEYS[key], id = { ...(v.u === '~' ? {} : { userId: v.u }), ...(v.d === '~' ? {} : { deviceId: v.d }) };
    const value = v.u === 'none' ? null
      : v.u === 'bad' ? (src === 'cookie' ? ['%E0%A4%A', '!!!', b64('{nope')] : src === 'old' ? ['%E0%A4%A', 'dev.!!!.x', '%'] : ['{', 'nope', '"text"', '7'])[bad++ % 3]
      : src === 'cookie' ? b64(encodeURIComponent(JSON.stringify(id)))
      : src === 'old' ? `${v.d === '~' ? '' : v.d}.${v.u === '~' ? '' : b64(v.u)}..abc.def`
      : JSON.stringify({ ...id, sessionId: 5 });
    if (src === 'cookie' || src === 'old') {
      const name = src === 'cookie' ? `AMP_${K.slice(0, 10)}` : `amp_${K.slice(0, 6)}`;
      g.jar.set('www.example.com', value === null ? `${name}=; Max-Age=0` : `${name}=${value}`);
    } else {
      const st = src === 'local' ? g.localStorage : g.sessionStorage;
      if (value === null) st.removeItem(`AMP_${K.slice(0, 10)}`);
      else st.setItem(`AMP_${K.slice(0, 10)}`, value);
    }
  };
  // answer everything asked so far, in order
  const serve = async (sent) => {
    for (let again = true; again; ) {
      again = false;
      for (const r of net.drainSent()) {
        again = true;
        const m = /^https:\/\/([A-Z]+)-(k1|k2|c1)(-web)?\.test/i.exec(r.url);
        const c = clients.findIndex((x) => m && x.name === m[1].toUpperCase() && x.key === m[2] && x.web === !!m[3]) + 1;
        sent.push({ c, id: { u: un(r.user?.user_id), d: un(r.user?.device_id), p: un(r.user?.user_properties?.p) }, key: Object.keys(KEYS).find((k) => `Api-Key ${KEYS[k]}` === r.headers.Authorization) ?? '?' });
        net.ok(r.slot, { f: { key: `r${reply}`, value: `r${reply}` } });
        reply = (reply + 1) % 4;
      }
      await drain(3);
    }
  };
  const seen = new WeakMap();
  return {
    async step(a) {
      got = [];
      let res = 0;
      const sent = [];
      switch (a.n) {
        case 'init': boot(); break;
        case 'make': {
          const c = (a.amp ? M.Experiment.initializeWithAmplitudeAnalytics : M.Experiment.initialize)(KEYS[a.key], {
            instanceName: inst(a.name), serverUrl: `https://${a.name}-${a.key}${a.web ? '-web' : ''}.test`, retryFetchOnFailure: false,
            automaticExposureTracking: false, automaticFetchOnAmplitudeIdentityChange: a.auto, pollOnStart: false,
            initialFlags: JSON.stringify([0, 1, 2, 3].map(web)),
            ...(a.web ? { internalInstanceNameSuffix: 'web' } : {}),
          });
          res = clients.findIndex((x) => x.c === c) + 1;
          if (!res) { clients.push({ c, name: a.name, key: a.key, web: a.web }); res = clients.length; }
          break;
        }
        case 'identity': {
          const now = conn(a.name).identityStore.getIdentity();
          const ed = conn(a.name).identityStore.editIdentity();
          const to = (x) => (x === '~' ? undefined : x);
          if (now.userId !== to(a.id.u)) ed.setUserId(to(a.id.u));
          if (now.deviceId !== to(a.id.d)) ed.setDeviceId(to(a.id.d));
          if (a.id.p !== '~') ed.updateUserProperties({ $set: { p: a.id.p } });
          else if (now.userProperties?.p !== undefined) ed.updateUserProperties({ $unset: { p: '-' } });
          ed.commit();
          break;
        }
        case 'receiver': conn(a.name).eventBridge.setEventReceiver((e) => {
          if (balk[a.name]) throw new Error('not taken');
          got.push({ name: a.name, ev: Number(/^w(\d)$/.exec(e.eventType === '$impression' ? e.eventProperties.flag_key : '')?.[1] ?? -1) });
        }); break;
        case 'balk': balk[a.name] = a.on; break;
        case 'expose': clients[a.c - 1].c.exposure(`w${exposed}`); exposed = (exposed + 1) % 4; break;
        case 'fetch': void clients[a.c - 1].c.fetch(); break;
        case 'persist': persist(a.key, a.src, a.v); break;
        case 'wait': await g.clock.advance(a.ms); break;
        case 'reload': boot(); break;
      }
      await drain(3);
      await serve(sent);
      const tag = (v) => (v?.key === undefined ? -1 : Number(String(v.key).slice(1)));
      return {
        res, n: clients.length, sent: clients.map((_, i) => sent.filter((r) => r.c === i + 1)), got,
        stored: clients.map((x) => tag(x.c.variant('f'))), ...(sent.some((r) => !r.c) ? { stray: sent.filter((r) => !r.c) } : {}),
      };
    },
  };
}
