import { loadBrowser, Net, makeGlobal, drain } from '../lib/browser.mjs';

const KEY = 'client-apikey-123456';
const STORE = `amp-exp-inst-${KEY.slice(-6)}`;
export async function prepare() {
  const load = await loadBrowser();
  return { create: async () => system(load) };
}
// what a stored record, an initial variant or a fallback looks like
const RAW = {
  sOn: { key: 's', value: 's', expKey: 'exp-s', metadata: { experimentKey: 'exp-s', x: 1 } },
  sOn2: { key: 's2', value: 's2' },
  sKV: { key: 'sk', value: 'sv' },
  sDef: { key: 'off', metadata: { default: true } },
  sDefV: { key: 'off', value: 'sdv', metadata: { default: true, experimentKey: 'exp-d' } },
  sNoTr: { key: 's', value: 's', metadata: { trackExposure: false } },
  sEv: { key: 's', value: 's', metadata: { exposureEvent: 'custom' } },
  sWeb: { key: 's', value: 's', metadata: { deliveryMethod: 'web' } },
  sEvWeb: { key: 's', value: 's', metadata: { deliveryMethod: 'web', exposureEvent: 'custom' } },
  sStr: 'str',
  sVal: { value: 'val' },
  sExp: { key: 'se', value: 'se', expKey: 'exp-e' },
  sEmpty: {},
  iOn: { key: 'i', value: 'i', expKey: 'exp-i', metadata: { experimentKey: 'exp-i' } },
  iStr: 'istr',
  iDef: { key: 'ioff', metadata: { default: true } },
  iNoTr: { key: 'i', value: 'i', metadata: { trackExposure: false } },
  fStr: 'fb', fObj: { value: 'fov' }, fKey: { key: 'fk', value: 'fkv' }, fEmpty: {}, fBlank: '',
  cStr: 'cf', cObj: { key: 'ck', value: 'cv' },
};
const raw = (n) => (typeof RAW[n] === 'object' ? structuredClone(RAW[n]) : RAW[n]);
// what the server returns for it
const wire = (n) => {
  const v = raw(n);
  const r = { ...(v.key ? { key: v.key } : {}), ...(v.value ? { value: v.value } : {}) };
  if (v.metadata) r.metadata = v.metadata;
  return r;
};
const mkFlag = (k) => {
  const [mode, what] = [k[0] === 'l' ? 'local' : 'remote', k.slice(1)];
  const on = { key: mode === 'local' ? 'l' : 'r', value: mode === 'local' ? 'l' : 'r', metadata: { ...(k === 'lOn' ? { experimentKey: 'exp-l' } : {}), ...(what === 'NoTr' ? { trackExposure: false } : {}), ...(what === 'Web' ? { deliveryMethod: 'web' } : {}) } };
  const off = { key: 'off', metadata: { default: true } };
  return {
    key: 'f', variants: { on, off }, metadata: { evaluationMode: mode },
    segments: what === 'None' ? [{ conditions: [[{ selector: ['context', 'user', 'nope'], op: 'is', values: ['x'] }]], variant: 'on' }]
      : what === 'Def' ? [{ conditions: [[{ selector: ['context', 'user', 'nope'], op: 'is', values: ['x'] }]], variant: 'on' }, { variant: 'off' }]
      : [{ variant: 'on' }],
  };
};
const show = (v) => ({ key: v?.key ?? '~', value: v?.value ?? '~', ek: v?.expKey ?? '~', def: v?.metadata?.default === true });
const NONE = show();

function system(load) {
  const g = makeGlobal();
  let client, net, ex, ep, lg, n = 0;
  const fresh = () => { ex = []; ep = []; lg = []; client.setUser({ user_id: `u${n++}` }); };
  const exposure = (p, type) => ({
    flag: p.flag_key, ek: p.experiment_key ?? '~', variant: p.variant ?? '~', type,
    meta: p.metadata !== undefined,
    ...(Object.keys(p).some((k) => !['flag_key', 'experiment_key', 'variant', 'metadata', 'time'].includes(k)) ? { odd: JSON.stringify(p) } : {}),
  });
  const typeOf = (p) => p.metadata?.exposureEvent ?? (p.metadata?.deliveryMethod === 'web' ? '$impression' : '$exposure');
  return {
    async step(a) {
      const res = { v: NONE, all: NONE, ex: [], ep: [], lg: [] };
      switch (a.n) {
        case 'init': {
          const c = a.cfg;
          net = new Net();
          g.fetch = net.fetch;
          if (a.stored !== '~') g.localStorage._m.set(STORE, JSON.stringify({ f: raw(a.stored) }));
          const M = load(g);
          client = new M.ExperimentClient(KEY, {
            instanceName: 'inst', source: c.source, automaticExposureTracking: c.auto, retryFetchOnFailure: false,
            ...(c.initial === '~' ? {} : { initialVariants: { f: raw(c.initial) } }),
            ...(c.fallback === '~' ? {} : { fallbackVariant: raw(c.fallback) }),
            ...(c.flag === '~' ? {} : { initialFlags: JSON.stringify([mkFlag(c.flag)]) }),
            exposureTrackingProvider: { track: (e) => ep.push(exposure(e, typeOf(e))) },
            ...(!c.legacy ? {} : { analyticsProvider: {
              track: (e) => lg.push({ call: 'track', value: e.variant?.value ?? '~' }),
              setUserProperty: (e) => lg.push({ call: 'set', value: e.variant?.value ?? '~' }),
              unsetUserProperty: (e) => lg.push({ call: 'unset', value: e.variant?.value ?? '~' }),
            } }),
          });
          client.addPlugin({ type: 'integration', getUser: () => ({}), track: (e) => { ex.push(exposure(e.eventProperties, e.eventType)); return true; } });
          fresh();
          return res;
        }
        case 'variant':
          fresh();
          res.v = show(a.inline === '~' ? client.variant('f') : client.variant('f', raw(a.inline)));
          break;
        case 'exposure': fresh(); client.exposure('f'); break;
        case 'all': fresh(); res.all = show(client.all().f); break;
        case 'fetched': {
          const p = client.fetch({ user_id: 'u' });
          await drain(2);
          net.ok(1, a.stored === '~' ? {} : { f: wire(a.stored) });
          await p;
          fresh();
          return res;
        }
      }
      return { ...res, ex, ep, lg };
    },
  };
}
