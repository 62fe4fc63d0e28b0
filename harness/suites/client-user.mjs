import { loadBrowser, makeGlobal, drain, Net } from '../lib/browser.mjs';

const LIB = 'experiment-js-client/';
const PATH = { uid: 'user_id', did: 'device_id', lib: 'library', cty: 'country' };
const isProp = (f) => /^p\d/.test(f);
const VALS = ['x', 'y', 'z'];
const sel = (f) => ['context', 'user', ...(isProp(f) ? ['user_properties', f] : [PATH[f]])];
const probe = (f) => ({
  key: `probe-${f}`, metadata: { evaluationMode: 'local' },
  variants: Object.fromEntries([...VALS, 'L', 'other'].map((v) => [v, { key: v, value: v }])),
  segments: [
    ...VALS.map((v) => ({ conditions: [[{ selector: sel(f), op: 'is', values: [v] }]], variant: v })),
    { conditions: [[{ selector: sel(f), op: 'contains', values: [LIB] }]], variant: 'L' },
    { conditions: [[{ selector: sel(f), op: 'is not', values: ['(none)'] }]], variant: 'other' },
  ],
});
export async function prepare({ fields }) {
  const load = await loadBrowser();
  return { create: async () => system(load, fields) };
}

function system(load, fields) {
  const g = makeGlobal();
  const net = new Net(g.clock, () => 1e12);
  g.fetch = net.fetch;
  const real = (v, f) => (v === 'nil' ? (nils++ % 2 && !isProp(f) ? undefined : null) : v);
  let nils = 0, client, prov = {}, ints = [], handles = {}, calls = [], anyFetch;
  // spec user -> object; user_properties only when something is in them (or sometimes empty)
  const obj = (u) => {
    const o = {};
    for (const f of fields) if (u[f] !== '~') {
      if (isProp(f)) (o.user_properties ??= {})[f] = real(u[f], f);
      else o[PATH[f]] = real(u[f], f);
    }
    return o;
  };
  const write = (o, f, v) => {
    if (isProp(f)) {
      if (v === '~') { if (o.user_properties) delete o.user_properties[f]; } else (o.user_properties ??= {})[f] = real(v, f);
    } else if (v === '~') delete o[PATH[f]];
    else o[PATH[f]] = real(v, f);
  };
  const un = (o, f) => {
    const at = isProp(f) ? o.user_properties ?? {} : o;
    const k = isProp(f) ? f : PATH[f];
    if (!(k in at)) return '~';
    const v = at[k];
    return v === null || v === undefined ? 'nil' : String(v).startsWith(LIB) ? 'L' : typeof v === 'string' ? v : `?${JSON.stringify(v)}`;
  };
  const spec = (o) => {
        const r = Object.fromEntries(fields.map((f) => [f, un(o, f)]));
    for (const k of Object.keys(o)) if (k !== 'user_properties' && !Object.values(PATH).includes(k)) r[`extra-${k}`] = '?';
    return r;
  };
  const wire = (o) => { const r = spec(o ?? {}); for (const f of fields) if (r[f] === 'nil' && !isProp(f)) r[f] = '~'; return r; };
  const integration = (i, setup, u) => {
    const st = (ints[i] = { u: obj(u) });
    return {
      type: 'integration', getUser: () => st.u, track: () => true,
      ...(setup ? { setup: (c, cl) => { calls.push({ c: cl === client && c ? 'setup' : 'bad-setup', i }); return new Promise((ok, no) => Object.assign(st, { ok, no })); } } : {}),
      teardown: async () => void calls.push({ c: 'teardown', i }),
    };
  };
  let n = 0;
  return {
    async step(a) {
      calls = [];
      const h = () => handles[a.h];
      switch (a.n) {
        case 'init': {
          const M = load(g);
          const cfg = {
            instanceName: 'inst', automaticExposureTracking: false, retryFetchOnFailure: false, pollOnStart: false,
            initialFlags: JSON.stringify(fields.map(probe)), userProvider: { getUser: () => prov },
            ...(a.cfg.web ? { internalInstanceNameSuffix: 'web' } : {}),
            get fetchOnStart() { return anyFetch; },
          };
          anyFetch = true;
          client = new M.ExperimentClient('client-apikey-123456', cfg);
          Object.defineProperty(client.config, 'fetchOnStart', { get: () => anyFetch });
          break;
        }
        case 'new': handles[a.h] = obj(a.u); break;
        case 'mutate': write(handles[a.h], a.f, a.v); break;
        case 'get': handles[a.h] = client.getUser() ?? undefined; break;
        case 'set': client.setUser(h()); break;
        case 'fetch': void client.fetch(h()); break;
        case 'start': anyFetch = a.fetch; void client.start(h()); client.stop(); break;
        case 'provider': prov = obj(a.u); break;
        case 'intUser': ints[a.i].u = obj(a.u); break;
        case 'attach': n++; client.addPlugin(integration(n, a.setup, a.u)); break;
        case 'settle': ints[a.i][a.ok ? 'ok' : 'no'](new Error('setup')); break;
      }
      await drain(2);
      const sent = net.drainSent().map((r) => ({ kind: r.kind === 'vardata' ? 'fetch' : r.kind, user: wire(r.user) }));
      for (const s of [...net.slots.keys()]) net.ok(s, JSON.parse('{}'));
      for (let i = 0; i < 2; i++) { await drain(); }
      const all = client.all();
      const ctx = Object.fromEntries(fields.map((f) => [f, all[`probe-${f}`]?.value ?? '~']));
      const u = client.getUser();
      return { user: u ? 'some' : 'none', fields: spec(u ?? {}), ctx, sent, calls };
    },
  };
}
