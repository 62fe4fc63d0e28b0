import { loadBrowser, makeGlobal, drain, Net, FakeStorage, VClock, CookieJar } from '../lib/browser.mjs';
const HOST = 'https://www.example.com';
const render = (p) => HOST + p.p + (p.slash ? '/' : '') + (p.q.length ? '?' + p.q.map((x) => `${x.k}=${x.vs.join(',')}`).join('&') : '');
const KEY = 'client-abcdef123456';
const REC = 'EXP_client-abc_DEFAULT_USER_PROVIDER';
export async function prepare({ pages, cookies, names }) {
  const load = await loadBrowser();
  const all = [...pages, ...pages.map((p) => ({ ...p, slash: !p.slash }))].map((p) => [render(p), p]);
  return { create: async () => system(load, new Map(all), cookies, names) };
}
// a flag that answers with the one of the values which the selector's value is
const is = (key, selector, values, op = 'is') => ({
  key, metadata: { evaluationMode: 'local' }, variants: Object.fromEntries(values.map((v, i) => [`v${i}`, { key: `v${i}`, value: v }])),
  segments: values.map((v, i) => ({ conditions: [[{ selector, op, values: [v] }]], variant: `v${i}` })),
});
function system(load, pages, cookies, names) {
  const clock = new VClock(), jar = new CookieJar(clock), local = new FakeStorage();
  const t0 = clock.now;
  let session, g, net, client, prov, PARAMS = [...new Set([...pages.values()].flatMap((p) => p.q.filter((x) => x.k === 'x').flatMap((x) => x.vs)))];
  const user = (u) => {
    const o = {};
    for (const [k, v] of Object.entries(u.f)) if (v !== '~') o[k] = v === 'null' ? (k.length % 2 ? null : undefined) : v;
    if (u.groups.length) o.groups = Object.fromEntries(u.groups.map((x) => [x.t, x.names]));
    for (const x of u.gp) ((o.group_properties ??= {})[x.t] ??= {})[x.name] = { plan: x.plan };
    return o;
  };
  const setUrl = (p) => { const u = new URL(render(p)); Object.assign(g.location, { href: render(p), search: u.search, pathname: u.pathname }); };
  const field = (f, o, given) => {
    if (!(f in o) || o[f] === undefined || o[f] === null) return { is: 'none' };
    if (o[f] === given[f]) return { is: 'given', g: o[f] };
    if (f === 'landing_url') return { is: 'some', v: pages.get(o[f]) ?? o[f] };
    if (f === 'first_seen') return typeof o[f] === 'string' ? { is: 'some', v: Math.round(Number(o[f]) * 1000 - t0) } : { is: 'not text' };
    return { is: 'own', o: o[f] };
  };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      switch (a.n) {
        case 'load': {
          if (a.fresh) session = new FakeStorage();
          if (a.fresh && this.tm) Object.assign(session._f, this.tm);
          g = makeGlobal({ clock, jar, localStorage: local, sessionStorage: session, href: HOST + '/' });
          g.navigator = { userAgent: a.agent.ua, language: a.agent.lang1, ...(a.agent.langs.length ? { languages: a.agent.langs } : {}) };
          g.document.referrer = a.ref;
          setUrl(a.page);
          net = new Net(clock, () => 1e12);
          g.fetch = net.fetch;
          const M = load(g);
          prov = a.prov;
          this.user = a.user;
          const urls = [...pages.keys()];
          client = M.Experiment.initialize(KEY, {
            automaticExposureTracking: false, pollOnStart: false, retryFetchOnFailure: false, userProvider: { getUser: () => user(prov) },
            initialFlags: JSON.stringify([is('page', ['context', 'page', 'url'], urls), is('landing', ['context', 'user', 'landing_url'], urls), is('cookie', ['context', 'user', 'cookie', 'c1'], cookies),
              ...['company', 'team'].flatMap((t) => [is(t, ['context', 'groups', t, 'group_name'], names), is(t + '-plan', ['context', 'groups', t, 'group_properties', 'plan'], ['free', 'paid'])]),
              ...PARAMS.map((v) => { const a = is('x-' + v, ['context', 'user', 'url_param', 'x'], [v], 'set contains any'), b = is('', ['context', 'user', 'url_param', 'x'], [v]); return { ...a, segments: [...a.segments, ...b.segments] }; })]),
          });
          client.setUser(user(a.user));
          break;
        }
        case 'nav': setUrl(a.page); break;
        case 'user': this.user = a.user; client.setUser(user(a.user)); break;
        case 'prov': prov = a.prov; break;
        case 'cookie': jar.set('www.example.com', `${a.name}=${a.v === '~' ? '; max-age=0' : a.v}`); break;
        case 'wait': await clock.advance(a.ms); break;
        case 'mode': {
          const f = { set: a.m !== 'ok', get: a.m === 'blocked', del: a.m === 'blocked' };
          if (a.of === 'tm') this.tm = f;
          Object.assign((a.of === 'tm' ? session : local)._f, f);
          break;
        }
        case 'harm': {
          const st = a.of === 'tab' ? session : local;
          if (a.how === 'gone') st._m.delete(REC); else st._m.set(REC, a.how);
          break;
        }
      }
      const set = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== null && v !== undefined));
      const given = { ...set(user(prov)), ...set(user(this.user)) };
      const all = client.all();
      const val = (k) => all[k]?.value;
      void client.fetch().catch(() => {});
      await drain(3);
      const sent = net.drainSent().filter((r) => r.kind === 'vardata');
      for (const k of [...net.slots.keys()]) net.ok(k, {});
      await drain(2);
      // cookies go into targeting only
      const o = sent[0]?.user ?? {};
      const full = client.getUserProvider().getUser();
      const target = { page: pages.get(val('page')) ?? '~', company: { name: val('company'), plan: val('company-plan') }, team: { name: val('team'), plan: val('team-plan') },
        cookie_set: val('cookie') === undefined ? [] : [val('cookie')], landing: val('landing') ? (val('landing') === given.landing_url ? { is: 'given', g: val('landing') } : { is: 'some', v: pages.get(val('landing')) }) : field('landing_url', o, given)};
      const F = ['language', 'country', 'platform', 'os', 'device_model', 'device_category', 'browser', 'referring_url', 'landing_url', 'first_seen'];
      return {
        requests: sent.length === 1 ? undefined : sent.length, leaked: 'cookie' in o ? true : undefined,
        fields: Object.fromEntries(F.map((f) => [f, field(f, o, given)])),
        params: Object.fromEntries(Object.entries(o.url_param ?? {}).map(([k, v]) => [k, Array.isArray(v) ? v : [v]])),
        cookies: Object.entries(full.cookie ?? {}).map(([n, v]) => ({ n, v })),
        groups: Object.entries(o.groups ?? {}).map(([t, n]) => ({ t, names: n })),
        plans: Object.entries(o.group_properties ?? {}).flatMap(([t, x]) => Object.entries(x).map(([name, y]) => ({ t, name, plan: y.plan }))),
        target: { ...target, param_set: PARAMS.filter((v) => val('x-' + v) !== undefined) },
      };
    },
  };
}
