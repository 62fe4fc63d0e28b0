import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const PARAM = 'AMP_REDIRECT';
const host = (h) => `https://${h}.example.com`;
// names no trace can carry
const NAMES = { foreign: '\u65e5\u672c\u8a9e', accented: 'caf\u00e9' };
const NOWHERE = { h: '', p: '', q: [], f: '', amp: [] };
const query = (q) => (q.length ? '?' + q.map((e) => `${e.k}=${e.v}`).join('&') : '');
const address = (u) => host(u.h) + u.p + query(u.q) + u.f;
const carried = (u) => Object.keys(u.amp ?? {}).length;
// what an address says, the impressions it carries included
function read(href) {
  const u = new URL(href);
  const parts = (x) => ({ h: x.hostname.split('.')[0], p: x.pathname });
  const q = [];
  let amp = {};
  for (const [k, v] of u.searchParams) {
    if (k === PARAM) amp = Object.fromEntries(Object.entries(JSON.parse(atob(v))).map(([f, i]) => [f, { v: i.variantKey, b: parts(new URL(i.redirectUrl)) }]));
    else q.push({ k, v });
  }
  return { ...parts(u), q, f: u.hash, amp: Object.keys(amp).length ? amp : [] };
}
const idOf = (b) => b.h + b.p;
function configs(conf) {
  const flags = conf.flags.map((fl) => {
    const prop = ['context', 'user', 'user_properties', fl.key];
    const variants = { off: { key: 'off', value: 'off' }, control: { key: 'control', value: 'control' } };
    for (const [v, to] of Object.entries(fl.to)) variants[v] = { key: v, value: v, payload: [{ action: 'redirect', data: { url: address(to), ...(to.sc.length ? { metadata: { scope: to.sc.map(idOf) } } : {}) } }] };
    return { key: fl.key, variants, metadata: { evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web', experimentName: NAMES[fl.name] ?? fl.name, experimentKey: 'exp-' + fl.key },
      segments: [...Object.keys(variants).filter((v) => v !== 'off').map((v) => ({ variant: v, conditions: [[{ selector: prop, op: 'is', values: [v] }]] })),
        { variant: 'off', conditions: [[{ selector: prop, op: 'is not', values: ['nothing'] }]] }] };
  });
  const pages = Object.fromEntries(conf.flags.map((fl) => [fl.key, Object.fromEntries(fl.on.map((b) => [idOf(b), pageObject(idOf(b), 'url_change', {}, urlIs(host(b.h) + b.p))]))]));
  return [{ initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) }, { redirectConfig: { encodeRedirectInCookie: conf.cookie, encodeRedirectInUrl: conf.url } }];
}
function system(load) {
  let tab = null, page = null, conf = null, props = {}, told = [], seen = 0;
  const sent = [];
  const settle = async () => { for (let i = 0; i < 6; i++) await drain(3); };
  async function open(href, tag) {
    seen = 0;
    page = tab.open(href, { fetch: () => Promise.reject(new Error('no network')) });
    if (!tag) return;
    const me = page;
    me.g.experimentIntegration = { type: 'integration', getUser: () => ({ user_properties: { ...props } }), setup: async () => {}, track: (e) => { if (me.alive) sent.push(e); return true; } };
    // the site takes over redirects as soon as the client exists
    if (conf.handler !== 'no') {
      let client;
      Object.defineProperty(me.g, 'webExperiment', { configurable: true, get: () => client, set: (c) => { client = c; if (typeof c.setRedirectHandler === 'function') c.setRedirectHandler(handler(me)); } });
    }
    me.M.initialize('abcdef0123456789', ...configs(conf));
    await settle();
    if (!me.g.webExperiment?.isRunning) throw new Error(`did not start: ${tab.errors}`);
  }
  const handler = (me) => (to) => {
    told.push(to);
    if (new URL(to).host !== new URL(me.url).host) me.g.location.replace(to);
    else if (conf.handler === 'now') me.push(to);
  };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      sent.length = 0;
      told = [];
      switch (a.n) {
        case 'open':
          conf = a.conf;
          props = { ...a.assign };
          tab = new Tab(load);
          return { url: NOWHERE, exp_bag: [], went: [], told: [], supp_set: [] };
        case 'enter': await open(carried(a.url) ? page.url : address(a.url), true); break;
        case 'follow': await open(a.how === 'stripped' ? address(a.url) : a.how === 'sent back' ? page.url : page.leaving, a.how !== 'no tag'); break;
        case 'push': if (a.how === 'back') page.back(address(a.url)); else page.g.history[a.how === 'push' ? 'pushState' : 'replaceState'](null, '', address(a.url)); break;
        case 'arrive': page.push(address(a.url)); break;
        case 'touch': page.fire(page.doc.body, a.how); break;
        case 'apply': await page.g.webExperiment.applyVariants(); break;
        case 'wait': await tab.clock.advance(a.ms); break;
        case 'assign': props = { ...props, [a.f]: a.v }; break;
      }
      await settle();
      await tab.clock.advance(0);
      await settle();
      const went = page?.navigations.slice(seen) ?? [];
      seen += went.length;
      const host = page && new URL(page.url).hostname;
      const supp = host && page.g.webExperiment ? JSON.parse(tab.storage('session', host).getItem('EXP_abcdef0123_REDIRECT_SUPPRESSED') ?? '[]') : [];
      // wherever it is counted, an impression says which experiment and which kind it belongs to
      for (const { eventType, eventProperties: p } of sent)
        if (eventType !== '$impression' || p.experiment_key !== 'exp-' + p.flag_key || p.metadata?.experimentKey !== p.experiment_key || p.metadata.flagType !== 'experiment' || p.metadata.deliveryMethod !== 'web' || p.metadata.evaluationMode !== 'local') tab.errors.push(`impression ${eventType} ${JSON.stringify(p)}`);
      return { url: page ? read(page.url) : NOWHERE, exp_bag: sent.map((e) => ({ f: e.eventProperties.flag_key, v: e.eventProperties.variant })), went: went.map((x) => read(x.url)), told: told.map(read), supp_set: supp,
        ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
