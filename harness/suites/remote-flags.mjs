import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const HOST = 'https://www.example.com';
const when = (prop, value) => [[{ selector: prop, op: 'is', values: [value] }]];
function flag({ k, mode, val, dep, block }) {
  const variant = (key) => ({ key, value: key, payload: [{ action: 'mutate', data: { mutations: [{ selector: `${k} ${key}`, action: 'set', attribute: 'html', value: '1' }] } }] });
  const segments = { user: [{ variant: 'a', conditions: when(['context', 'user', 'user_properties', 'known'], 'yes') }, { variant: 'off' }], dep: [{ variant: 'a', conditions: when(['result', dep, 'key'], 'a') }, { variant: 'off' }], none: [] }[val] ?? [{ variant: val }];
  return { key: k, metadata: { evaluationMode: mode, flagType: 'experiment', deliveryMethod: 'web', ...(block ? { blockingEvaluation: true } : {}) }, variants: { off: { key: 'off' }, a: variant('a'), b: variant('b') }, segments, ...(dep ? { dependencies: [dep] } : {}) };
}
const HOLD = { key: 'holdout-1', metadata: { evaluationMode: 'local', flagType: 'holdout-group' }, variants: { off: { key: 'off' } }, segments: [{ variant: 'off' }] };
function system(load) {
  const tab = new Tab(load);
  let page = null, known = false, ready = null, calls = 0;
  const sent = [], open = [];
  const settle = async () => { for (let i = 0; i < 5; i++) await drain(3); };
  const answer = (status, body) => { for (const c of open.splice(0)) c.ok({ status, text: async () => body }); };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      sent.length = 0; calls = 0;
      switch (a.n) {
        case 'load': {
          open.length = 0; known = !a.slow; ready = null;
          page = tab.open(HOST + a.url, { fetch: (url) => { if (!String(url).includes('/sdk/v2/flags')) throw new Error(url); calls++; return new Promise((ok, no) => open.push({ ok, no })); } });
          page.g.experimentIntegration = { type: 'integration', getUser: () => (known ? { user_properties: { known: 'yes' } } : {}), setup: () => (known ? Promise.resolve() : new Promise((r) => { ready = r; })), track: (e) => { sent.push(e); return true; } };
          const at = Object.fromEntries(a.conf.at);
          const pages = {};
          for (const k of [...new Set([...a.conf.flags.map((f) => f.k), 'x'])]) pages[k] = { p: pageObject('p' + k, 'url_change', {}, at[k] ? urlIs(HOST + at[k]) : undefined) };
          page.M.initialize('abcdef0123456789', { initialFlags: JSON.stringify([...a.conf.flags.map(flag), ...(a.conf.hold ? [HOLD] : [])]), pageObjects: JSON.stringify(pages) }, {});
          break;
        }
        case 'identity': known = true; ready?.(); break;
        case 'flags':
          if (a.how === 'down') for (const c of open.splice(0)) c.no(new TypeError('network'));
          else if (a.how === '500') answer(500, 'no');
          else answer(200, JSON.stringify(a.flags.map(flag)));
          break;
        case 'nav': page.push(HOST + a.url); break;
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      return { shown_set: page.mutations.filter((m) => m.on).map((m) => m.m.selector.split(' ')), exp_set: sent.map((e) => [e.eventProperties.flag_key, e.eventProperties.variant]), calls, running: !!page.g.webExperiment?.isRunning,
        hidden: page.doc.adoptedStyleSheets.some((x) => /visibility: hidden/.test(x.css)), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
