import { loadTag, Tab, drain } from '../lib/tag.mjs';
export async function prepare(options) {
  const load = await loadTag();
  return { create: async () => system(load, options.sites) };
}
const DAY = 86400000;
const slice = (k) => k.slice(0, 10), last = (k) => k.slice(-6);
const LOCAL = { id: (k) => `EXP_${slice(k)}`, dup: (k) => `EXP_${slice(k)}_DEFAULT_USER_PROVIDER`, events: (k) => `EXP_${slice(k)}_rtbt_events`, mktg: (k) => `EXP_MKTG_${slice(k)}`,
  unsent: (k, i) => `EXP_unsent_${i}`, other: () => 'unrelated', 'unsent-elsewhere': () => 'EXP_unsent_elsewhere' };
const SESSION = { dup: LOCAL.dup, redirect: (k) => `EXP_${slice(k)}_REDIRECT`, marker: (k) => `EXP_${slice(k)}_REDIRECT_MARKER`, suppressed: (k) => `EXP_${slice(k)}_REDIRECT_SUPPRESSED`,
  cache: (k, i) => `amp-exp-${i}-web-${last(k)}`, flags: (k, i) => `amp-exp-${i}-web-${last(k)}-flags`, options: (k, i) => `amp-exp-${i}-web-${last(k)}-variants-options`,
  sent3: (k, i) => `EXP_sent_v3_${i}`, sent2: (k, i) => `EXP_sent_v2_${i}`, sent1: (k, i) => `EXP_sent_${i}`, other: () => 'unrelated', 'sdk-cache': (k, i) => `amp-exp-${i}-${last(k)}`, preview: () => 'amp-preview-mode' };
const COOKIE = { identity: (k) => `EXP_${slice(k)}_identity`, session: (k) => `EXP_${slice(k)}_rtbt_session`, mktg: (k) => `AMP_MKTG_ORIGINAL_${slice(k)}`, redirect: (k) => `EXP_${slice(k)}_REDIRECT`, erased: (k) => `EXP_${slice(k)}_erased`,
  other: () => 'unrelated', 'analytics-mktg': (k) => `AMP_MKTG_${slice(k)}` };
const b64 = (v) => btoa(encodeURIComponent(JSON.stringify(v)));
function system(load, sites) {
  let tab = null, page = null, cur = null, ids = new Map(), resent = false;
  // the names the specification uses, by storage key
  const names = { local: {}, session: {}, cookie: {} };
  for (const k of sites.keys) for (const i of sites.insts) {
    const reg = (m, out, both, inst) => { for (const [n, f] of Object.entries(m)) out[f(k, i)] = { n, k: inst.includes(n) || ['other', 'unsent-elsewhere', 'preview'].includes(n) ? '' : k, i: inst.includes(n) || both.includes(n) ? i : '' }; };
    reg(LOCAL, names.local, [], ['unsent']);
    reg(SESSION, names.session, ['cache', 'flags', 'options', 'sdk-cache'], ['sent3', 'sent2', 'sent1']);
    reg(COOKIE, names.cookie, [], []);
  }
  const things = () => {
    const out = [];
    for (const kind of ['local', 'session']) for (const [h, st] of tab[kind]) for (const key of st._m.keys()) out.push({ w: kind, at: h, x: 0, ...(names[kind][key] ?? { n: key, k: '?', i: '?' }) });
    tab.jar.visible('');
    for (const c of tab.jar.cookies) out.push({ w: c.hostOnly ? 'host' : 'domain', at: c.domain, x: 0, ...(names.cookie[c.name] ?? { n: c.name, k: '?', i: '?' }) });
    return out;
  };
  const ord = (v) => { if (v === undefined) return '~'; if (!ids.has(v)) ids.set(v, ids.size + 1); return ids.get(v); };
  const content = (t, id) => {
    if (t.w === 'local') {
      if (t.n === 'id') return { web_exp_id: id };
      if (t.n === 'events') return { events: [{ uuid: 'seeded', id: 1, event_type: 'seen', timestamp: tab.clock.now, session_id: 'old', properties: {} }], nextId: 2 };
      if (t.n === 'dup') return { first_seen: '1' };
      if (t.n === 'mktg') return { utm_source: 'old' };
      if (t.n.startsWith('unsent')) return [{ eventType: '$exposure', eventProperties: { flag_key: 'seeded', variant: 'on' } }];
    }
    if (t.n === 'preview') return { previewFlags: { zz: 'on' } };
    return {};
  };
  const running = async () => { for (let i = 0; i < 4; i++) await drain(3); await tab.clock.advance(3000); };
  return {
    async step(a) {
      if (a.n === 'load' || a.n === 'decide') resent = a.n === 'decide' && resent;
      switch (a.n) {
        case 'init': return {};
        case 'open':
          tab = new Tab(load, { refuseDomains: sites.sites[a.site - 1].flatMap((h) => [...h.refused]) });
          break;
        case 'seed':
          tab.close(); page = null;
          if (a.things.some((t) => t.w === 'local' && t.n === 'id')) ids.set('seed-' + a.id, a.id);
          for (const t of a.things) tab.storage(t.w, t.at).setItem((t.w === 'local' ? LOCAL : SESSION)[t.n](t.k, t.i), JSON.stringify(content(t, 'seed-' + a.id)));
          break;
        case 'cookies':
          tab.close(); page = null;
          for (const t of a.things) {
            const v = t.n === 'identity' ? b64(JSON.stringify({ web_exp_id_v2: 'seed-' + a.id, first_seen: '1' })) : t.n === 'session' ? encodeURIComponent('{}') : b64({});
            if (t.n === 'identity') ids.set('seed-' + a.id, a.id);
            tab.jar.set(a.h, `${COOKIE[t.n](t.k)}=${v}; path=/${t.w === 'domain' ? `; domain=.${t.at}` : ''}`);
          }
          break;
        case 'load': {
          cur = a;
          page = tab.open(`https://${a.h}/`, { fetch: () => Promise.reject(new Error('no network')) });
          page.g.experimentIntegration = { type: 'integration', getUser: () => ({}), setup: async () => {}, track: (e) => { if (e.eventProperties?.flag_key === 'seeded') resent = true; return true; } };
          if (a.before !== '~') { page.g.webExperiment?.setConsentStatus(a.before); if (!page.g.webExperiment) page.M.setConsentStatus(a.before); }
          page.M.initialize(a.k, { initialFlags: '[]', pageObjects: '{}', behavioralTargetingRules: JSON.stringify({ f: { r: [[{ condition: { type: 'behavior', event_type: 'seen', op: 'greater or equal', value: 1, time_type: 'rolling', time_value: 100000, interval: 'day' } }]] } }) },
            { ...(a.i === '$default_instance' ? {} : { instanceName: a.i }), ...(a.req || a.cfg !== '~' ? { consentOptions: { ...(a.req ? { consentRequired: true } : {}), ...(a.cfg === '~' ? {} : { consentStatus: a.cfg }) } } : {}) });
          if (!a.req || (a.before === '~' ? a.cfg : a.before) === 'granted') await running();
          break;
        }
        case 'decide': {
          const ran = page.g.webExperiment && !page.g.webExperiment.isStub;
          if (page.g.webExperiment) page.g.webExperiment.setConsentStatus?.(a.v); else page.M.setConsentStatus(a.v);
          if (ran && !page.g.webExperiment.setConsentStatus) page.M.setConsentStatus(a.v);
          if (!ran && a.v === 'granted') await running();
          break;
        }
        case 'settle': await running(); break;
        case 'wait': tab.close(); page = null; await tab.clock.advance(a.days * DAY); break;
      }
      const c = page?.g.webExperiment;
      const runs = c && !c.isStub;
      const user = runs ? c.getExperimentClient().getUser() : {};
      return { things_between: things(), who: runs ? { v1: ord(user.web_exp_id), v2: ord(user.web_exp_id_v2) } : { v1: 0, v2: 0 }, recalls: user.behavioral_targeting?.includes('r') ? 'yes' : 'no', resent: runs && resent ? 'yes' : 'no', ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
