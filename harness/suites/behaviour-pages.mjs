import { loadTag, Tab, pageObject, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const KEY = 'abcdef0123456789', ORIGIN = 'https://cdn.amplitude.com';
const cond = (type, op, value, negated) => ({ condition: { type: 'behavior', event_type: type, op, value, time_type: 'rolling', time_value: 2000, interval: 'day' }, ...(negated ? { negated } : {}) });
const RULES = {
  some: [[cond('see', 'greater or equal', 1)]], two: [[cond('see', 'greater or equal', 2)]], once: [[cond('see', 'is', 1)]],
  lost: [[cond('see', 'greater or equal', 1), cond('buy', 'greater or equal', 1, true)]], never: [[cond('buy', 'less', 1)]],
  both: [[cond('see', 'greater or equal', 1), cond('buy', 'greater or equal', 1)]], either: [[cond('see', 'greater or equal', 2)], [cond('buy', 'greater or equal', 1)]],
};
const variants = (key) => ({ off: { key: 'off' }, on: { key: 'on', value: 'on', payload: [{ action: 'mutate', data: { mutations: [{ selector: key, action: 'set', attribute: 'html', value: '1' }] } }] } });
const flag = (f, served) => ({
  key: f.key, metadata: { evaluationMode: served ? 'local' : f.mode, flagType: 'experiment', deliveryMethod: 'web' }, variants: variants(f.key),
  segments: f.id === '-' ? [{ variant: 'on' }] : [{ variant: 'on', conditions: [[{ selector: ['context', 'user', 'behavioral_targeting'], op: 'set contains any', values: [f.id] }]] }, { variant: 'off' }],
});
function system(load) {
  let tab = null, page = null, conf = [], asked = 0, open = [], writes = new Set(), others = [], read = null, seen = true, n = 0;
  const settle = async () => { for (let i = 0; i < 5; i++) await drain(3); };
  const frame = () => page.doc.querySelectorAll('iframe').find((x) => /relay\.html/.test(x.src ?? x.getAttribute('src') ?? ''));
  const say = (win, data) => page.g.dispatchEvent(Object.assign(new page.Ev('message', {}), { data, origin: ORIGIN, source: win }));
  const posted = (win, m, origin) => {
    if (origin !== ORIGIN) throw new Error(`relay request sent to ${origin}`);
    const ok = (payload) => queueMicrotask(() => say(win, { requestId: m.requestId, ok: true, payload }));
    switch (m.type) {
      case 'CHECK_MIGRATED': return ok({ migrated: seen });
      case 'MIGRATE_EVENTS': for (const e of m.payload.store.events) if (/^far/.test(e.uuid) === false) writes.add(e.uuid); return ok();
      case 'WRITE_EVENT': if (!/^far/.test(m.payload.event.uuid)) writes.add(m.payload.event.uuid); return ok();
      case 'READ_EVENTS': read = { win, id: m.requestId }; return undefined;
    }
    throw new Error(`relay was asked ${m.type}`);
  };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      asked = 0;
      tab ??= new Tab(load);
      switch (a.n) {
        case 'open': {
          if (page) page.fire(page.g, 'beforeunload');
          conf = a.flags; open = []; read = null;
          const rules = {}, flags = conf.map((f) => flag(f));
          for (const f of conf) if (f.id !== '-') rules[f.key] = { [f.id]: RULES[f.kind] };
          const pages = Object.fromEntries(conf.map((f) => [f.key, { p: pageObject('p', 'url_change') }]));
          tab.session.clear(); // a preview lasts for its page only
          page = tab.open('https://www.example.com/a' + (a.pre_set.length ? '?PREVIEW=true' + a.pre_set.map((k) => `&${k}=on`).join('') : ''), {
            extra: { opener: null, experimentIntegration: { type: 'integration', getUser: () => ({}), setup: async () => {}, track: () => true } },
            fetch: (url) => {
              const u = new URL(url);
              if (u.pathname === '/web/v1/configs') return Promise.resolve({ ok: true, status: 200, text: async () => JSON.stringify({ flags, pageObjects: pages, behavioralTargetingRules: rules }), json: async () => ({ flags, pageObjects: pages, behavioralTargetingRules: rules }) });
              if (u.pathname !== '/sdk/v2/flags') throw new Error(`asked ${url}`);
              asked++;
              return new Promise((ok, no) => open.push({ ok, no }));
            },
          });
          const make = page.doc.createElement;
          page.doc.createElement = function (tag) { const el = make.call(this, tag); if (/^iframe$/i.test(tag)) { const win = { postMessage: (m, o) => posted(win, JSON.parse(JSON.stringify(m)), o) }; el.contentWindow = win; } return el; };
          page.M.initialize(KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages), ...(Object.keys(rules).length ? { behavioralTargetingRules: JSON.stringify(rules) } : {}) }, {});
          break;
        }
        case 'flags': {
          const q = open; open = [];
          for (const c of q) a.how === 'down' ? c.no(new TypeError('network')) : a.how === '500' ? c.ok({ status: 500, text: async () => 'no' }) : c.ok({ status: 200, text: async () => JSON.stringify(conf.map((f) => flag(f, true))) });
          break;
        }
        case 'track': case 'both': for (const y of a.ys) page.g.webExperiment.trackEvent(y, { x: 1 }); break;
        case 'elsewhere': others.push({ uuid: `far${others.length}`, id: others.length, event_type: a.y, timestamp: tab.clock.now - 1000, session_id: 'elsewhere', properties: {} }); break;
        case 'ready': seen = a.seen; if (frame()) say(frame().contentWindow, n++ % 2 ? 'AMP_RELAY_READY' : { type: 'AMP_RELAY_READY' }); break;
        case 'reads': if (read) say(read.win, a.how === 'ok' ? { requestId: read.id, ok: true, payload: { events: others, nextId: 99 } } : { requestId: read.id, ok: false, error: 'no' }); read = null; break;
        case 'nav': page.push(`https://www.example.com${a.u}?n=${n++}`); break;
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      const c = page?.g.webExperiment;
      if (!c) return { up: false };
      const on = page.mutations.filter((m) => m.on).map((m) => m.m.selector);
      const user = c.getExperimentClient?.().getUser?.() ?? c.experimentClient?.getUser?.();
      const ids = user?.behavioral_targeting;
      return { up: true, on_between: on, user_set: ids === undefined ? ['none'] : ids, frame: page.doc.querySelectorAll('iframe').length, asked, told: writes.size,
        ...(new Set(on).size !== on.length ? { twice: on } : {}), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
