import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare({ flags }) {
  const load = await loadTag();
  return { create: async () => system(load, flags) };
}
const HOST = 'https://www.example.com', KEY = 'abcdef0123456789', SAVED = 'amp-preview-mode';
const text = (n) => (n.nodeType === 3 ? n.data : (n.childNodes ?? []).map(text).join('') + (n._text ?? ''));
function system(load, conf) {
  const flag = (f, served) => ({
    key: f.key, metadata: { evaluationMode: served ? 'local' : f.mode, flagType: 'experiment', deliveryMethod: 'web' }, segments: [{ variant: f.own }],
    variants: Object.fromEntries(['off', 'control', 'on', 't'].map((v) => [v, { key: v, value: v, ...(f.shows.includes(v) ? { payload: [{ action: 'mutate', data: { mutations: [{ selector: `${f.key} ${v}`, action: 'set', attribute: 'html', value: '1' }] } }] } : {}) }])),
  });
  const flags = conf.map((f) => flag(f));
  const pages = Object.fromEntries(conf.map((f) => [f.key, Object.fromEntries(f.pages.map((p, i) => [`p${i}`, pageObject(`p${i}`, p.by ? 'manual' : 'url_change', p.by ? { name: p.by } : {}, urlIs(...p.at.map((x) => HOST + x)))]))]));
  let tab = new Tab(load), page = null, calls = { configs: 0, flags: 0 }, imps;
  const settle = async () => { for (let i = 0; i < 4; i++) await drain(3); };
  const store = () => tab.storage('session', 'www.example.com');
  return {
    async step(a) {
      if (a.n === 'init') return {};
      calls = { configs: 0, flags: 0 };
      imps = new Set();
      switch (a.n) {
        case 'follow': {
          const q = new URLSearchParams([...a.link.keep, ...(a.link.on ? [['PREVIEW', a.link.on]] : []), ...a.link.ask]).toString();
          page = tab.open(HOST + a.path + (q ? `?${q}` : '') + '#top', {
            extra: { opener: null, experimentIntegration: { type: 'integration', getUser: () => ({}), setup: async () => {}, track: (e) => { imps.add(`${e.eventProperties.flag_key} ${e.eventProperties.variant ?? '~'}${/^\$impression$/.test(e.eventType) ? '' : e.eventType}`); return true; } } },
            fetch: async (url, o) => {
              const u = new URL(url);
              const reply = (b) => ({ status: 200, ok: true, text: async () => JSON.stringify(b), json: async () => b });
              if (u.pathname === '/web/v1/configs') { if (o.headers.Authorization !== `Api-Key ${KEY}`) throw new Error('not authorised'); calls.configs++; return reply({ flags, pageObjects: pages }); }
              calls.flags++;
              return reply(conf.map((f) => flag(f, true)));
            },
          });
          page.M.initialize(KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) }, {});
          break;
        }
        case 'nav': page.push(HOST + a.path); break;
        case 'toggle': page.g.webExperiment.toggleManualPageObject(a.name, a.on); break;
        case 'wait': await tab.clock.advance(600); break;
        case 'dismiss': [...page.doc._all()].find((x) => x.id === 'amp-preview-modal').querySelector('.amp-preview-modal-close').dispatchEvent(new page.Ev('click', { bubbles: true })); break;
        case 'lose': a.how === 'gone' ? store().removeItem(SAVED) : store().setItem(SAVED, a.how); break;
        case 'tab': tab.session.clear(); page = null; return [];
      }
      await settle();
      const c = page.g.webExperiment;
      const notices = [...page.doc._all()].filter((x) => x.id === 'amp-preview-modal');
      const rows = notices.flatMap((x) => x.querySelectorAll('.amp-preview-modal-row').map((r) => [text(r.querySelector('.amp-preview-modal-title')), text(r.querySelector('.amp-preview-modal-variant-badge'))]));
      const raw = store().getItem(SAVED);
      const saved = a.n === 'lose' ? [['*', raw ?? 'gone']] : raw === null ? [] : (() => { try { return Object.entries(JSON.parse(raw).previewFlags ?? {}); } catch { return []; } })();
      const u = new URL(page.url);
      return { imp_set: [...imps].map((x) => x.split(' ')), on_set: page.mutations.filter((m) => m.on).map((m) => m.m.selector.split(' ')), previewing: !!c?.isPreviewMode, saved_set: saved, notices: notices.length, rows_set: rows, ...calls,
        ...(a.n === 'follow' ? { left_set: [...u.searchParams] } : {}),
        ...(a.n === 'follow' && u.hash !== '#top' ? { hash: 'lost' } : {}), ...(c?.isRunning ? {} : { running: false }), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
