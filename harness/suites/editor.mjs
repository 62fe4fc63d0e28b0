import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare({ sources, origins, records, first }) {
  const load = await loadTag();
  return { create: async () => system(load, sources, origins, records, first) };
}
const HOST = 'https://www.example.com', KEY = 'abcdef0123456789', SESSION = 'visual-editor-state';
const pagesOf = (set) => { const o = {}; for (const p of set) (o[p.flag] ??= {})[p.page] = pageObject(p.page, 'url_change', {}, urlIs(...p.at.map((x) => HOST + x))); return o; };
function system(load, sources, origins, records, first) {
  const flags = [{ key: 'f', metadata: { evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web' }, segments: [{ variant: 'on' }],
    variants: { off: { key: 'off' }, on: { key: 'on', value: 'on', payload: [{ action: 'mutate', data: { mutations: [{ selector: 'f', action: 'set', attribute: 'html', value: '1' }] } }] } } }];
  let tab = new Tab(load), page = null, seen = new Set(), strange = [];
  const settle = async () => { for (let i = 0; i < 4; i++) await drain(3); };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      strange = [];
      switch (a.n) {
        case 'open': {
          const q = [...(a.param ? [`VISUAL_EDITOR=${a.param}`] : []), ...(a.preview ? ['PREVIEW=true', 'f=on'] : ['keep=1'])].join('&');
          tab.session.get('www.example.com')?.removeItem('amp-preview-mode');
          const extra = { experimentIntegration: { type: 'integration', getUser: () => ({}), setup: async () => {}, track: () => true } };
          if (a.opener === 'ok') extra.opener = { closed: false, postMessage() {} };
          else if (a.opener === 'closed') extra.opener = { closed: true };
          else if (a.opener === 'null') extra.opener = null;
          page = tab.open(`${HOST}${a.path}?${q}`, { extra, fetch: async (url) => {
            if (new URL(url).pathname !== '/web/v1/configs') { strange.push(`asked ${url}`); return new Promise(() => {}); }
            const b = { flags, pageObjects: pagesOf(first) };
            return { status: 200, ok: true, text: async () => JSON.stringify(b), json: async () => b };
          } });
          if (a.opener === 'throws') Object.defineProperty(page.g, 'opener', { configurable: true, get() { return { get closed() { throw new Error('opaque'); } }; } });
          const n = page.doc.createElement('meta');
          n.setAttribute('nonce', 'n0');
          page.doc.head.appendChild(n);
          seen = new Set();
          page.M.initialize(KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pagesOf(first)) }, {});
          break;
        }
        case 'store': { const st = tab.storage('session', 'www.example.com'), v = records[a.rec]; v === null ? st.removeItem(SESSION) : st.setItem(SESSION, v); break; }
        case 'message': page.g.dispatchEvent(Object.assign(new page.Ev('message', {}), { origin: origins[a.origin], data: { type: a.type, context: { injectSrc: sources[a.src], amplitudeWindowUrl: 'https://app.amplitude.com' } }, source: {} })); break;
        case 'loaded': { const l = page.doc.querySelectorAll('script').filter((x) => x.src && !x._over); l[l.length - 1]._over = true; l[l.length - 1].dispatchEvent(new page.Ev(a.ok ? 'load' : 'error', {})); break; }
        case 'hide': page.g.webExperiment.hideLoadingIndicator(); break;
        case 'pages': page.g.webExperiment.setPageObjects(pagesOf(a.set)); break;
        case 'nav': page.push(`${HOST}${a.path}?keep=1`); break;
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      const c = page?.g.webExperiment;
      if (!c) return { up: false };
      const fresh = page.doc.querySelectorAll('script').filter((x) => x.src && !seen.has(x));
      for (const x of fresh) {
        seen.add(x);
        // as the browser makes out the address
        const u = new URL(x.src, page.url);
        if (u.protocol !== 'https:' || !u.hostname.endsWith('.amplitude.com')) strange.push(`script from ${u}`);
        if (x.getAttribute('nonce') !== 'n0') strange.push('script without the nonce of the page');
      }
      const all = [...page.doc._all()], u = new URL(page.url);
      if (a.n === 'open' && c.isRunning && a.param !== 'false' && (u.search !== (a.preview ? '' : '?keep=1'))) strange.push(`address ${u}`);
      const active = Object.entries(c.getActivePages()).flatMap(([f, ps]) => Object.keys(ps).map((p) => [f, p]));
      const d = c.getDebugState();
      return { up: true, scripts: fresh.length, loading: all.filter((x) => x.id === 'amp-exp-loading').length, on_set: page.mutations.filter((m) => m.on).map((m) => m.m.selector), running: !!c.isRunning,
        banner: all.filter((x) => x.id === 'amp-exp-opener-severed').length, active_set: active, editing: d.visualEditor.isActive, debug: d.visualEditor.messengerState,
        ...(strange.length ? { strange } : {}), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
