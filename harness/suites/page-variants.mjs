import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const HOST = 'https://www.example.com';
const idOf = (f, v, id) => `${f}-${v}-${id}`;
function configs(conf) {
  const scope = (x) => (x.length === 1 && x[0] === '*' ? undefined : x);
  const action = (f, v) => (a) => {
    if (a.k === 'mutate') return { action: 'mutate', data: { mutations: a.ms.map((m) => ({ selector: JSON.stringify({ f, v, id: m.id }), action: 'set', attribute: 'html', value: '1', ...(scope(m.scope) ? { metadata: { scope: scope(m.scope) } } : {}) })) } };
    const me = JSON.stringify({ f, v, id: a.id });
    const js = { plain: `globalThis.__ran.push(${me});`, remover: `globalThis.__ran.push(${me}); utils.remove = () => globalThis.__rm.push(${me});`,
      throws: `globalThis.__ran.push(${me}); throw new Error('variant script');`, removerthrows: `utils.remove = () => globalThis.__rm.push(${me}); globalThis.__ran.push(${me}); throw new Error('variant script');` }[a.js];
    return { action: 'inject', data: { ...(a.js === 'badid' ? {} : { id: idOf(f, v, a.id) }), ...(js ? { js: `if (!html || html.id !== 'h-${a.id}' || id !== '${f}${v}${a.id}') globalThis.__ran.push('wrong arguments'); ${js}` } : {}),
      ...(a.css ? { css: `/*${me}*/` } : {}), html: `<div id="h-${a.id}"><p>x</p></div>`, ...(scope(a.scope) ? { scope: scope(a.scope) } : {}) } };
  };
  const flags = conf.flags.map((fl) => {
    const names = Object.keys(fl.does);
    const variants = Object.fromEntries(names.map((v) => {
      const acts = fl.does[v];
      const none = acts.length === 1 && acts[0].k === 'none';
      return [v, { key: v, value: v, ...(none ? (v === 'off' ? {} : { payload: { not: 'actions' } }) : { payload: acts.map(action(fl.key, v)) }) }];
    }));
    const prop = ['context', 'user', 'user_properties', fl.key];
    return { key: fl.key, variants, metadata: { evaluationMode: 'local', flagType: 'experiment', ...(fl.web ? { deliveryMethod: 'web' } : {}) },
      segments: [...names.filter((v) => v !== 'off').map((v) => ({ variant: v, conditions: [[{ selector: prop, op: 'is', values: [v] }]] })),
        { variant: 'off', conditions: [[{ selector: prop, op: 'is not', values: ['nothing'] }]] }] };
  });
  const pages = {};
  for (const p of conf.pages) (pages[p.f] ??= {})[p.id] = pageObject(p.id, p.trig, p.trig === 'manual' ? { name: p.name } : {}, p.urls.length ? urlIs(...p.urls.map((u) => HOST + u)) : undefined);
  return { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) };
}
function system(load) {
  let tab = null, page = null, props = {}, sent = [];
  const settle = async () => { for (let i = 0; i < 4; i++) await drain(3); };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      if (page) { page.g.__ran.length = 0; page.g.__rm.length = 0; }
      sent.length = 0;
      const c = page?.g.webExperiment;
      const fs = a.fs && (a.fs.includes('*all*') ? undefined : { flagKeys: a.fs });
      switch (a.n) {
        case 'load': {
          tab = new Tab(load);
          props = { ...a.assign };
          const pv = Object.entries(a.pv).filter(([, v]) => v !== '~').map(([f, v]) => `${f}=${v}`);
          const [query, hash] = a.q.startsWith('#') ? ['', a.q] : [a.q, ''];
          const extra = pv.length ? `${query ? '&' : '?'}PREVIEW=true&${pv.join('&')}` : '';
          page = tab.open(HOST + a.url + query + extra + hash, { fetch: () => Promise.reject(new Error('no network')) });
          page.g.__ran = [];
          page.g.__rm = [];
          page.g.experimentIntegration = { type: 'integration', getUser: () => ({ user_properties: { ...props } }), setup: async () => {}, track: (e) => { sent.push(e); return true; } };
          page.M.initialize('abcdef0123456789', configs(a.conf), {});
          await settle();
          await tab.clock.advance(2000);
          if (!page.g.webExperiment?.isRunning) throw new Error(`did not start: ${tab.errors}`);
          break;
        }
        case 'nav': {
          const to = HOST + a.url + a.q;
          if (a.how === 'back') page.back(to); else page.g.history[a.how === 'push' ? 'pushState' : 'replaceState'](null, '', to);
          break;
        }
        case 'burst':
          page.push(HOST + a.first.url + a.first.q);
          if (a.name !== '~') c.toggleManualPageObject(a.name, true); else page.push(HOST + a.then.url + a.then.q);
          break;
        case 'toggle': c.toggleManualPageObject(a.name, a.on); break;
        case 'assign': props = { ...props, [a.f]: a.v }; break;
        case 'apply': await (fs ? c.applyVariants(fs) : c.applyVariants()); break;
        case 'revert': fs ? c.revertVariants(fs) : c.revertVariants(); break;
        case 'preview': await c.previewVariants({ keyToVariant: { [a.f]: a.v } }); break;
      }
      await settle();
      await tab.clock.advance(5);
      const on = page.mutations.filter((m) => m.on).map((m) => JSON.parse(m.m.selector));
      const css = page.doc.adoptedStyleSheets.map((x) => /^\/\*(.*)\*\/$/.exec(x.css ?? '')?.[1]).filter(Boolean).map((x) => JSON.parse(x));
      const scripts = page.doc.querySelectorAll('script').map((x) => /__ran\.push\((\{[^{}]*\})\)/.exec(x.textContent)).map((m) => (m ? JSON.parse(m[1]) : 'someone else\'s'));
      const pages = [];
      for (const [f, ps] of Object.entries(page.g.webExperiment.getActivePages())) for (const id of Object.keys(ps)) pages.push({ f, id });
      return { muts_bag: on, css_bag: css, scripts_bag: scripts, ran_bag: [...page.g.__ran], rm_bag: [...page.g.__rm], exp_bag: sent.map((e) => ({ f: e.eventProperties.flag_key, v: e.eventProperties.variant })),
        experiments_bag: page.g.webExperiment.getActiveExperiments(), pages_bag: pages, ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
