import { loadTag, Tab, pageObject, urlIs, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const HOST = 'https://www.example.com';
const BOX = { e1: [100, 100], e2: [120, 50], e3: [1500, 400] };
const given = (n) => (n >= 0 ? n : undefined);
const on = (prop, op, ...values) => ({ selector: ['context', 'data', ...prop], op, values });
const TRIGGER = {
  url: () => ['url_change', {}],
  manual: (p) => ['manual', { name: p.a }],
  event: (p) => ['analytics_event', [[on(['event'], 'is', p.a), ...(p.n >= 0 ? [on(['properties', 'size'], 'is', String(p.n))] : [])]]],
  appeared: (p) => ['element_appeared', { selector: p.a }],
  visible: (p) => ['element_visible', { selector: p.a, visibilityRatio: p.n >= 0 ? p.n / 100 : undefined }],
  act: (p) => ['user_interaction', { selector: p.a, interactionType: p.m, minThresholdMs: given(p.n) }],
  exit: (p) => ['exit_intent', { minTimeOnPageMs: given(p.n) }],
  time: (p) => ['time_on_page', { durationMs: p.n }],
  scroll: (p) => ['scrolled_to', p.m === 'percent' ? { mode: 'percent', percentage: p.n } : { mode: 'element', selector: p.a, offsetPx: given(p.n) }],
};
function configs(conf) {
  const keys = [...new Set(conf.pages.map((p) => p.f))];
  const flags = keys.map((key) => ({
    key, metadata: { evaluationMode: 'local', flagType: 'experiment', deliveryMethod: 'web' },
    variants: { off: { key: 'off' }, on: { key: 'on', value: 'on', payload: [{ action: 'mutate', data: { mutations: [{ selector: key, action: 'set', attribute: 'html', value: '1' }] } }] } },
    segments: [{ variant: 'on', conditions: [[{ selector: ['context', 'user', 'user_properties', 'known'], op: 'is', values: ['yes'] }]] }, { variant: 'off' }],
  }));
  const pages = {};
  for (const p of conf.pages) (pages[p.f] ??= {})[p.id] = pageObject(p.id, ...TRIGGER[p.t](p), p.urls.length ? urlIs(...p.urls.map((u) => HOST + u)) : undefined);
  return { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(pages) };
}
function system(load) {
  let tab = null, page = null, told = 0;
  const sent = [], els = {};
  const settle = async () => { for (let i = 0; i < 5; i++) await drain(3); };
  function build(e, off) {
    const doc = page.doc;
    const make = (id, cls, tag) => { const x = doc.createElement(tag); x._attr.set('id', id); x._attr.set('class', cls); x._box = { top: BOX[id][0], height: BOX[id][1] }; if (off.includes(id)) x.style.display = 'none'; return (els[id] = x); };
    const x = make(e, 'x', 'div');
    if (e === 'e1') x.appendChild(make('e2', 'y', 'span'));
    doc.body.appendChild(x);
  }
  const el = (e) => (e === 'none' ? page.doc.body : els[e]);
  return {
    async step(a) {
      if (a.n === 'init') return {};
      sent.length = 0;
      told = 0;
      switch (a.n) {
        case 'load':
          tab = new Tab(load);
          page = tab.open(HOST + a.url[0] + a.url[1], { fetch: () => Promise.reject(new Error('no network')) });
          page.doc.documentElement.scrollHeight = 3000;
          page.doc.hidden = a.hidden;
          for (const e of a.there) build(e, a.off);
          page.g.experimentIntegration = { type: 'integration', getUser: () => ({ user_properties: { known: 'yes' } }), setup: async () => {}, track: (e) => { sent.push(e); return true; } };
          page.M.initialize('abcdef0123456789', configs(a.conf), {});
          await settle();
          if (!page.g.webExperiment?.isRunning) throw new Error(`did not start: ${tab.errors}`);
          page.g.webExperiment.addPageChangeSubscriber(() => { told++; });
          break;
        case 'nav': if (a.how === 'back') page.back(HOST + a.url.join('')); else page.g.history[a.how === 'push' ? 'pushState' : 'replaceState'](null, '', HOST + a.url.join('')); break;
        case 'toggle': page.g.webExperiment.toggleManualPageObject(a.name, a.on); break;
        case 'event': page.g.webExperiment.trackEvent(a.name, { size: a.size }); break;
        case 'add': build(a.e, a.hide === 'self' ? [a.e] : a.hide === 'part' ? ['e2'] : []); break;
        case 'remove': els[a.e].remove(); break;
        case 'show': els[a.e].style.display = a.on ? '' : 'none'; break;
        case 'scroll': page.scroll(a.y); break;
        case 'click': page.fire(el(a.e), 'click'); break;
        case 'hover':
          page.fire(el(a.from), 'mouseout', { relatedTarget: el(a.e) });
          page.fire(el(a.e), 'mouseover', { relatedTarget: el(a.from) });
          break;
        case 'focus':
          if (a.from !== 'none') page.fire(el(a.from), 'focusout', { relatedTarget: a.e === 'none' ? null : el(a.e) });
          if (a.e !== 'none') page.fire(el(a.e), 'focusin', { relatedTarget: a.from === 'none' ? null : el(a.from) });
          break;
        case 'exit': page.fire(page.doc, 'mouseleave', { clientY: a.y, relatedTarget: a.to === 'none' ? null : page.doc.body, bubbles: false }); break;
        case 'hide': page.doc.hidden = a.on; page.fire(page.doc, 'visibilitychange'); break;
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      const pages = [];
      for (const ps of Object.values(page.g.webExperiment.getActivePages())) pages.push(...Object.keys(ps));
      return { muts_set: page.mutations.filter((m) => m.on).map((m) => m.m.selector), exp_set: sent.map((e) => e.eventProperties.flag_key + (e.eventProperties.variant === 'on' ? '' : ` (${e.eventProperties.variant})`)),
        pages_set: pages, told, notified: told > 0, ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
