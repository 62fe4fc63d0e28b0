import { loadTag, Tab, pageObject, drain } from '../lib/tag.mjs';
export async function prepare() {
  const load = await loadTag();
  return { create: async () => system(load) };
}
const given = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined));
function config({ req, status, zone }) {
  const consentOptions = given({ consentRequired: req === '' ? undefined : req === 'yes', consentStatus: status === '' ? undefined : status });
  return given({ serverZone: zone || undefined, consentOptions: Object.keys(consentOptions).length ? consentOptions : undefined });
}
const flag = (key, v, mode, meta = {}) => ({
  key, metadata: { evaluationMode: mode, flagType: 'experiment', deliveryMethod: 'web', ...meta }, segments: [{ variant: 'on' }],
  variants: { off: { key: 'off' }, on: { key: 'on', value: 'on', payload: [{ action: 'mutate', data: { mutations: [{ selector: `${key} ${v}`, action: 'set', attribute: 'html', value: '1' }] } }] } },
});
const flags = (v, blocking) => [flag('L', v, 'local'), flag('r', v, 'remote', blocking ? { blockingEvaluation: true } : {})];
const pages = { L: { p: pageObject('p', 'url_change') }, r: { p: pageObject('p', 'url_change') } };
const runs = (ids) => { const q = []; for (const i of ids) { const l = q[q.length - 1]; if (l && l[1] + 1 === i) l[1] = i; else q.push([i, i]); } return q; };
function system(load) {
  let tab = null, page = null, plugin = null;
  const got = [], calls = [], open = { configs: [], flags: [] };
  const settle = async () => { for (let i = 0; i < 4; i++) await drain(3); };
  const reply = async (what, status, body) => { for (const c of open[what].splice(0)) c.ok({ status, text: async () => body }); };
  const fail = (what) => { for (const c of open[what].splice(0)) c.no(new TypeError('network')); };
  const fetch = (url) => {
    const u = new URL(url), what = u.pathname === '/web/v1/configs' ? 'configs' : u.pathname === '/sdk/v2/flags' ? 'flags' : u.pathname;
    calls.push([what, /\.eu\./.test(u.hostname) ? 'EU' : '']);
    return new Promise((ok, no) => { (open[what] ??= []).push({ ok, no }); });
  };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      got.length = calls.length = 0;
      switch (a.n) {
        case 'load': {
          tab = new Tab(load);
          let real;
          page = tab.open('https://www.example.com/' + (a.mode === 'preview' ? '?PREVIEW=true&L=on' : a.mode === 'editor' ? '?VISUAL_EDITOR=true' : ''), {
            fetch, extra: {
              experimentConfig: config(a.w), opener: { closed: false, postMessage() {} }, ...(a.mode === 'extension' ? { WebExperiment: { injectedByExtension: true } } : {}),
              experimentIntegration: { type: 'integration', getUser: () => ({}), setup: async () => {}, track: () => true },
            },
          });
          Object.defineProperty(page.g, 'webExperiment', { configurable: true, get: () => real, set: (x) => {
            real = x;
            if (x?.isStub || !x?.trackEvent) return;
            const inner = x.trackEvent;
            x.trackEvent = function (type, props) { got.push(props.i); return inner.call(this, type, props); };
          } });
          plugin = page.M.createPlugin();
          break;
        }
        case 'window': page.g.experimentConfig = config(a.w); break;
        case 'initialize': page.M.initialize('abcdef0123456789', { initialFlags: JSON.stringify(flags(a.i.v, a.i.blocking)), pageObjects: JSON.stringify(pages) }, config(a.i)); break;
        case 'consent': (page.g.webExperiment ?? page.M).setConsentStatus(a.to); break;
        case 'events': for (let i = 0; i < a.k; i++) await plugin.execute({ event_type: 'e', event_properties: { i: a.from + i } }); break;
        case 'configs':
          if (a.how === 'down') fail('configs');
          else if (a.how === '404') await reply('configs', 404, 'no');
          else if (a.how === 'junk') await reply('configs', 200, '<html>');
          else if (a.how === 'empty') await reply('configs', 200, '{}');
          else await reply('configs', 200, JSON.stringify({ flags: flags('p', a.how === 'blocking'), pageObjects: pages }));
          break;
        case 'flags':
          if (a.how === 'down') fail('flags');
          else if (a.how === '500') await reply('flags', 500, 'no');
          else await reply('flags', 200, JSON.stringify([{ ...flag('r', 's', 'local') }]));
          break;
        case 'again': {
          if (a.how === 'start') { void page.g.webExperiment.start(); break; }
          load(page.g).initialize('abcdef0123456789', { initialFlags: JSON.stringify(flags(a.i.v, a.i.blocking)), pageObjects: JSON.stringify(pages) }, { ...config(a.i), consentOptions: {} });
          break;
        }
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      const c = page.g.webExperiment;
      return { got: runs(got), calls: calls.map((x) => [...x]), on_set: page.mutations.filter((m) => m.on).map((m) => m.m.selector.split(' ')), up: !c ? 'none' : c.isStub ? 'stub' : 'client', running: !!c?.isRunning,
        hidden: page.doc.adoptedStyleSheets.some((x) => /visibility: hidden/.test(x.css)), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
