import { loadTag, Tab, pageObject, drain } from '../lib/tag.mjs';
export async function prepare({ sources }) {
  const load = await loadTag();
  return { create: async () => system(load, sources) };
}
const KEY = 'abcdef0123456789', REC = 'EXP_abcdef0123', PROV = REC + '_DEFAULT_USER_PROVIDER', MEM = 'EXP_MKTG_abcdef0123', COOKIE = 'EXP_abcdef0123_identity', MKTG = 'AMP_MKTG_abcdef0123';
const on = (h) => `${h}.example.com`;
const b64 = (s) => Buffer.from(s, 'latin1').toString('base64');
const enc = (v) => b64(encodeURIComponent(JSON.stringify(v)));
const dec = (v) => JSON.parse(decodeURIComponent(Buffer.from(decodeURIComponent(v), 'base64').toString('latin1')));
const utm = (o) => ({ source: o?.utm_source ?? '', medium: o?.utm_medium ?? '', term: o?.utm_term ?? '' });
const parse = (t) => { try { return JSON.parse(t); } catch { return undefined; } };
const flag = (key, mode, variants, segments) => ({ key, metadata: { evaluationMode: mode, flagType: 'experiment', deliveryMethod: 'web' }, segments,
  variants: Object.fromEntries(variants.map((v) => [v, { key: v, value: v, payload: [{ action: 'mutate', data: { mutations: [{ selector: `${key} ${v}`, action: 'set', attribute: 'html', value: '1' }] } }] }])) });
function system(load, sources) {
  const tab = new Tab(load), jar = tab.jar, t0 = tab.clock.now;
  let up = false, off = false, shared = true, page = null, asked = [], extra = false;
  const seen = [];
  const jget = jar.get.bind(jar), jset = jar.set.bind(jar);
  jar.get = (h) => (off ? '' : jget(h));
  jar.set = (h, v) => { if (!off) jset(h, v); };
  const name = (n) => `legacy${-n}`;
  const ord = (id) => {
    if (id === undefined || id === null || id === '') return 0;
    const m = /^legacy(\d+)$/.exec(id);
    if (m) return -Number(m[1]);
    if (!/^[0-9a-f]{8}-[0-9a-f]{4}-4[0-9a-f]{3}-[89ab][0-9a-f]{3}-[0-9a-f]{12}$/.test(id)) return id;
    if (!seen.includes(id)) seen.push(id);
    return seen.indexOf(id) + 1;
  };
  const time = (v) => (v === undefined ? -1 : typeof v === 'string' ? Math.round(Number(v) * 1000 - t0) : 'not text');
  const store = (h) => tab.storage('local', on(h));
  const site = (h) => (shared ? '.example.com' : '.' + on(h));
  const ids = (u) => ({ id: ord(u.web_exp_id), v2: ord(u.web_exp_id_v2), fs: time(u.first_seen), utm: utm(u.persisted_url_param) });
  const by = (key, prop, values) => { const f = flag(key, 'local', values, [...values.map((v) => ({ conditions: [[{ selector: ['context', 'user', ...prop], op: 'is', values: [v] }]], variant: v })), { variant: 'off' }]); f.variants.off = { key: 'off' }; return f; };
  const legacy = [1, 2, 3, 4, 5].map((n) => `legacy${n}`);
  const flags = [by('L', ['persisted_url_param', 'utm_source'], sources), by('V', ['web_exp_id'], legacy), by('W', ['web_exp_id_v2'], legacy), flag('r', 'remote', ['off', 'on'], [{ variant: 'on' }])];
  const objects = Object.fromEntries(flags.map((f) => [f.key, { p: pageObject('p', 'url_change') }]));
  const settle = async () => { for (let i = 0; i < 20; i++) await drain(3); };
  return { _tab: tab,
    async step(a) {
      switch (a.n) {
        case 'init': shared = a.shared; jar.refuse = new Set(shared ? [] : ['example.com']); store('a'); store('b'); return {};
        case 'visit': {
          asked = [];
          const q = Object.entries(a.link.utm).filter(([, v]) => v).map(([k, v]) => `utm_${k}=${encodeURIComponent(v)}`);
          page = tab.open(`https://${on(a.host)}/${q.length || a.link.extra ? '?' + [...(a.link.extra ? ['z=1', 'gclid=5'] : []), ...q].join('&') : ''}`, {
            fetch: async (u, o) => { if (!String(u).includes('/sdk/v2/flags')) throw new Error(u); asked.push(u); return { status: 200, text: async () => JSON.stringify(flags.map((f) => ({ ...f, metadata: { ...f.metadata, evaluationMode: 'local' } }))) }; },
            extra: { experimentIntegration: { type: 'integration', getUser: () => ({}), setup: async () => {}, track: () => true } } });
          up = true;
          try { page.M.initialize(KEY, { initialFlags: JSON.stringify(flags), pageObjects: JSON.stringify(objects) }, {}); } catch (e) { if (!/could not be initialized/.test(e.message)) throw e; up = false; }
          break;
        }
        case 'record': store(a.host)._m.set(REC, JSON.stringify({ ...(a.r?.x ?? {}), ...(a.rec.dev ? { device_id: name(a.rec.dev) } : {}), ...(a.rec.id ? { web_exp_id: name(a.rec.id) } : {}), ...(a.rec.v2 ? { web_exp_id_v2: name(a.rec.v2) } : {}) })); break;
        case 'harm': store(a.host)._m.set(REC, a.how); break;
        case 'first': if (a.t === -1) store(a.host)._m.delete(PROV); else store(a.host)._m.set(PROV, JSON.stringify({ first_seen: String((t0 + a.t) / 1000) })); break;
        case 'harmfirst': store(a.host)._m.set(PROV, a.how); break;
        case 'cookie': jset(on(a.host), `${COOKIE}=${a.c.v2 === 0 && a.c.fs === -1 && a.c.how === 'gone' ? '; max-age=0' : a.c.how === 'junk' ? 'junk' : a.c.how === 'five' ? enc('5') : enc(JSON.stringify({ ...(a.c.v2 ? { web_exp_id_v2: name(a.c.v2) } : a.c.how === 'empty' ? { web_exp_id_v2: '' } : {}), ...(a.c.fs !== -1 ? { first_seen: String((t0 + a.c.fs) / 1000) } : a.c.how === 'empty' ? { first_seen: 12 } : {}) }))}; domain=${site(a.host)}; path=/`); break;
        case 'analytics': { const o = Object.fromEntries(Object.entries(a.utm).filter(([, v]) => v).map(([k, v]) => ['utm_' + k, v])); jset(on('a'), `${MKTG}=${enc({ ...o, gclid: '7', referrer: 'r' })}; domain=.example.com; path=/`); if (!shared) for (const h of ['a', 'b']) jset(on(h), `${MKTG}=${enc({ ...o, gclid: '7' })}; path=/`); break; }
        case 'mode': Object.assign(store(a.host)._f, { set: a.m !== 'ok', get: a.m === 'blocked', del: a.m === 'blocked' }); break;
        case 'cmode': off = a.m === 'off'; break;
        case 'wait': await tab.clock.advance(a.ms); break;
      }
      await settle();
      const out = { kept: {}, first: {}, mem: {}, ck: {} };
      for (const h of ['a', 'b']) {
        const m = store(h)._m, r = m.has(REC) ? parse(m.get(REC)) : {}, p = m.has(PROV) ? parse(m.get(PROV)) : {};
        out.kept[h] = r && typeof r === 'object' && !Array.isArray(r) ? { is: 'rec', rec: { dev: ord(r.device_id), id: ord(r.web_exp_id), v2: ord(r.web_exp_id_v2) } } : { is: 'bad' };
        out.first[h] = p && typeof p === 'object' && !Array.isArray(p) ? time(p.first_seen) : -2;
        out.mem[h] = utm(parse(m.get(MEM) ?? '{}'));
        const cs = jar.visible(on(h)).filter((c) => c.name === COOKIE);
        let c; try { c = JSON.parse(dec(cs[0].value)); } catch { c = {}; }
        out.ck[h] = cs.length > 1 ? cs : { v2: ord(c?.web_exp_id_v2), fs: typeof c?.first_seen === 'string' ? time(c.first_seen) : -1 };
      }
      const cl = up && page?.g.webExperiment?.getExperimentClient?.();
      out.user = page && up ? (cl ? ids(cl.getUser()) : 'no client') : { id: 0, v2: 0, fs: -1, utm: utm({}) };
      if (cl) {
        const u = cl.getUser(), bad = {};
        if (u.device_id !== undefined) bad.device = u.device_id;
        if (Object.keys(u.persisted_url_param ?? {}).some((k) => !k.startsWith('utm_'))) bad.params = u.persisted_url_param;
        if (asked.length !== 1) bad.asked = asked;
        const shown = page.mutations.filter((m) => m.on && !m.m.selector.startsWith('r ')).map((m) => m.m.selector).sort();
        const want = [sources.includes(out.user.utm.source) ? ['L ' + out.user.utm.source] : [], out.user.id < 0 ? ['V ' + name(out.user.id)] : [], out.user.v2 < 0 ? ['W ' + name(out.user.v2)] : []].flat();
        if (JSON.stringify(shown) !== JSON.stringify(want)) bad.shown = shown;
        if (Object.keys(bad).length) out.bad = bad;
      }
      if (tab.errors.length) out.errors = tab.errors.splice(0);
      return out;
    },
  };
}
