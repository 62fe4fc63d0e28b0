import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, VClock, drain } from '../lib/env.mjs';
export async function prepare() {
  const load = compile(await bundle("export { RelayClient, getRelayUrl } from './src/behavioral-targeting/relay-client';"));
  return { create: async () => system(load) };
}
const STORE = { events: [{ uuid: 'far' }], nextId: 7 };
function system(load) {
  const clock = new VClock();
  const listeners = new Set();
  const frames = new Set();
  let posted = [], reqs = [], settled = [], last = null, inits = 0, waits = 0, c = null, problem = null;
  const body = { appendChild(f) { frames.add(f); last = f; } };
  const doc = { body: null, createElement: (tag) => {
    const f = { tag, style: {}, attrs: {}, setAttribute(k, v) { this.attrs[k] = v; }, remove() { frames.delete(f); }, contentWindow: null };
    f.contentWindow = { postMessage: (m, origin) => {
      if (origin !== 'https://relay.example') problem = `sent to ${origin}`;
      if (!frames.has(f)) problem = 'sent to a frame that is gone';
      if (m.apiKey !== 'KEY' || m.web_exp_id_v2 !== 'WEB') problem = 'request does not say whose it is';
      if (reqs.some((r) => r.requestId === m.requestId)) problem = 'request id used twice';
      const kind = { WRITE_EVENT: 'write', READ_EVENTS: 'read', CHECK_MIGRATED: 'check', MIGRATE_EVENTS: 'migrate' }[m.type];
      if (kind === 'check' && m.payload?.sourceOrigin !== 'https://page') problem = 'origin missing';
      if (kind === 'migrate' && (m.payload?.sourceOrigin !== 'https://page' || m.payload?.store?.nextId !== 7)) problem = 'store missing';
      reqs.push({ requestId: m.requestId, kind });
      posted.push({ kind, e: kind === 'write' ? m.payload.event.id : 0 });
    } };
    return f;
  } };
  const g = makeGlobal({ clock, document: doc });
  g.addEventListener = (n, f) => { if (n === 'message') listeners.add(f); };
  g.removeEventListener = (n, f) => { listeners.delete(f); };
  const M = load(g);
  const deliver = (data, genuine) => {
    const ev = { data, origin: genuine === 'origin' ? 'https://other.example' : 'https://relay.example', source: genuine === 'window' ? {} : last?.contentWindow };
    for (const f of [...listeners]) f(ev);
  };
  const say = (w, i, r) => settled.push({ w, i, r });
  const ask = (kind) => {
    const p = kind === 'read' ? c.readEvents().then((x) => (JSON.stringify(x) === JSON.stringify(STORE) ? 'store' : JSON.stringify(x) === '{"events":[],"nextId":1}' ? 'none' : 'odd'))
      : kind === 'check' ? c.checkMigrated('https://page').then((x) => (x === true ? 'yes' : x === false ? 'no' : 'odd'))
        : c.migrateEvents('https://page', STORE).then((x) => (x === undefined ? 'done' : 'odd'));
    return p.catch((e) => (e instanceof Error ? 'failed' : 'odd'));
  };
  return {
    async step(a) {
      posted = []; settled = []; problem = null;
      switch (a.n) {
        case 'init': doc.body = a.body ? body : null; c = new M.RelayClient('KEY', 'WEB', 'https://relay.example/script/KEY.relay.html'); break;
        case 'start': { const i = ++inits; c.init().then(() => say('init', i, 'done')); break; }
        case 'body': doc.body = body; await clock.advance(16); break;
        case 'flush': c.flush(); break;
        case 'destroy': c.destroy(); break;
        case 'ready': deliver(a.form === 'text' ? 'AMP_RELAY_READY' : { type: 'AMP_RELAY_READY' }, a.genuine); break;
        case 'reply': {
          const r = reqs[a.i - 1];
          const payload = { read: STORE, check: { migrated: true } }[r.kind];
          deliver({ requestId: r.requestId, ok: a.how !== 'refused', ...(a.how === 'ok' && payload ? { payload } : {}), ...(a.how === 'refused' ? { error: 'no' } : {}) }, a.genuine);
          break;
        }
        case 'noise': deliver({ nothing: null, unknown: { requestId: 'never', ok: true }, text: 'hello' }[a.k], 'yes'); break;
        case 'write': c.writeEvent({ uuid: `u${a.e}`, id: a.e, event_type: 'a', timestamp: 1, session_id: 's', properties: {} }); break;
        case 'ask': { const before = posted.length; const p = ask(a.kind); const i = posted.length > before ? reqs.length : 0; p.then((r) => say('req', i, r)); break; }
        case 'await': { const i = ++waits; (a.ms === 2000 && i % 2 ? c.waitForAvailable() : c.waitForAvailable(a.ms)).then((r) => say('avail', i, r === true ? 'yes' : r === false ? 'no' : 'odd')); break; }
        case 'wait': await clock.advance(a.ms); break;
      }
      await drain(3);
      const o = { posted, settled_set: settled, available: c.relayAvailable, frames: frames.size };
      if (problem) o.problem = problem;
      if (new Set(settled.map((x) => JSON.stringify(x))).size !== settled.length) o.problem = 'settled twice';
      for (const f of frames) if (f.src !== 'https://relay.example/script/KEY.relay.html' || f.style.display !== 'none') o.problem = 'frame';
      return o;
    },
  };
}
