import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, VClock, FakeStorage, drain } from '../lib/env.mjs';
const ENTRY = `export { consentGate } from './src/consent/consent-gate';
export { SessionManager } from './src/behavioral-targeting/session-manager';
export { EventStorageManager } from './src/behavioral-targeting/event-storage';`;
export async function prepare() {
  const load = compile(await bundle(ENTRY));
  return { create: async () => system(load) };
}
const KEY = 'EXP_abcdef0123_rtbt_events';
const BAD = ['{', 'null', '[]', '{"events":5,"nextId":1}', '{"events":[]}', '"x"'];
function system(load) {
  const clock = new VClock();
  const start = clock.now;
  let e = 0, up = false, M, events, bad = 0, full = false, wrote = [], res = null, asked = null, attached = false;
  const uuids = new Map();
  const localStorage = new FakeStorage();
  const store = { getItem: (k) => localStorage.getItem(k), removeItem: (k) => localStorage.removeItem(k),
    setItem: (k, v) => { if (full) throw new Error('QuotaExceededError'); localStorage.setItem(k, v); } };
  // the events as blocks: consecutive numbers, one time, one type
  const blocks = (l, ids = true) => {
    const out = [];
    for (const x of l) {
      const n = x.properties.e, t = x.timestamp - start;
      if (ids) {
        if (typeof x.uuid !== 'string' || !x.uuid) return 'no identity';
        if (!uuids.has(n)) { if ([...uuids.values()].includes(x.uuid)) return 'identity used twice'; uuids.set(n, x.uuid); }
        if (uuids.get(n) !== x.uuid) return 'identity changed';
      }
      if (x.properties.p !== `p${n}` || typeof x.session_id !== 'string') return 'event altered';
      const l = out[out.length - 1];
      if (l && l.e + l.k === n && l.t === t && l.y === x.event_type) l.k += 1;
      else out.push({ e: n, k: 1, t, y: x.event_type });
    }
    return out;
  };
  const disk = () => {
    const raw = localStorage.getItem(KEY);
    if (raw === null) return { is: 'none', h: [] };
    try {
      const o = JSON.parse(raw);
      if (!o || !Array.isArray(o.events) || typeof o.nextId !== 'number') return { is: 'bad', h: [] };
      const without = o.events.filter((x) => !x.uuid).length;
      return without ? { is: without === o.events.length ? 'old' : 'mixed', h: blocks(o.events, false) } : { is: 'ok', h: blocks(o.events) };
    } catch { return { is: 'bad', h: [] }; }
  };
  const shared = { events: [], migrated: false };
  const mkRelay = () => {
    const ask = (stage, payload) => new Promise((ok, fail) => { asked = { stage, ok, fail, payload }; });
    const put = (x) => { if (!shared.events.some((y) => y.uuid === x.uuid)) shared.events.push(JSON.parse(JSON.stringify(x))); };
    return {
      relayAvailable: true,
      checkMigrated: () => ask('check'),
      migrateEvents: (o, p) => ask('migrate', JSON.parse(JSON.stringify(p))).then(() => {}),
      readEvents: () => ask('read'),
      writeEvent: (x) => { wrote.push(x); put(x); },
      flush: () => { res = 'flushed'; },
      put,
    };
  };
  let relay = mkRelay();
  let handlers = {};
  const obs = (r) => ({ mem: up ? blocks(events.getAllEvents()) : [], disk: disk(), wrote: blocks(wrote), relay: blocks(shared.events), res: r });
  return {
    async step(a) {
      wrote = []; res = null;
      switch (a.n) {
        case 'page': {
          clock.timers.clear();
          asked = null; relay = mkRelay(); attached = false; handlers = {};
          const on = (n, f) => (handlers[n] ??= []).push(f);
          const g = makeGlobal({ clock, localStorage: store, document: { addEventListener: on, removeEventListener() {}, visibilityState: 'visible' } });
          g.addEventListener = on;
          M = load(g);
          M.g = g;
          M.consentGate.required = a.c !== 'off';
          if (a.c === 'granted' || a.c === 'denied') M.consentGate.manager.setStatus(a.c);
          events = new M.EventStorageManager('abcdef0123456789', new M.SessionManager('abcdef0123456789'), a.allow ? new Set(['a', 'b']) : undefined);
          up = true;
          break;
        }
        case 'add':
          for (let i = 0; i < a.k; i++) { events.addEvent(a.y, { e, p: `p${e}` }, a.ago === 0 ? undefined : clock.now - a.ago); e++; }
          break;
        case 'wait': await clock.advance(a.ms); break;
        case 'leave':
          if (a.how === 'hide') { M.g.document.visibilityState = 'hidden'; for (const f of handlers.visibilitychange ?? []) f({}); M.g.document.visibilityState = 'visible'; for (const f of handlers.visibilitychange ?? []) f({}); }
          else for (const f of handlers.beforeunload ?? []) f({});
          break;
        case 'decide': M.consentGate.manager.setStatus(a.v); break;
        case 'device':
          if (a.k === 'none') localStorage.removeItem(KEY);
          else if (a.k === 'bad') localStorage.setItem(KEY, BAD[bad++ % BAD.length]);
          else localStorage.setItem(KEY, JSON.stringify({ events: ['a', 'b'].map((y, i) => ({ id: i + 1, event_type: y, timestamp: clock.now - 9, session_id: 's', properties: { e: e + i, p: `p${e + i}` } })), nextId: 3 }));
          e += 2;
          break;
        case 'full': full = a.on; break;
        case 'clear': events.clearEvents(); break;
        case 'other':
          for (let i = 0; i < a.k; i++) { shared.events.push({ uuid: `other${e}`, id: e, event_type: 'a', timestamp: clock.now - a.ago, session_id: 's', properties: { e, p: `p${e}` } }); e++; }
          break;
        case 'sync': {
          relay.relayAvailable = a.available;
          const mine = relay;
          const p = events.syncFromRelay(relay);
          p.then((r) => { if (mine !== relay) return; res = r === true ? 'done' : r === false ? 'failed' : 'odd'; attached = r; events.setRelayClient(r ? relay : null); }, () => { res = 'threw'; });
          break;
        }
        case 'answer': {
          const q = asked;
          asked = null;
          if (!q || q.stage !== a.stage) { res = `asked ${q?.stage}`; break; }
          if (!a.ok) q.fail(new Error('relay'));
          else if (q.stage === 'check') q.ok(shared.migrated);
          else if (q.stage === 'migrate') { q.payload.events.forEach(relay.put); shared.migrated = true; q.ok(); }
          else q.ok(JSON.parse(JSON.stringify({ events: shared.events, nextId: 1 + e })));
          break;
        }
      }
      await drain(3);
      return obs(res);
    },
  };
}
