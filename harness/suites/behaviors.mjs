import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, VClock, CookieJar, FakeStorage, drain } from '../lib/env.mjs';
export async function prepare() {
  const load = compile(await bundle("export { BehavioralTargetingManager } from './src/behavioral-targeting';"));
  return { create: async () => system(load) };
}
const P = (o) => ({ selector: ['context', o.p], op: o.op, values: o.values });
const FILTERS = { any: [], 'is red': [P({ p: 'colour', op: 'is', values: ['red'] })], 'not red': [P({ p: 'colour', op: 'is not', values: ['red'] })],
  'red or blue': [P({ p: 'colour', op: 'is', values: ['red', 'blue'] })], 'no colour': [P({ p: 'colour', op: 'is', values: ['(none)'] })],
  'red and big': [P({ p: 'colour', op: 'is', values: ['red'] }), P({ p: 'size', op: 'is', values: ['big'] })] };
function system(load) {
  const clock = new VClock();
  const jar = new CookieJar(clock), localStorage = new FakeStorage();
  let m = null, handlers = {}, rules = [], n = 0, alone = 0, active = -1;
  const relayStore = [];
  const props = (c, size) => ({ ...(c === '~' ? (alone++ % 2 ? {} : { colour: null }) : { colour: c }), ...(size === '~' ? {} : { size }), other: 'x' });
  return {
    async step(a) {
      let res = null;
      switch (a.n) {
        case 'page': {
          for (const f of handlers.beforeunload ?? []) f({});
          handlers = {};
          clock.timers.clear();
          const on = (k, f) => (handlers[k] ??= []).push(f);
          const g = makeGlobal({ clock, jar, localStorage, document: { addEventListener: on, removeEventListener() {}, visibilityState: 'visible' } });
          g.addEventListener = on;
          rules = a.rules;
          const conf = {};
          for (const r of rules) {
            (conf[r.flag] ??= {})[r.id] = r.dnf.map((gr) => gr.map((c) => {
              const condition = { type: 'behavior', event_type: c.y, op: c.op, value: c.v, time_type: c.tt, time_value: c.tv, ...(c.unit === '~' ? {} : { interval: c.unit }) };
              if (FILTERS[c.f].length || alone++ % 2) condition.event_props = FILTERS[c.f];
              return { condition, ...(c.neg ? { negated: true } : alone++ % 2 ? { negated: false } : {}) };
            }));
          }
          m = new (load(g).BehavioralTargetingManager)('abcdef0123456789', conf);
          break;
        }
        case 'track': active = clock.now; m.trackEvent(a.y, props(a.c, a.size)); break;
        case 'sync': {
          // the session in which the other subdomain's events were recorded is the cookie's
          const c = jar.get('www.example.com').split('; ').find((x) => x.startsWith('EXP_abcdef0123_rtbt_session='));
          const ses = a.here && c ? JSON.parse(decodeURIComponent(c.slice(c.indexOf('=') + 1))) : null;
          const alive = ses && active >= 0 && clock.now - active <= 1800000;
          for (const o of a.others) relayStore.push({ uuid: `o${n}`, id: n++, event_type: o.y, timestamp: clock.now - o.ago * 1000, session_id: alive ? ses.sessionId : 'elsewhere', properties: props(o.c, '~') });
          const relay = { relayAvailable: a.how !== 'never', init: async () => {}, waitForAvailable: async () => a.how !== 'never', checkMigrated: async () => true,
            readEvents: async () => { if (a.how === 'fail') throw new Error('relay'); return { events: JSON.parse(JSON.stringify(relayStore)), nextId: 1000 }; },
            writeEvent: (e) => { relayStore.push(JSON.parse(JSON.stringify(e))); }, migrateEvents: async () => {}, flush() {}, destroy() {} };
          res = (await m.beginRelaySync(relay)).status;
          break;
        }
        case 'wait': await clock.advance(a.sec * 1000); break;
      }
      await drain(2);
      const matched = [];
      if (m) {
        for (const [flag, ids] of m.getMatchedBehaviors()) { if (ids.size === 0) matched.push({ flag, id: 'empty' }); for (const id of ids) matched.push({ flag, id }); }
        for (const f of ['f1', 'f2', 'f3']) if (m.hasRules(f) !== rules.some((r) => r.flag === f)) matched.push({ flag: f, id: 'hasRules is wrong' });
      }
      return { matched_set: matched, res };
    },
  };
}
