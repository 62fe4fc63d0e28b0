import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal } from '../lib/env.mjs';

const ENTRY = `export { AnalyticsConnector } from '@amplitude/analytics-connector';`;

// JSON meaning of the model's value names; every use makes a fresh copy.
export const VALUES = {
  v1: () => 1, v2: () => '1', v3: () => true, v4: () => null, v5: () => [1, 2], v6: () => [1, 2, 3],
  v7: () => [2, 1], v8: () => ({ a: 1 }), v9: () => ({ a: 2 }), v10: () => ({ a: { b: [1] } }),
  v11: () => ({ a: { b: [2] } }), v12: () => [], v13: () => ({}), v14: () => 0, v15: () => '', v16: () => false,
  v17: () => ({ a: 1, b: 1 }), v18: () => [{ x: 1 }], v19: () => [{ x: 2 }], v20: () => [null],
};
const rev = Object.fromEntries(Object.entries(VALUES).map(([k, f]) => [typeof f() + JSON.stringify(f()), k]));
const nameOf = (v) => rev[typeof v + JSON.stringify(v)] ?? `?${JSON.stringify(v)}`;

export async function prepare({ which }) {
  const load = compile(await bundle(ENTRY));
  return { create: async () => (which === 'bridge' ? bridge(load) : identity(load)) };
}

function bridge(load) {
  const M = load(makeGlobal());
  const AC = M.AnalyticsConnector;
  const conn = {};
  const get = (i) => (conn[i] ??= AC.getInstance(i));
  let calls = [];
  const recvs = {};
  let first = null; // what the receiver does once told of the next event
  const recv = (r) => (recvs[r] ??= (e) => { calls.push({ r, e: e.eventProperties?.id }); const f = first; first = null; f?.(); });
  const event = (id) => ({ eventType: 't', eventProperties: { id } });
  return {
    async step(a) {
      calls = [];
      if (a.n === 'log') for (let j = 0; j < a.k; j++) get(a.i).eventBridge.logEvent(event(a.first + j));
      if (a.n === 'attach') {
        const b = get(a.i).eventBridge;
        first = { logs: () => b.logEvent(event(a.id)), hands: () => b.setEventReceiver(recv('r0')) }[a.does] ?? null;
        b.setEventReceiver(recv(a.r));
        first = null;
      }
      if (a.n === 'lookup') {
        for (const i of ['A', 'B']) get(i);
        return { calls, same: AC.getInstance(a.i) === get(a.i), distinct: new Set(['A', 'B'].map(get)).size };
      }
      return { calls };
    },
  };
}

function identity(load) {
  const M = load(makeGlobal());
  const store = M.AnalyticsConnector.getInstance('x').identityStore;
  const other = M.AnalyticsConnector.getInstance('y').identityStore;
  other.addIdentityListener(() => { throw new Error('other instance notified'); });
  let calls = [];
  let told = [];
  const lsn = {};
  const scribble = (i) => { i.userId = 'scribbled'; i.deviceId = 'scribbled'; i.optOut = 'x'; i.userProperties = { k1: 'scribbled' }; };
  const project = (i) => ({
    u: i.userId ?? '~', d: i.deviceId ?? '~', o: i.optOut === undefined ? '~' : i.optOut ? 't' : 'f',
    has: i.userProperties !== undefined,
    p: Object.fromEntries(Object.entries(i.userProperties ?? {}).map(([k, v]) => [k, nameOf(v)])),
  });
  const L = (l) => (lsn[l] ??= (i) => { calls.push({ l, id: project(i) }); told.push(i); });
  const mk = (m) => Object.fromEntries(Object.entries(m).filter(([, v]) => v !== '~').map(([k, v]) => [k, VALUES[v]()]));
  const eds = {};
  return {
    async step(a) {
      calls = [];
      told = [];
      const e = eds[a.e];
      switch (a.n) {
        case 'open': eds[a.e] = store.editIdentity(); break;
        case 'setUser': e.setUserId(a.v); break;
        case 'setDevice': e.setDeviceId(a.v); break;
        case 'setOpt': e.setOptOut(a.v === 't'); break;
        case 'setProps': e.setUserProperties(mk(a.m)); break;
        case 'update': {
          const acts = {};
          for (const op of a.ops) acts[op.op] = op.op === '$set' ? mk(op.m) : op.op === '$unset' ? Object.fromEntries(op.ks.map((k) => [k, '-'])) : op.op === '$clearAll' ? { x: '-' } : { k1: 9 };
          e.updateUserProperties(acts);
          break;
        }
        case 'commit': e.commit(); break; // may be used further
        case 'setIdentity': {
          const i = {};
          if (a.id.u !== '~') i.userId = a.id.u;
          if (a.id.d !== '~') i.deviceId = a.id.d;
          if (a.id.o !== '~') i.optOut = a.id.o === 't';
          if (a.id.has) i.userProperties = mk(a.id.p);
          store.setIdentity(i);
          // the caller and those told use their objects for something else
          [i, ...told].forEach(scribble);
          break;
        }
        case 'add': store.addIdentityListener(L(a.l)); break;
        case 'remove': store.removeIdentityListener(L(a.l)); break;
        case 'scribble': {
          scribble(store.getIdentity());
          break;
        }
      }
      return { id: project(store.getIdentity()), calls };
    },
  };
}
