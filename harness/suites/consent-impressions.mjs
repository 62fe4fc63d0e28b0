import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, VClock, drain } from '../lib/env.mjs';
export async function prepare() {
  const load = compile(await bundle("export { consentGate } from './src/consent/consent-gate'; export { wrapIntegrationTrack } from './src/consent/consent-impression-buffer';"));
  return { create: async () => system(load) };
}
function system(load) {
  const clock = new VClock();
  const start = clock.now;
  const M = load(makeGlobal({ clock }));
  const gate = M.consentGate;
  let sent = [], e = 0;
  const ints = {};
  const int = (i) => {
    if (ints[i]) return ints[i];
    const T = { budget: 100000, mode: 'refuse', revoke: 0, spoil: false };
    T.plugin = { type: 'integration', name: i, getUser: () => ({}), setup: async () => {}, track: (ev) => {
      const p = ev.eventProperties;
      const t = p.time === undefined ? -1 : p.time === 77 ? 77 : p.time - start;
      const ans = T.budget > 0 ? 'ok' : T.mode;
      sent.push({ i, e: p.e, t, ans, ...(ev.eventType === '$exposure' && p.x === 'x' ? {} : { altered: true }) });
      if (ans !== 'ok' && T.spoil) { T.spoil = false; gate.manager.setStatus('denied'); }
      if (ans === 'throw') throw new Error('analytics');
      if (ans === 'ok') {
        if (T.budget < 100000) T.budget -= 1;
        if (T.revoke > 0 && --T.revoke === 0) gate.manager.setStatus('denied');
      }
      return ans === 'ok';
    } };
    M.wrapIntegrationTrack(T.plugin);
    M.wrapIntegrationTrack(T.plugin);
    return (ints[i] = T);
  };
  return {
    async step(a) {
      sent = [];
      const ret = [];
      switch (a.n) {
        case 'require': gate.required = true; break;
        case 'track':
          for (let k = 0; k < a.k; k++) {
            const ev = { eventType: '$exposure', eventProperties: { e: e++, x: 'x', ...(a.own ? { time: 77 } : {}) } };
            const before = JSON.stringify(ev);
            try { ret.push(int(a.i).plugin.track(ev) === true ? 'ok' : 'refuse'); } catch { ret.push('throw'); }
            if (JSON.stringify(ev) !== before) ret.push('event changed');
          }
          break;
        case 'decide': gate.manager.setStatus(a.v); break;
        case 'answer': Object.assign(int(a.i), { budget: a.budget, mode: a.mode }); break;
        case 'revoke': int(a.i).revoke = a.k; break;
        case 'spoil': int(a.i).spoil = true; break;
        case 'wait': await clock.advance(a.ms); break;
      }
      await drain(1);
      return { sent, ret };
    },
  };
}
