import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal } from '../lib/env.mjs';
export async function prepare() {
  const load = compile(await bundle("export { consentGate, onConsentDecision, isConsentPending, isConsentWithheld } from './src/consent/consent-gate';"));
  return { create: async () => system(load) };
}
function system(load) {
  const M = load(makeGlobal());
  const gate = M.consentGate;
  let told = [], n = 0;
  const offs = new Map();
  return {
    async step(a) {
      told = [];
      let ret = false;
      switch (a.n) {
        case 'require': gate.required = a.v; break;
        case 'set': ret = gate.manager.setStatus(a.v); break;
        case 'seed': ret = gate.manager.seedFromConfig(a.v); break;
        case 'listen': {
          const id = n; n = (n + 1) % 8;
          const react = () => {
            if (a.b === 'throw') throw new Error('listener');
            if (a.b === 'grant') gate.manager.setStatus('granted');
            if (a.b === 'deny') gate.manager.setStatus('denied');
            if (a.b === 'off') offs.get(id)();
          };
          if (a.once) M.onConsentDecision((granted) => { offs.delete(id); told.push({ id, to: granted ? 'granted' : 'denied', from: '~', sees: gate.manager.getStatus() }); react(); });
          else offs.set(id, gate.manager.onChange((to, from) => { told.push({ id, to, from, sees: gate.manager.getStatus() }); react(); }));
          break;
        }
        case 'unlisten': offs.get(a.id)(); break;
      }
      return { status: gate.manager.getStatus(), explicit: gate.manager.hasExplicitStatus(), pending: M.isConsentPending(), withheld: M.isConsentWithheld(), told, ret };
    },
  };
}
