import { loadBrowser, makeGlobal, drain, FakeStorage, VClock } from '../lib/browser.mjs';
export async function prepare({ webs }) {
  const load = await loadBrowser();
  const flags = JSON.stringify(Array.from({ length: webs }, (_, k) => ({ key: `w${k}`, metadata: { evaluationMode: 'local', deliveryMethod: 'web' }, variants: { on: { key: 'on', value: 'on' } }, segments: [{ variant: 'on' }] })));
  return { create: async () => system(load, flags, webs) };
}
function system(load, flags, webs) {
  const clock = new VClock(), localStorage = new FakeStorage(), tabs = {};
  let off = [], next = 0;
  const num = (e) => Number(e.eventProperties.flag_key.slice(1));
  const open = (t) => {
    // another page of the same site; the timers of the page before are gone
    if (tabs[t]) for (const id of tabs[t].timers) clock.timers.delete(id);
    const g = makeGlobal({ clock, localStorage });
    const timers = new Set();
    g.setInterval = (...a) => { const id = clock.setInterval(...a); timers.add(id); return id; };
    g.setTimeout = (...a) => { const id = clock.setTimeout(...a); timers.add(id); return id; };
    const M = load(g);
    const client = new M.ExperimentClient(`client-${t}-123456`, { instanceName: 'inst', automaticExposureTracking: false, retryFetchOnFailure: false, initialFlags: flags });
    client.setUser({});
    tabs[t] = { client, timers, budget: 100000 };
  };
  const tab = (t) => { if (!tabs[t]) open(t); return tabs[t]; };
  return {
    async step(a) {
      off = [];
      switch (a.n) {
        case 'web': for (let k = 0; k < a.k; k++) { tab(a.t).client.exposure(`w${next}`); next = (next + 1) % webs; } break;
        case 'attach': {
          const T = tab(a.t);
          T.client.addPlugin({ type: 'integration', name: a.t, getUser: () => ({}), track: (e) => {
            const ok = T.budget > 0;
            if (ok && T.budget < 100000) T.budget -= 1;
            off.push({ by: a.t, ev: num(e), ok });
            return ok;
          } });
          break;
        }
        case 'answer': tab(a.t).budget = a.budget; break;
        case 'reload': open(a.t); break;
        case 'wait': await clock.advance(a.ms); break;
      }
      await drain(2);
      return { off, disk: JSON.parse(localStorage._m.get('EXP_unsent_inst') ?? '[]').map(num) };
    },
  };
}
