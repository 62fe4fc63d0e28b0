import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, VClock, CookieJar, drain } from '../lib/env.mjs';
const ENTRY = `export { consentGate } from './src/consent/consent-gate';
export { SessionManager } from './src/behavioral-targeting/session-manager';`;
export async function prepare({ hosts, limit }) {
  const load = compile(await bundle(ENTRY));
  return { create: async () => system(load, hosts, limit) };
}
const KEY = 'EXP_abcdef0123_rtbt_session';
const BAD = ['{', '[]', 'null', '{"sessionId":5,"lastEventTime":1}', '{"sessionId":"q"}', '%', '""'];
function system(load, hosts, limit) {
  const clock = new VClock();
  const start = clock.now;
  const jar = new CookieJar(clock);
  const tabs = {}, seen = [];
  let bad = 0, own = 0;
  const ord = (id) => { if (!seen.includes(id)) seen.push(id); return seen.indexOf(id) + 1; };
  // any page of the site sees the same cookie
  const other = makeGlobal({ clock, jar, host: hosts.x });
  const cookie = () => {
    const all = jar.cookies.filter((c) => c.name === KEY);
    const stray = jar.cookies.filter((c) => c.name !== KEY).map((c) => c.name);
    if (stray.length) return { stray };
    if (all.length === 0) return 'none';
    if (all.length > 1) return { several: all };
    const seenByOther = other.document.cookie.split('; ').find((c) => c.startsWith(`${KEY}=`));
    if (!seenByOther) return { hidden: all };
    let o;
    try { o = JSON.parse(decodeURIComponent(seenByOther.slice(KEY.length + 1))); } catch { return 'bad'; }
    if (!o || typeof o !== 'object' || typeof o.sessionId !== 'string' || typeof o.lastEventTime !== 'number') return 'bad';
    return { id: ord(o.sessionId), start: o.sessionStartTime === undefined ? null : o.sessionStartTime - start, last: o.lastEventTime - start };
  };
  return {
    async step(a) {
      let got = null;
      const T = a.t && tabs[a.t];
      switch (a.n) {
        case 'load': {
          const g = makeGlobal({ clock, jar, host: hosts[a.t] });
          const c = Object.getOwnPropertyDescriptor(g.document, 'cookie');
          if (a.mode !== 'ok') Object.defineProperty(g.document, 'cookie', { get: a.mode === 'blocked' ? () => '' : c.get, set() {} });
          const M = load(g);
          M.consentGate.required = a.required;
          tabs[a.t] = { M, ses: limit === null ? new M.SessionManager('abcdef0123456789') : new M.SessionManager('abcdef0123456789', limit) };
          break;
        }
        case 'ask': { const id = T.ses.getCurrentSessionId(); got = { id: ord(id), start: T.ses.getSessionStartTime() - start }; if (T.ses.getOrCreateSessionId() !== id) got.differs = true; break; }
        case 'activity': T.ses.recordActivity(); break;
        case 'clear': T.ses.clearSession(); break;
        case 'decide': T.M.consentGate.manager.setStatus(a.v); break;
        case 'elsewhere': {
          const dom = `; domain=.${hosts.x}; path=/`;
          const last = clock.now - a.ago;
          const v = { gone: '', bad: BAD[bad++ % BAD.length], old: JSON.stringify({ sessionId: `o${own}`, lastEventTime: last }), ses: JSON.stringify({ sessionId: `o${own}`, sessionStartTime: last - 5, lastEventTime: last }) }[a.k];
          own++;
          other.document.cookie = a.k === 'gone' ? `${KEY}=; expires=Thu, 01 Jan 1970 00:00:00 GMT${dom}` : `${KEY}=${encodeURIComponent(v)}${dom}`;
          break;
        }
        case 'wait': await clock.advance(a.ms); break;
      }
      return { got, cookie: cookie() };
    },
  };
}
