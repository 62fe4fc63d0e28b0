import { bundle } from '../lib/bundle.mjs';
import { compile, makeGlobal, drain } from '../lib/env.mjs';
const ENTRY = `export { consentGate } from './src/consent/consent-gate';
export * from './src/util/storage';
export { SyncJsonCookie } from './src/util/cookie';
export { createCookieStorage } from './src/consent/consent-cookie-storage';
export { CookieStorage } from '@amplitude/analytics-core';`;
export async function prepare({ keys }) {
  const load = compile(await bundle(ENTRY));
  return { create: async () => system(load, keys) };
}
const FIELDS = { x: 'x', fs: 'first_seen', w1: 'web_exp_id', w2: 'web_exp_id_v2', d: 'device_id' };
const toJs = (v) => Object.fromEntries(Object.entries(FIELDS).filter(([f]) => v[f] !== '~').map(([f, n]) => [n, v[f]]));
const none = { is: 'none', x: '~', fs: '~', w1: '~', w2: '~', d: '~' };
const fromJs = (o) => {
  if (o === null || o === undefined) return none;
  if (typeof o !== 'object') return { ...none, is: 'bad' };
  const r = { ...none, is: 'obj' };
  for (const [f, n] of Object.entries(FIELDS)) if (o[n] !== undefined) r[f] = o[n];
  for (const k of Object.keys(o)) if (!Object.values(FIELDS).includes(k)) r.extra = k;
  return r;
};
const NAMES = { loc: ['localStorage', 'EXP_MKTG_abcdef0123'], ses: ['sessionStorage', 'EXP_abcdef0123_REDIRECT'], prev: ['sessionStorage', 'amp-preview-mode'], edit: ['sessionStorage', 'visual-editor-state'], pres: ['sessionStorage', 'amp-preview-mode-2'],
  prov: ['localStorage', 'EXP_abcdef0123_DEFAULT_USER_PROVIDER'], sprov: ['sessionStorage', 'EXP_abcdef0123_DEFAULT_USER_PROVIDER'], id: ['localStorage', 'EXP_abcdef0123'], cid: ['cookie', 'EXP_abcdef0123_identity'], cob: ['cookie', 'EXP_abcdef0123_REDIRECT'], sess: ['cookie', 'EXP_abcdef0123_rtbt_session'] };
const BAD = ['{', 'null', 'undefined'];
function system(load, keys) {
  let bad = 0, mode = 'ok', touched = [];
  const g = makeGlobal();
  for (const st of ['localStorage', 'sessionStorage']) {
    const real = g[st];
    g[st] = {
      getItem: (k) => real.getItem(k),
      setItem: (k, v) => { touched.push(k); if (mode === 'full') throw new Error('QuotaExceededError'); real.setItem(k, v); },
      removeItem: (k) => { touched.push(k); real.removeItem(k); },
    };
    g[`_${st}`] = real;
  }
  const cookie = Object.getOwnPropertyDescriptor(g.document, 'cookie');
  Object.defineProperty(g.document, 'cookie', { configurable: true, get: cookie.get, set: (v) => { touched.push(v.split('=')[0]); if (mode !== 'nocookies') cookie.set(v); } });
  const M = load(g);
  const gate = M.consentGate;
  const jar = M.createCookieStorage({ sameSite: 'Lax', expirationDays: 365 });
  const sess = new M.SyncJsonCookie(NAMES.sess[1], () => '');
  // an independent reader and writer of the same device
  const g2 = makeGlobal({ jar: g.jar, clock: g.clock });
  const raw = new (load(g2).CookieStorage)({ sameSite: 'Lax', expirationDays: 365 });
  const device = async () => {
    const dev = {};
    for (const [k, [st, name]] of Object.entries(NAMES)) {
      if (keys && !keys.includes(k)) continue;
      let v;
      if (k === 'sess') {
        const c = g2.document.cookie.split('; ').find((x) => x.startsWith(`${name}=`));
        v = c === undefined ? null : decodeURIComponent(c.slice(name.length + 1));
      } else if (st === 'cookie') {
        v = (await raw.getRaw(name)) === undefined ? null : await raw.get(name);
        dev[k] = v === null ? none : v === undefined ? { ...none, is: 'bad' } : fromJs(k === 'cid' ? parse(v) : v);
        continue;
      } else v = g[`_${st}`].getItem(name);
      if (v === null) dev[k] = none;
      else dev[k] = fromJs(parse(v));
    }
    return dev;
  };
  const parse = (v) => { try { const o = JSON.parse(v); return o === null || typeof o !== 'object' ? 'bad' : o; } catch { return 'bad'; } };
  const use = async (o) => {
    const [st, name] = NAMES[o.k];
    const val = o.v && toJs(o.v);
    let r;
    if (o.k === 'sess') {
      if (o.op === 'get') r = sess.read();
      if (o.op === 'set') sess.write(val);
      if (o.op === 'remove') sess.clear();
    } else if (st === 'cookie') {
      if (o.op === 'get') { r = await jar.get(name).catch(() => undefined); if (o.k === 'cid' && r !== undefined) r = parse(r); }
      if (o.op === 'set') {
        const give = o.k === 'cid' ? JSON.stringify(val) : val;
        const p = jar.set(name, give).catch(() => {});
        await p;
        if (typeof give === 'object') give.x = 'changed later';
      }
      if (o.op === 'remove') await jar.remove(name).catch(() => {});
    } else {
      if (o.op === 'get') r = M.getStorageItem(st, name);
      if (o.op === 'set') { M.setStorageItem(st, name, val); val.x = 'changed later'; }
      if (o.op === 'remove') M.removeStorageItem(st, name);
    }
    if (o.op === 'get') {
      const v = fromJs(r === 'bad' ? undefined : r);
      if (r && typeof r === 'object' && o.k !== 'sess') r.x = 'changed by the reader';
      return v;
    }
    return none;
  };
  return {
    async step(a) {
      let v = none;
      touched = [];
      const before = gate.required && gate.manager.getStatus() === 'pending';
      switch (a.n) {
        case 'require': gate.required = true; break;
        case 'use': v = await use(a.o); break;
        case 'decide': gate.manager.setStatus(a.to); break;
        case 'flip': case 'decide-then': for (const t of a.tos) gate.manager.setStatus(t); v = await use(a.o); break;
        case 'set-then-deny': { const p = use(a.o); gate.manager.setStatus('denied'); await p; break; }
        case 'device': {
          const [st, name] = NAMES[a.k];
          const b = BAD[bad++ % BAD.length];
          if (a.v.is === 'none') { if (st === 'cookie') await raw.remove(name); else g[`_${st}`].removeItem(name); }
          else if (a.k === 'sess') g2.document.cookie = `${name}=${encodeURIComponent(a.v.is === 'bad' ? '{' : JSON.stringify(toJs(a.v)))}; path=/`;
          else if (st === 'cookie') { if (a.v.is === 'bad') g2.document.cookie = `${name}=%7B; path=/`; else await raw.set(name, a.k === 'cid' ? JSON.stringify(toJs(a.v)) : toJs(a.v)); }
          else g[`_${st}`].setItem(name, a.v.is === 'bad' ? b : JSON.stringify(toJs(a.v)));
          break;
        }
        case 'mode': mode = a.m; break;
      }
      await drain(3);
      const r = { dev: await device(), v };
      // not even an attempt while undecided
      if (before && a.n === 'use' && touched.some((k) => k !== NAMES.prev[1] && k !== NAMES.edit[1])) r.touched = touched;
      return r;
    },
  };
}
