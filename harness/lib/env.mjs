// Fake browser environment: virtual clock, storages, cookie jar, and a loader
// that instantiates a bundled copy of the real code inside that environment.
// Every global the code may consult is passed in as a function parameter, so
// a fresh "page load" is a fresh call of the same compiled function.

const realSetImmediate = setImmediate;
export const drain = async (n = 1) => {
  for (let i = 0; i < n; i++) await new Promise((r) => realSetImmediate(r));
};

export class VClock {
  constructor(start = 1_700_000_000_000) {
    this.now = start;
    this.seq = 0;
    this.timers = new Map();
    const clock = this;
    this.setTimeout = (fn, ms = 0, ...args) => clock.#add(fn, ms, args, false);
    this.setInterval = (fn, ms = 0, ...args) => clock.#add(fn, ms, args, true);
    this.clearTimeout = (id) => void clock.timers.delete(Number(id));
    this.clearInterval = this.clearTimeout;
    const RealDate = Date;
    this.Date = class extends RealDate {
      constructor(...a) {
        if (a.length === 0) super(clock.now);
        else super(...a);
      }
      static now() {
        return clock.now;
      }
    };
    this.requestAnimationFrame = (fn) => clock.#add(() => fn(clock.now), 16, [], false);
    this.performance = { now: () => clock.now, mark() {}, measure() {} };
  }
  #add(fn, ms, args, repeat) {
    const id = ++this.seq;
    const d = Math.max(repeat ? 1 : 0, Number(ms) || 0);
    this.timers.set(id, { id, at: this.now + d, every: repeat ? d : 0, fn, args });
    return id;
  }
  pending() {
    return this.timers.size;
  }
  nextAt() {
    let m = Infinity;
    for (const t of this.timers.values()) m = Math.min(m, t.at);
    return m;
  }
  // Advance virtual time, firing due timers in order, draining microtasks
  // after each so promise continuations run before the next timer.
  async advance(ms) {
    const end = this.now + ms;
    await drain();
    for (let guard = 0; guard < 100000; guard++) {
      let next = null;
      for (const t of this.timers.values()) {
        if (t.at <= end && (!next || t.at < next.at || (t.at === next.at && t.id < next.id))) next = t;
      }
      if (!next) break;
      this.now = Math.max(this.now, next.at);
      if (next.every) next.at = this.now + next.every;
      else this.timers.delete(next.id);
      try {
        if (typeof next.fn === 'function') next.fn(...next.args);
      } catch (e) {
        this.onError?.(e);
      }
      await drain();
    }
    this.now = end;
    await drain();
  }
}

export class FakeStorage {
  constructor() {
    Object.defineProperty(this, '_m', { value: new Map(), enumerable: false });
    Object.defineProperty(this, '_f', { value: { set: false, get: false, del: false }, enumerable: false });
  }
  getItem(k) {
    if (this._f.get) throw new Error('storage get failed');
    return this._m.has(String(k)) ? this._m.get(String(k)) : null;
  }
  setItem(k, v) {
    if (this._f.set) throw new Error('QuotaExceededError');
    this._m.set(String(k), String(v));
  }
  removeItem(k) {
    if (this._f.del) throw new Error('storage remove failed');
    this._m.delete(String(k));
  }
  clear() {
    this._m.clear();
  }
  key(i) {
    return [...this._m.keys()][i] ?? null;
  }
  get length() {
    return this._m.size;
  }
  dump() {
    return Object.fromEntries(this._m);
  }
}

// A cookie jar shared by several hosts. Domain rules: a Domain attribute must
// be a suffix of the host with at least two labels (so "com" is refused).
export class CookieJar {
  constructor(clock) {
    this.clock = clock;
    this.cookies = []; // {name,value,domain,hostOnly,path,expires}
    this.log = [];
  }
  #live() {
    const now = this.clock.now;
    this.cookies = this.cookies.filter((c) => c.expires === null || c.expires > now);
    return this.cookies;
  }
  visible(host) {
    return this.#live().filter((c) =>
      c.hostOnly ? c.domain === host : host === c.domain || host.endsWith('.' + c.domain),
    );
  }
  get(host) {
    return this.visible(host)
      .map((c) => `${c.name}=${c.value}`)
      .join('; ');
  }
  set(host, str) {
    const parts = String(str).split(';').map((s) => s.trim());
    const i = parts[0].indexOf('=');
    const name = i < 0 ? '' : parts[0].slice(0, i);
    const value = i < 0 ? parts[0] : parts[0].slice(i + 1);
    let domain = host;
    let hostOnly = true;
    let expires = null;
    let maxAge = null;
    for (const p of parts.slice(1)) {
      const [k0, ...r] = p.split('=');
      const k = k0.toLowerCase();
      const v = r.join('=');
      if (k === 'domain' && v) {
        const d = v.replace(/^\./, '').toLowerCase();
        if (!(host === d || host.endsWith('.' + d))) return;
        if (d.split('.').length < 2 && d !== 'localhost') return;
        if (this.refuse?.has(d)) return;
        domain = d;
        hostOnly = false;
      } else if (k === 'expires') expires = new Date(v).getTime();
      else if (k === 'max-age') maxAge = Number(v);
    }
    if (maxAge !== null && !Number.isNaN(maxAge)) expires = this.clock.now + maxAge * 1000;
    if (expires !== null && Number.isNaN(expires)) expires = null;
    this.#live();
    this.cookies = this.cookies.filter(
      (c) => !(c.name === name && c.domain === domain && c.hostOnly === hostOnly),
    );
    if (expires !== null && expires <= this.clock.now) return;
    this.cookies.push({ name, value, domain, hostOnly, expires });
  }
  names(host) {
    return this.visible(host).map((c) => c.name);
  }
}

const noop = () => {};
export const quietConsole = {
  log: noop, info: noop, warn: noop, error: noop, debug: noop, trace: noop, group: noop, groupEnd: noop,
};

const PARAMS = [
  'globalThis', 'window', 'self', 'global', 'document', 'localStorage', 'sessionStorage', 'navigator',
  'location', 'history', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'Date', 'fetch',
  'XMLHttpRequest', 'console', 'performance', 'requestAnimationFrame', 'MutationObserver',
  'IntersectionObserver', 'BroadcastChannel', 'process', 'crypto', 'Node', 'Element', 'HTMLElement',
  'addEventListener', 'removeEventListener', 'AbortController', 'parent', 'opener', 'setImmediate', 'Math',
  'DOMParser', 'CSSStyleSheet', 'PopStateEvent', 'Event', 'getComputedStyle', 'dispatchEvent',
];

// code: an IIFE bundle assigning __M. Returns factory(globals) -> exports.
export function compile(code) {
  const fn = new Function(...PARAMS, code + '\n;return __M;');
  return (g) => fn(...PARAMS.map((p) => (p in g ? g[p] : p === 'Math' ? Math : undefined)));
}

// Minimal window-like global object.
export function makeGlobal(opts = {}) {
  const clock = opts.clock ?? new VClock();
  const jar = opts.jar ?? new CookieJar(clock);
  const host = opts.host ?? 'www.example.com';
  const g = {};
  g.clock = clock;
  g.jar = jar;
  g.localStorage = 'localStorage' in opts ? opts.localStorage : new FakeStorage();
  g.sessionStorage = 'sessionStorage' in opts ? opts.sessionStorage : new FakeStorage();
  g.setTimeout = clock.setTimeout;
  g.clearTimeout = clock.clearTimeout;
  g.setInterval = clock.setInterval;
  g.clearInterval = clock.clearInterval;
  g.requestAnimationFrame = clock.requestAnimationFrame;
  g.performance = clock.performance;
  g.Date = clock.Date;
  g.console = quietConsole;
  g.navigator = { userAgent: 'Mozilla/5.0 (X11; Linux x86_64) Chrome/120.0', language: 'en-US', languages: ['en-US'] };
  const href = opts.href ?? `https://${host}/`;
  g.location = { href, hostname: host, host, protocol: 'https:', search: new URL(href).search, pathname: new URL(href).pathname, origin: `https://${host}`, replace: noop, assign: noop, reload: noop };
  const doc = opts.document ?? {};
  Object.defineProperty(doc, 'cookie', {
    configurable: true,
    get: () => jar.get(host),
    set: (v) => jar.set(host, v),
  });
  doc.referrer = doc.referrer ?? '';
  doc.location = g.location;
  g.document = doc;
  g.addEventListener = noop;
  g.removeEventListener = noop;
  g.AbortController = AbortController;
  g.crypto = globalThis.crypto;
  g.history = { pushState: noop, replaceState: noop };
  g.window = g;
  g.self = g;
  g.globalThis = g;
  g.parent = g;
  g.top = g;
  Object.assign(g, opts.extra ?? {});
  return g;
}
