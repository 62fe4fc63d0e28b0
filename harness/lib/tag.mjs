// One browser tab in which the real tag (packages/experiment-tag) runs, page
// load after page load, over storages and cookies that survive between them.
import { bundle } from './bundle.mjs';
import { compile, makeGlobal, VClock, CookieJar, FakeStorage, drain } from './env.mjs';
import { EventHub, Ev, makeDom } from './dom.mjs';

const MUTATOR = `
const declarative = (m) => globalThis.__mutate(m);
export default { declarative };
export { declarative };
export const pauseGlobalObserver = () => {};
export const resumeGlobalObserver = () => {};
export const isGlobalObserverPaused = () => false;
`;
export const ENTRY = "export * from './src/index';";
export async function loadTag(entry = ENTRY, mutator = MUTATOR) {
  return compile(await bundle(entry, { stubs: { 'dom-mutator': mutator }, key: 'tag:' + entry }));
}

// what a page sees of a storage; nothing it does counts once it is gone
class PageStorage {
  constructor(inner, page) { Object.defineProperty(this, '_i', { value: inner }); Object.defineProperty(this, '_p', { value: page }); }
  getItem(k) { return this._p.alive ? this._i.getItem(k) : null; }
  setItem(k, v) { if (this._p.alive) this._i.setItem(k, v); }
  removeItem(k) { if (this._p.alive) this._i.removeItem(k); }
  clear() { if (this._p.alive) this._i.clear(); }
  key(i) { return this._i.key(i); }
  get length() { return this._i.length; }
}

export class Tab {
  constructor(load, { clock = new VClock(), refuseDomains = [] } = {}) {
    this.load = load;
    this.clock = clock;
    this.jar = new CookieJar(clock);
    this.jar.refuse = new Set(refuseDomains);
    this.local = new Map(); // per origin host
    this.session = new Map();
    this.page = null;
    this.errors = [];
    clock.onError = (e) => this.errors.push(String(e?.stack ?? e));
  }
  storage(kind, host) {
    const m = this[kind];
    if (!m.has(host)) m.set(host, new FakeStorage());
    return m.get(host);
  }
  close() {
    if (this.page) this.page.alive = false;
    this.clock.timers.clear();
    this.page = null;
  }
  // Opens a document. The tag's module code runs; nothing is initialised yet.
  open(url, { extra = {}, fetch, mutate, noLocal, referrer = '' } = {}) {
    this.close();
    const tab = this;
    const clock = this.clock;
    const u0 = new URL(url);
    const host = u0.hostname;
    const page = { alive: true, url: u0.href, leaving: null, navigations: [], mutations: [], handlers: {} };
    const local = noLocal ? null : new PageStorage(this.storage('local', host), page);
    const session = new PageStorage(this.storage('session', host), page);
    // timers, and continuations of dead pages, stay silent
    const g = makeGlobal({ clock, jar: this.jar, host, href: u0.href, localStorage: local, sessionStorage: session });
    g.clock = clock;
    Object.defineProperty(g, 'alive', { get: () => page.alive });
    const hub = new EventHub();
    hub._oops = (e) => tab.errors.push(String(e?.stack ?? e));
    g._hub = hub;
    g.addEventListener = hub.addEventListener.bind(hub);
    g.removeEventListener = hub.removeEventListener.bind(hub);
    g.dispatchEvent = (ev) => { ev.target = g; hub._run(ev, 'target'); return !ev.defaultPrevented; };
    g.innerHeight = 1000;
    g.scrollY = 0;
    const dom = makeDom(g, { log: (w, e) => tab.errors.push(`${w}: ${e?.stack ?? e}`) });
    Object.assign(g, dom);
    const doc = dom.document;
    doc.referrer = referrer;
    Object.defineProperty(doc, 'cookie', { configurable: true, get: () => (page.alive ? tab.jar.get(host) : ''), set: (v) => { if (page.alive) tab.jar.set(host, v); } });
    const go = (to, how) => { if (!page.alive) return; const t = new URL(to, page.url).href; page.navigations.push({ url: t, how }); page.leaving = t; };
    const loc = {
      replace: (to) => go(to, 'replace'), assign: (to) => go(to, 'assign'), reload: () => go(page.url, 'reload'), toString: () => page.url,
    };
    for (const k of ['hostname', 'host', 'protocol', 'search', 'pathname', 'origin', 'hash', 'port']) Object.defineProperty(loc, k, { get: () => new URL(page.url)[k] });
    Object.defineProperty(loc, 'href', { get: () => page.url, set: (to) => go(to, 'href') });
    g.location = loc;
    doc.location = loc;
    Object.defineProperty(doc, 'URL', { get: () => page.url });
    g.history = {
      state: null,
      pushState(st, _t, to) { this.state = st; if (to !== undefined && to !== null) page.url = new URL(to, page.url).href; },
      replaceState(st, _t, to) { this.state = st; if (to !== undefined && to !== null) page.url = new URL(to, page.url).href; },
    };
    g.PopStateEvent = class extends Ev { };
    g.Event = Ev;
    g.fetch = fetch ?? (() => new Promise(() => {}));
    g.URL = URL;
    g.__mutate = mutate ?? ((m) => { const x = { m, on: true }; page.mutations.push(x); return { revert() { x.on = false; } }; });
    // a script element's source becomes part of the page
    doc._script = (el) => {
      const m = /^function (\w+)\(html, utils, id\)\{([\s\S]*)\};$/.exec(el.textContent);
      if (m) g[m[1]] = new Function('window', 'globalThis', 'document', `return function ${m[1]}(html, utils, id){${m[2]}}`)(g, g, doc);
    };
    Object.assign(g, extra);
    page.g = g;
    page.doc = doc;
    page.clock = clock;
    page.Ev = Ev;
    // an event on an element, or on the document, or the window
    page.fire = (target, type, init = {}) => (target === g ? g.dispatchEvent(new Ev(type, init)) : target.dispatchEvent(new Ev(type, { bubbles: true, ...init })));
    page.push = (to) => g.history.pushState(null, '', to);
    page.back = (to) => { page.url = new URL(to, page.url).href; g.dispatchEvent(new Ev('popstate', { state: null })); };
    page.scroll = (y) => { g.scrollY = y; doc.dispatchEvent(new Ev('scroll', { bubbles: true })); doc._layout(); };
    this.page = page;
    page.M = this.load(g);
    return page;
  }
}

export const on = (prop, op, values) => ({ selector: prop, op, values });
// a page object active where the address (without query) is one of the urls
export const pageObject = (id, trigger_type, trigger_value, conditions) => ({ id, name: `page ${id}`, trigger_type, trigger_value: trigger_value ?? {}, ...(conditions ? { conditions } : {}) });
export const urlIs = (...values) => [[{ selector: ['context', 'page', 'url'], op: 'regex match', values: values.map((u) => `^${u.replace(/[.*+?^${}()|[\]\\/]/g, '\\$&')}([?#].*)?$`) }]];
export { drain, VClock };
