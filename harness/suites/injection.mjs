import { loadTag, Tab, drain } from '../lib/tag.mjs';
const ENTRY = "export { getInjectUtils } from './src/util/inject-utils'; export { isGlobalObserverPaused } from 'dom-mutator';";
export async function prepare({ opts, sels }) {
  const load = await loadTag(ENTRY, `let n = 0; export const pauseGlobalObserver = () => { n++; }; export const resumeGlobalObserver = () => { n--; }; export const isGlobalObserverPaused = () => n !== 0; export default {};`);
  return { create: async () => system(load, opts, sels) };
}
function system(load, opts, sels) {
  const tab = new Tab(load);
  const page = tab.open('https://www.example.com/');
  const doc = page.doc, state = { cancelled: false };
  const utils = page.M.getInjectUtils(state);
  const els = {}, calls = {}, done = {}, seen = {};
  for (const e of Object.keys(opts)) { els[e] = doc.createElement('div'); els[e].id = e; calls[e] = 0; done[e] = false; }
  const $ = (x) => doc.querySelector('#' + x);
  const make = (id, into) => { const n = doc.createElement('div'); n.id = id; into.appendChild(n); return n; };
  const where = (e) => {
    const n = els[e];
    if (!n.isConnected || n.ownerDocument !== doc) return '-';
    const p = n.closest('#p') ? 'p' : n.closest('#q') ? 'q' : '?';
    const deep = n.parentElement.id === 'wrap';
    return p + (deep ? '/' : '');
  };
  // told of a placement, the element is right before its sibling, or last in its parent
  const placedRight = (e) => {
    const l = [...els[e].parentNode.childNodes], i = l.indexOf(els[e]);
    return opts[e].sib ? l[i + 1] === $('s') : i === l.length - 1 && els[e].parentNode === $(opts[e].parent);
  };
  for (const x of sels) seen[x] = 'no';
  const out = () => ({ in: Object.fromEntries(Object.keys(opts).map((e) => [e, where(e)])), calls: { ...calls }, done: { ...done }, seen: { ...seen }, paused: page.M.isGlobalObserverPaused(), ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) });
  return {
    async step(a) {
      if (a.n === 'init') return {};
      switch (a.n) {
        case 'insert': utils.insertElement(els[a.e], { parentSelector: '#' + opts[a.e].parent, insertBeforeSelector: opts[a.e].sib ? '#s' : null }, () => { calls[a.e]++; if (!placedRight(a.e)) calls[a.e] = 'misplaced'; }).then(() => { done[a.e] = true; }, (x) => { done[a.e] = String(x); }); break;
        case 'waitfor': seen[a.x] = 'waiting'; utils.waitForElement('#' + a.x).then((n) => { seen[a.x] = n === $(a.x) ? 'found' : 'another'; }); break;
        case 'put': make(a.p, doc.body); break;
        case 'drop': $(a.p).remove(); break;
        case 'sib': make('s', a.deep ? make('wrap', $(a.p)) : $(a.p)); break;
        case 'nosib': ($('wrap') ?? $('s')).remove(); break;
        case 'remove': for (let i = 0; i < a.k; i++) { els[a.e].remove(); await drain(1); } break;
        case 'adopt': { const d = new doc.constructor(); d.childNodes.push(d.createElement('body')); d.childNodes[0].parentNode = d; d.childNodes[0].appendChild(els[a.e]); break; }
        case 'failing': {
          const own = { cancelled: false }, n = doc.createElement('div');
          page.M.getInjectUtils(own).insertElement(n, { parentSelector: '#' + a.p, insertBeforeSelector: null }, () => { throw new Error('callback'); }).catch(() => {});
          own.cancelled = true;
          n.remove();
          break;
        }
        case 'touch': for (let i = 0; i < a.k; i++) { doc.body.setAttribute('x', String(i)); await drain(1); } break;
        case 'wait': await tab.clock.advance(a.ms); break;
        case 'cancel': state.cancelled = true; break;
      }
      await drain(2);
      return out();
    },
  };
}
