import { loadTag, Tab, drain } from '../lib/tag.mjs';
const ENTRY = "export { installSpaLinkInterceptor } from './src/util/spa-link-interceptor';";
export async function prepare({ links, hrefs }) {
  const load = await loadTag(ENTRY);
  return { create: async () => system(load, links, hrefs) };
}
function system(load, links, hrefs) {
  const tab = new Tab(load);
  const page = tab.open('https://www.example.com/dir/page');
  const { doc, g } = page;
  const pushed = [];
  let pops = 0;
  g.addEventListener('popstate', () => { pops++; });
  const make = (t, into) => { const n = doc.createElement(t); into.appendChild(n); return n; };
  const els = {};
  for (const l of links) { const a = make('a', make('div', doc.body)); a.setAttribute('href', '/own'); make('b', make('i', a)); els[l] = a; }
  const beside = make('p', doc.body);
  const routerClick = function (e) { if (e.defaultPrevented) return; };
  const otherClick = function () { return 1; };
  return {
    async step(a) {
      if (a.n === 'init') return {};
      const before = { url: page.url, nav: page.navigations.length, pushed: pushed.length, pops };
      let prevented = false, el = els[a.l];
      switch (a.n) {
        case 'install': page.M.installSpaLinkInterceptor(); break;
        case 'make':
          for (const k of Object.keys(el)) if (k.startsWith('__react')) delete el[k];
          el.__reactProps$x1 = {};
          if (a.k !== 'plain') el['__reactFiber$x1'] = a.k === 'bare' ? { memoizedProps: {} } : a.k === 'none' ? {} : { memoizedProps: { onClick: a.k === 'router' ? routerClick : otherClick } };
          if (a.t === '-') el.removeAttribute('target'); else el.setAttribute('target', a.t === 'empty' ? '' : a.t);
          break;
        case 'mutate': {
          const h = hrefs[a.to];
          el.setAttribute('href', h);
          (el.__mutationRecord__ ??= { element: el, attributes: {} }).attributes.href = { mutations: [{ kind: 'attribute' }] };
          break;
        }
        case 'revert':
          el.setAttribute('href', '/own');
          if (a.how === 'record') { delete el.__mutationRecord__.attributes.href; el.__mutationRecord__.attributes.title = { mutations: [{}] }; } else el.__mutationRecord__.attributes.href.mutations = [];
          break;
        case 'router': if (a.next) g.next = { router: { push: (to) => { pushed.push(to); } } }; else g.next = a.l ? undefined : {}; break;
        case 'click': case 'beside': {
          const target = a.n === 'beside' ? beside : a.where === 'link' ? el : a.where === 'child' ? el.firstChild : el.firstChild.firstChild;
          const m = a.mod;
          const ev = new page.Ev('click', { bubbles: true, cancelable: true, metaKey: m === 'meta', ctrlKey: m === 'ctrl', shiftKey: m === 'shift', altKey: m === 'alt', button: m === 'middle' ? 1 : 0 });
          target.dispatchEvent(ev);
          prevented = ev.defaultPrevented;
          break;
        }
      }
      await drain(2);
      const ways = [];
      const name = (to) => Object.keys(hrefs).find((k) => hrefs[k] === to) ?? to;
      for (const n of page.navigations.slice(before.nav)) ways.push(['page', Object.keys(hrefs).find((k) => hrefs[k] !== '' && new URL(hrefs[k], before.url).href === n.url) ?? n.url]);
      for (const to of pushed.slice(before.pushed)) ways.push(['next', name(to)]);
      const now = el?.getAttribute('href');
      if (page.url !== before.url || pops > before.pops) ways.push(['history', el && new URL(now, before.url).href === page.url ? name(now) : page.url]);
      return { prevented, went: ways.length > 1 ? ways : ways[0]?.[1] ?? '-', by: ways[0]?.[0] ?? '-', pops: pops - before.pops, ...(tab.errors.length ? { errors: tab.errors.splice(0) } : {}) };
    },
  };
}
