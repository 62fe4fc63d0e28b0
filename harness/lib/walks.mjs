// Turns a dumped TLC state graph into walks that together take every edge.
const canon = (v) =>
  Array.isArray(v) ? v.map(canon)
    : v && typeof v === 'object' ? Object.fromEntries(Object.keys(v).sort().map((k) => [k, canon(v[k])]))
    : v;
export function buildGraph(inits, edges) {
  const ids = new Map();
  const id = (v) => {
    const k = JSON.stringify(canon(v));
    let i = ids.get(k);
    if (i === undefined) ids.set(k, (i = ids.size));
    return i;
  };
  const roots = inits.map(([a, o, v]) => ({ a, o, n: id(v) }));
  const E = [];
  const seen = new Set();
  for (const [s, a, o, t] of edges) {
    const si = id(s);
    const ti = id(t);
    const k = si + '|' + JSON.stringify(a) + '|' + JSON.stringify(o) + '|' + ti;
    if (seen.has(k)) continue;
    seen.add(k);
    E.push({ s: si, a, o, t: ti });
  }
  const adj = Array.from({ length: ids.size }, () => []);
  E.forEach((e, i) => adj[e.s].push(i));
  return { roots, E, adj, n: ids.size };
}

// Deterministic PRNG (mulberry32)
export function rng(seed) {
  let a = seed >>> 0;
  return () => {
    a = (a + 0x6d2b79f5) >>> 0;
    let t = a;
    t = Math.imul(t ^ (t >>> 15), t | 1);
    t ^= t + Math.imul(t ^ (t >>> 7), t | 61);
    return ((t ^ (t >>> 14)) >>> 0) / 4294967296;
  };
}

export function coverWalks(g, { maxLen = 60, seed = 1, maxWalks = Infinity } = {}) {
  const rnd = rng(seed);
  const left = g.adj.map((l) => l.slice());
  for (const l of left) {
    for (let i = l.length - 1; i > 0; i--) {
      const j = Math.floor(rnd() * (i + 1));
      [l[i], l[j]] = [l[j], l[i]];
    }
  }
  let remaining = g.E.length;
  const walks = [];
  const covered = new Uint8Array(g.E.length);
  const mark = (ei) => {
    if (covered[ei]) return;
    covered[ei] = 1;
    remaining--;
  };
  const next = (n) => {
    const l = left[n];
    while (l.length && covered[l[l.length - 1]]) l.pop();
    return l.length ? l[l.length - 1] : -1;
  };
  // BFS from n to the nearest node with an uncovered edge
  const par = new Int32Array(g.n);
  const stamp = new Int32Array(g.n);
  let tick = 0;
  const route = (n, limit) => {
    tick++;
    const q = [n];
    stamp[n] = tick;
    par[n] = -1;
    for (let h = 0; h < q.length && h < limit; h++) {
      const x = q[h];
      if (next(x) >= 0) {
        const path = [];
        for (let y = x; par[y] >= 0; y = g.E[par[y]].s) path.push(par[y]);
        return path.reverse();
      }
      for (const ei of g.adj[x]) {
        const t = g.E[ei].t;
        if (stamp[t] !== tick) {
          stamp[t] = tick;
          par[t] = ei;
          q.push(t);
        }
      }
    }
    return null;
  };
  // nodes that can't be reached (never for BFS output) are skipped
  let rootIdx = 0;
  const deadRoots = new Set();
  while (remaining > 0 && walks.length < maxWalks && deadRoots.size < g.roots.length) {
    while (deadRoots.has(rootIdx % g.roots.length)) rootIdx++;
    const ri = rootIdx % g.roots.length;
    rootIdx++;
    const root = g.roots[ri];
    const steps = [{ a: root.a, o: root.o }];
    let n = root.n;
    let progressed = false;
    while (steps.length < maxLen) {
      let ei = next(n);
      if (ei >= 0) {
        mark(ei);
        progressed = true;
        steps.push({ a: g.E[ei].a, o: g.E[ei].o });
        n = g.E[ei].t;
        continue;
      }
      const p = route(n, steps.length === 1 ? Infinity : 400);
      if (!p || (steps.length > 1 && steps.length + p.length >= maxLen)) break;
      for (const e of p) {
        mark(e);
        steps.push({ a: g.E[e].a, o: g.E[e].o });
        n = g.E[e].t;
      }
    }
    if (!progressed && steps.length === 1) {
      deadRoots.add(ri);
      if (remaining === g.E.length && g.E.length === 0) break;
      continue;
    }
    walks.push(steps);
  }
  for (const r of g.roots) if (g.adj[r.n].length === 0) walks.push([{ a: r.a, o: r.o }]);
  return { walks, coveredEdges: g.E.length - remaining };
}

// Further random walks over the same graph. Covering every transition once reaches each state by few histories;
// these prefer transitions which return to earlier states, since code may remember what the specification's state has forgotten.
export function wanderWalks(g, { steps, maxLen = 60, seed = 1 }) {
  const rnd = rng(seed * 7919 + 17);
  const depth = new Int32Array(g.n).fill(-1);
  const q = g.roots.map((r) => r.n);
  for (const n of q) depth[n] = 0;
  for (let h = 0; h < q.length; h++)
    for (const ei of g.adj[q[h]]) {
      const t = g.E[ei].t;
      if (depth[t] < 0) { depth[t] = depth[q[h]] + 1; q.push(t); }
    }
  const back = g.adj.map((l, n) => l.filter((ei) => depth[g.E[ei].t] <= depth[n]));
  const on = g.adj.map((l) => l.filter((ei) => g.adj[g.E[ei].t].length));
  const walks = [];
  const roots = g.roots.filter((r) => g.adj[r.n].length);
  let left = roots.length ? steps : 0;
  while (left > 0) {
    const root = roots[Math.floor(rnd() * roots.length)];
    const walk = [{ a: root.a, o: root.o }];
    let n = root.n;
    while (walk.length < maxLen && g.adj[n].length) {
      const r = rnd();
      const from = r < 0.35 && back[n].length ? back[n] : r < 0.9 && on[n].length ? on[n] : g.adj[n];
      const e = g.E[from[Math.floor(rnd() * from.length)]];
      walk.push({ a: e.a, o: e.o });
      n = e.t;
    }
    left -= walk.length;
    walks.push(walk);
  }
  return walks;
}
