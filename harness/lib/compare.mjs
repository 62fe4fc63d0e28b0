// Comparison of an expected (spec) observation with an observed one.
//  '~'  in the spec stands for null / undefined / absent
//  '*'  matches anything
//  keys ending in _set are compared as sets, in _bag without regard to order
//  keys ending in _between: the spec says what must be there and what may; the code says what is
//  an empty record, sequence and function are one value
export function norm(v, key = '') {
  if (v === null || v === undefined || v === '~') return '~';
  if (Array.isArray(v)) {
    if (v.length === 0) return '<>';
    const l = v.map((x) => norm(x));
    if (key.endsWith('_set')) return [...new Set(l.map((x) => JSON.stringify(x)))].sort().map((x) => JSON.parse(x));
    if (key.endsWith('_bag')) return l.map((x) => JSON.stringify(x)).sort().map((x) => JSON.parse(x));
    return l;
  }
  if (typeof v === 'object') {
    const out = {};
    for (const k of Object.keys(v).sort()) {
      const x = norm(v[k], k);
      if (x !== '~') out[k] = x;
    }
    return Object.keys(out).length ? out : '<>';
  }
  return v;
}
export function match(exp, act) {
  if (exp === '*') return true;
  if (typeof exp !== 'object' || exp === null) return exp === act;
  if (typeof act !== 'object' || act === null) return false;
  if (Array.isArray(exp)) {
    return Array.isArray(act) && exp.length === act.length && exp.every((e, i) => match(e, act[i]));
  }
  if (Array.isArray(act)) return false;
  for (const k of new Set([...Object.keys(exp), ...Object.keys(act)])) {
    if (exp[k] === '*') continue;
    if (k.endsWith('_between')) {
      const str = (l) => (Array.isArray(l) ? l : []).map((x) => JSON.stringify(x));
      const is = new Set(str(act[k])), must = str(exp[k]?.must), ok = new Set([...must, ...str(exp[k]?.may)]);
      if (!must.every((x) => is.has(x)) || ![...is].every((x) => ok.has(x))) return false;
      continue;
    }
    if (!(k in exp) || !(k in act)) return false;
    if (!match(exp[k], act[k])) return false;
  }
  return true;
}
// fields: restrict comparison to these observation keys (null = all)
export function agrees(exp, act, fields = null) {
  const pick = (o) => {
    if (!fields || o === null || typeof o !== 'object' || Array.isArray(o)) return o;
    const r = {};
    for (const f of fields) if (f in o) r[f] = o[f];
    return r;
  };
  return match(norm(pick(exp)), norm(pick(act)));
}
