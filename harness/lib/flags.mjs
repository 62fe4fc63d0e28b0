// Flag configurations for the flag kinds of the specifications.
const cond = (selector, op, values) => ({ selector, op, values });
const flag = (key, v, conditions, metadata = {}, dependencies) => ({
  key,
  variants: { [v]: { key: v, value: v, metadata: { segmentName: 's' } } },
  segments: [conditions ? { conditions: [conditions], variant: v } : { variant: v }],
  metadata: { deployed: true, evaluationMode: 'local', ...metadata },
  ...(dependencies ? { dependencies } : {}),
});
export const mkFlag = (key, k) => {
  if (k === 'uid') return flag(key, k, [cond(['context', 'user', 'user_id'], 'is', ['u1'])]);
  if (k === 'gold') return flag(key, k, [cond(['context', 'user', 'user_properties', 'plan'], 'is', ['gold'])]);
  if (k === 'dep') return flag(key, k, [cond(['result', 'f1', 'key'], 'is', ['a', 'uid', 'rem'])], {}, ['f1']);
  if (k === 'rem') return flag(key, k, undefined, { evaluationMode: 'remote' });
  return flag(key, k);
};
export const PLAN = { u1: 'gold', u2: 'free' };
export const mkUser = (u) => (u === '~' ? undefined : { user_id: u, ...(PLAN[u] ? { user_properties: { plan: PLAN[u] } } : {}) });
