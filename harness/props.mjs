// Which jobs decide each property. jobs(tier, seed) -> list of jobs.
const S = (...x) => new Set(x);
const T = (tier, q, t) => (tier === 'thorough' ? t : q);
export const props = {};

// ------------------------------------------------------------------ connector
props.C01 = {
  jobs: (tier) => {
    const base = { spec: 'EventBridge', adapter: 'connector', options: { which: 'bridge' } };
    return [
      { kind: 'model', name: 'bridge-design', spec: 'EventBridge', noView: true,
        constants: { Insts: S('A', 'a'), Recvs: S('r1', 'r2'), Cap: 2, Bursts: S(1, 2), MaxEvents: T(tier, 5, 7) },
        invariants: ['InOrderOnce', 'NothingLostUnderCap', 'Bounded', 'DirectWhenAttached'] },
      { kind: 'edges', name: 'bridge-transitions', ...base,
        constants: { Insts: S('A', 'a'), Recvs: S('r1', 'r2'), Cap: 512, Bursts: S(1, 2), MaxEvents: T(tier, 5, 7) } },
      { kind: 'sim', name: 'bridge-bound', ...base, depth: 12, num: T(tier, 150, 2000),
        constants: { Insts: S('A', 'a'), Recvs: S('r1', 'r2', 'r3'), Cap: 512, Bursts: S(1, 2, 255, 510, 511, 512, 513, 700), MaxEvents: 100000 } },
    ];
  },
};
const OPS = '={<<[op |-> "$set", m |-> [k \\in Keys |-> v]]>> : v \\in Vals}'
  + ' \\cup {<<[op |-> "$unset", ks |-> {k}]>> : k \\in Keys} \\cup {<<[op |-> "$clearAll"]>>, <<[op |-> "$append"]>>}'
  + ' \\cup {<<[op |-> "$clearAll"], [op |-> "$set", m |-> [j \\in Keys |-> IF j = k THEN v ELSE "~"]]>> : v \\in Vals, k \\in Keys}'
  + ' \\cup {<<[op |-> "$set", m |-> [j \\in Keys |-> IF j = k THEN v ELSE "~"]], [op |-> "$clearAll"]>> : v \\in Vals, k \\in Keys}'
  + ' \\cup {<<[op |-> "$unset", ks |-> {k}], [op |-> "$set", m |-> [j \\in Keys |-> v]]>> : v \\in Vals, k \\in Keys}'
  + ' \\cup {<<[op |-> "$set", m |-> [j \\in Keys |-> v]], [op |-> "$unset", ks |-> {k}]>> : v \\in Vals, k \\in Keys}';
props.C02 = {
  jobs: (tier) => {
    const base = { spec: 'IdentityStore', adapter: 'connector', options: { which: 'identity' } };
    const c = (o) => ({ Users: S('u1'), Devices: S('d1'), Keys: S('k1'), Vals: S('v8', 'v9'), Lsn: S('l1'), Eds: S('e1'), OptOuts: S('t'), UpdateOps: OPS, ...o });
    return [
      { kind: 'model', name: 'identity-design', spec: 'IdentityStore', specification: 'Spec',
        constants: c({ Eds: S('e1', 'e2'), Devices: S(), Users: S('u1'), Vals: S('v8') , Lsn: S('l1', 'l2')}),
        properties: ['OnlyCommitsChange', 'NotifiedIffChanged', 'AllNotified', 'EditorsIndependent'] },
      { kind: 'edges', name: 'identity-transitions', ...base,
        constants: c({ Eds: S('e1', 'e2'), Devices: S(), OptOuts: S(), Vals: S('v8'), UpdateOps: OPS }) },
      ...[['v1', 'v2'], ['v1', 'v3'], ['v4', 'v13'], ['v5', 'v6'], ['v5', 'v7'], ['v8', 'v17'], ['v10', 'v11'], ['v12', 'v13'], ['v14', 'v15'], ['v15', 'v16'], ['v18', 'v19'], ['v12', 'v20']].map((p) => (
        { kind: 'edges', name: `identity-values-${p.join('-')}`, ...base, constants: c({ Devices: S(), Users: S(), OptOuts: S(), Vals: S(...p) }) })),
      { kind: 'sim', name: 'identity-values', ...base, pick: true, depth: 30, num: T(tier, 300, 6000),
        constants: c({ Users: S('u1', 'u2'), Devices: S('d1', 'd2'), Keys: S('k1', 'k2'), Lsn: S('l1', 'l2', 'l3'), Eds: S('e1', 'e2', 'e3'),
          OptOuts: S('t', 'f'), Vals: '=LET all == {"v1","v2","v3","v4","v5","v6","v7","v8","v9","v10","v11","v12","v13","v14","v15","v16","v17","v18","v19","v20"} IN all' }) },
    ];
  },
};

// ------------------------------------------------------------ browser: remote
const CFG = (...x) => `={${x.map(([r, t, k, ms]) => `[retry |-> ${r ? 'TRUE' : 'FALSE'}, throw |-> ${t ? 'TRUE' : 'FALSE'}, key |-> ${k ? 'TRUE' : 'FALSE'}, timeout |-> ${ms}]`).join(', ')}}`;
const fetchBase = { spec: 'ClientFetch', adapter: 'client-fetch' };
const ALLCFG = CFG([1, 0, 1, 10000], [1, 1, 1, 2000], [0, 0, 1, 10000], [0, 1, 1, 700], [1, 0, 1, 400], [1, 1, 0, 10000], [1, 0, 0, 10000]);
const big = {
  Users: S('u1', 'u2', 'u3'), KeyChoices: '={<<"*">>, <<"f1">>, <<"f2">>, <<"f1","f2">>, <<"f3","f2">>, <<>>, <<"f1","f2","f3">>, <<"f2","f2">>, <<"x1","f1","x2","x3","f3","x4">>}',
  Replies: '=[{"f1","f2","f3"} -> {"~","a","b","c"}]', Flags: S('f1', 'f2', 'f3'), Slots: S(1, 2, 3, 4),
  Statuses: S(400, 401, 404, 413, 429, 499, 500, 503, 599, 302), Configs: ALLCFG,
  Steps: S(128, 128 * 100, 128 * 499, 128 * 3000), Faults: '={TRUE, FALSE}',
};
const fetchJobs = (tier) => [
  { kind: 'model', name: 'fetch-design', spec: 'ClientFetch', specification: 'Spec',
    constants: { Users: S('u1'), KeyChoices: '={<<"*">>, <<"f1">>}', Replies: '={[f \\in {"f1","f2"} |-> "a"], [f \\in {"f1","f2"} |-> IF f = "f2" THEN "b" ELSE "~"]}',
      Flags: S('f1', 'f2'), Slots: T(tier, S(1, 2), S(1, 2)), Statuses: S(400, 500), Configs: CFG([1, 0, 1, 600]), Steps: S(), Faults: S() },
    constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 11, 18)}`,
    invariants: ['DiskFollowsMemory', 'AtMostOneRetryChain', 'RetryIsNewest', 'Bounded'],
    properties: ['FailureKeepsVariants', 'SupersededRetryChangesNothing'] },
  { kind: 'edges', name: 'fetch-transitions', ...fetchBase, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    constants: { Users: S('u1', 'u2'), KeyChoices: '={<<"*">>, <<"f1">>, <<>>}', Replies: '={[f \\in {"f1","f2"} |-> "a"], [f \\in {"f1","f2"} |-> IF f = "f2" THEN "b" ELSE "~"]}',
      Flags: S('f1', 'f2'), Slots: S(1, 2, 3), Statuses: S(404, 500), Configs: CFG([1, 0, 1, 10000], [0, 1, 1, 10000], [1, 0, 0, 10000]), Steps: S(), Faults: S() } },
  { kind: 'sim', name: 'fetch-random', ...fetchBase, pick: true, depth: 40, num: T(tier, 1500, 20000), constants: big },
  { kind: 'sim', name: 'fetch-retry-chains', ...fetchBase, pick: true, depth: 40, num: T(tier, 600, 8000),
    constants: { ...big, Users: S('u1', 'u2'), KeyChoices: '={<<"*">>, <<"f1">>}', Statuses: S(500), Steps: S(), Faults: S(), Configs: CFG([1, 0, 1, 10000], [1, 0, 1, 400]), Slots: S(1, 2) } },
];
props.B02 = { jobs: fetchJobs };
props.B03 = { jobs: fetchJobs };

const lcCfg = (...x) => `={${x.map(([t, p, f, i, init]) => `[throw |-> ${t ? 'TRUE' : 'FALSE'}, poll |-> ${p ? 'TRUE' : 'FALSE'}, fetch |-> ${f ? 'TRUE' : 'FALSE'}, interval |-> ${i < 0 ? '0 - ' + -i : i}, init |-> [f \\in Flags |-> ${init}]]`).join(', ')}}`;
const lcAll = lcCfg([0, 1, 1, 60000, '"~"'], [0, 1, 0, 1000, '"~"'], [1, 1, 1, 90000, '"~"'], [0, 0, 1, -1, '"~"'], [0, 1, 1, -1, 'IF f = "f1" THEN "b" ELSE "~"'], [1, 1, 0, 0, 'IF f = "f2" THEN "dep" ELSE "~"'], [0, 1, 1, 61000, '"b"']);
const lcBase = { spec: 'ClientLifecycle', adapter: 'client-lifecycle' };
const LC = S('init', 'start', 'stop', 'okFlags', 'okFetch', 'fail', 'wait', 'setUser', 'provider', 'reload');
const BODY3 = '={[f \\in Flags |-> CASE f = "f1" -> x [] f = "f2" -> y [] OTHER -> z] : x \\in {"~","a","b","uid","gold","rem"}, y \\in {"~","a","uid","gold","dep","rem"}, z \\in {"~","dep","gold","b"}}';
const life = { Users: S('u1', 'u2', 'u3'), Flags: S('f1', 'f2', 'f3'), Slots: S(1, 2, 3, 4, 5, 6), Starts: S(1, 2, 3), Configs: lcAll, Steps: S(1, 2500, 9999, 30000), Acts: LC };
const lifeJobs = (tier) => [
  { kind: 'model', name: 'lifecycle-design', spec: 'ClientLifecycle', specification: 'Spec', constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 9, 13)}`,
    constants: { ...life, Users: S('u1'), Flags: S('f1'), Bodies: '={[f \\in {"f1"} |-> "a"]}', Slots: S(1, 2, 3, 4), Starts: S(1, 2), Steps: S(), Acts: S('start', 'stop', 'okFlags', 'okFetch', 'fail', 'wait') },
    invariants: ['PollOnlyWhileRunning', 'PollPeriod'], properties: ['StoppedSendsNothing', 'FailureKeepsFlags', 'StartIdempotent', 'OnePollPerTick'] },
  { kind: 'edges', name: 'lifecycle-transitions', ...lcBase, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 9)}`,
    constants: { ...life, Users: S('u1'), Flags: S('f1'), Bodies: '={[f \\in {"f1"} |-> "a"]}', Slots: S(1, 2, 3, 4), Starts: S(1, 2), Steps: S(),
      Configs: lcCfg([0, 1, 1, 60000, '"~"'], [1, 1, 1, 60000, '"~"'], [0, 1, 0, 1000, '"~"']), Acts: S('start', 'stop', 'okFlags', 'okFetch', 'fail', 'wait', 'reload') } },
  { kind: 'sim', name: 'lifecycle-random', ...lcBase, pick: true, depth: 40, num: T(tier, 1500, 15000), constants: { ...life, Bodies: BODY3 } },
  { kind: 'sim', name: 'lifecycle-polling', ...lcBase, pick: true, depth: 60, num: T(tier, 300, 4000),
    constants: { ...life, Bodies: BODY3, Acts: S('start', 'stop', 'okFlags', 'okFetch', 'fail', 'wait'), Steps: S() } },
];
props.B04 = { jobs: lifeJobs };
props.B12 = { jobs: (tier) => [
  { kind: 'edges', name: 'evaluation-transitions', ...lcBase, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}`,
    constants: { ...life, Users: S('u1', 'u2'), Flags: S('f1', 'f2'), Bodies: '={[f \\in {"f1","f2"} |-> IF f = "f1" THEN x ELSE y] : x \\in {"a","uid","rem","~"}, y \\in {"dep","gold"}}',
      Slots: S(1, 2), Starts: S(1), Steps: S(), Configs: lcCfg([0, 0, 0, -1, '"~"'], [0, 0, 0, -1, 'IF f = "f2" THEN "b" ELSE "~"']), Acts: S('start', 'okFlags', 'setUser', 'provider', 'reload', 'fail') } },
  ...lifeJobs(tier).filter((j) => j.kind === 'sim'),
] };

// ------------------------------------------------------------ browser: lookups
const lookC = {
  Sources: S('localStorage', 'initialVariants'),
  Stored: S('~', 'sOn', 'sKV', 'sDef', 'sDefV', 'sNoTr', 'sEv', 'sWeb', 'sEvWeb', 'sStr', 'sVal', 'sExp', 'sEmpty'),
  Fetched: S('~', 'sOn2', 'sDefV'),
  Initials: S('~', 'iOn', 'iStr', 'iDef', 'iNoTr'), Fallbacks: S('~', 'cStr', 'cObj', 'fEmpty'),
  FlagKinds: S('~', 'lOn', 'lDef', 'lNoTr', 'lNone', 'lWeb', 'rOn', 'rDef', 'rNone'), Inlines: S('~', 'fStr', 'fObj', 'fKey', 'fEmpty', 'fBlank'),
  Autos: '={TRUE, FALSE}', Legacies: '={FALSE}',
};
const lookJobs = (fields) => (tier) => [
  { kind: 'model', name: 'lookup-design', spec: 'VariantLookup', constants: lookC,
    invariants: ['LocalNeverStored', 'StoredFirst', 'InitialFirst', 'InlineBeatsDefault', 'SomethingIfAnything', 'FallbackCarriesNoVariant'] },
  { kind: 'edges', name: 'lookup-table', spec: 'VariantLookup', adapter: 'variant-lookup', fields, maxLen: 40,
    constants: tier === 'thorough' || true ? lookC : {
      Stored: fields.includes('ex') ? lookC.Stored : S('~', 'sOn', 'sDef', 'sDefV', 'sStr', 'sVal', 'sEmpty'), Fetched: S('~', 'sOn2'),
      Initials: S('~', 'iOn', 'iStr', 'iDef'), FlagKinds: S('~', 'lOn', 'lDef', 'lNone', 'lNoTr', 'rOn', 'rDef'), Inlines: S('~', 'fStr', 'fObj', 'fEmpty') } },
];
const legacyJob = (tier) => ({ kind: 'edges', name: 'legacy-provider', spec: 'VariantLookup', adapter: 'variant-lookup', fields: ['lg'], maxLen: 60,
  constants: { ...lookC, Legacies: '={TRUE}', Stored: S('~', 'sOn', 'sOn2', 'sDef', 'sDefV', 'sNoTr'), Fetched: S('~', 'sOn', 'sOn2', 'sDefV'), Inlines: S('~', 'fStr', 'fObj'),
    Initials: T(tier, S('~', 'iOn'), S('~', 'iOn', 'iDef', 'iNoTr')), Fallbacks: S('~', 'cStr'), FlagKinds: T(tier, S('~', 'lOn', 'lDef', 'rOn'), lookC.FlagKinds) } });
props.B01 = { jobs: lookJobs(['v', 'all']) };
props.B08 = { jobs: (tier) => [...lookJobs(['ex', 'ep'])(tier), legacyJob(tier)] };

// --------------------------------------------------------- browser: exposures
const exAll = S('init', 'expose', 'web', 'user', 'answer', 'attach', 'settle', 'late', 'wait', 'reload', 'newSession');
const exBase = { spec: 'ExposurePipeline', adapter: 'exposures' };
const exC = { Flags: S('f1', 'f2'), Variants: S('a', 'b', '~'), UserIds: S('~', 'u1', 'u2'), DeviceIds: S('~', 'd1', 'd2'), Cap: 512, Bursts: S(1, 2, 3),
  Budgets: S(0, 1, 2, 100000), MaxAttach: 2, Stores: S('both', 'none'), Detailed: true, Steps: S(1, 400, 999), Acts: exAll };
const exSim = (tier) => ({ kind: 'sim', name: 'exposure-random', ...exBase, pick: true, depth: 40, num: T(tier, 400, 5000), constants: exC });
const exDesign = { kind: 'model', name: 'exposure-design', spec: 'ExposurePipeline', specification: 'Spec', constraints: ['Lvl'], extra: 'Lvl == TLCGet("level") <= 8',
  constants: { ...exC, Flags: S('f1'), Variants: S('a', '~'), UserIds: S('~', 'u1'), DeviceIds: S('~', 'd1'), Cap: 2, Bursts: S(1, 3), Budgets: S(0, 1, 100000), Steps: S() },
  invariants: ['Bounded'], properties: ['RefusedStays', 'InOrder', 'OnceUntilChange', 'FirstNeverSuppressed'] };
const shBase = { spec: 'SharedQueue', adapter: 'shared-queue', options: { webs: 3 } };
const shC = (o = {}) => ({ Tabs: S('A', 'B'), Cap: 512, Bursts: S(1), Budgets: S(0, 1, 100000), Steps: S(400), Webs: 3, Acts: S('init', 'web', 'attach', 'answer', 'reload', 'wait'), ...o });
props.B06 = { jobs: (tier) => [exDesign,
  { kind: 'edges', name: 'dedupe-transitions', ...exBase, maxLen: 40, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)} /\\ Len(s.queue) <= 3`,
    constants: { ...exC, Flags: S('f1', 'f2'), Variants: S('a', 'b', '~'), DeviceIds: S('~', 'd1'), Stores: S('both', 'none'), MaxAttach: 1, Bursts: S(), Steps: S(), Acts: S('expose', 'user', 'reload', 'newSession'), Budgets: S(100000) } },
  exSim(tier)] };
props.B07 = { jobs: (tier) => [exDesign,
  { kind: 'edges', name: 'delivery-transitions', ...exBase, maxLen: 60, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 9, 11)} /\\ Len(s.queue) <= 4`,
    constants: { ...exC, Flags: S('f1'), Variants: S('a'), UserIds: S('~'), DeviceIds: S('~'), Bursts: S(1), Steps: S(400), Acts: S('web', 'answer', 'attach', 'settle', 'wait', 'reload', 'late'), Budgets: S(0, 1, 100000) } },
  { kind: 'sim', name: 'queue-bound', ...exBase, options: { detail: false }, pick: true, depth: 14, num: T(tier, 60, 600), constants: { ...exC, Detailed: false, Bursts: S(1, 255, 256, 257, 511, 512, 513, 600), Budgets: S(0, 1, 300, 100000), Acts: S('web', 'answer', 'attach', 'settle', 'wait', 'reload') } },
  { kind: 'model', name: 'shared-queue-design', spec: 'SharedQueue', specification: 'Spec', constants: shC({ Cap: 4, Webs: 3 }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 8, 10)}`,
    invariants: ['Bounded'], properties: ['NothingLost', 'OnlyAttachedTake'] },
  { kind: 'edges', name: 'shared-queue-transitions', ...shBase, constants: shC(), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 9, 11)} /\\ Len(s.disk) <= 3` },
  { kind: 'sim', name: 'shared-queue-random', ...shBase, options: { webs: 7 }, pick: true, depth: 40, num: T(tier, 300, 4000), constants: shC({ Tabs: S('A', 'B', 'C'), Webs: 7, Bursts: S(1, 2, 3), Budgets: S(0, 1, 2, 100000), Steps: S(1, 400, 999) }) },
  { kind: 'edges', name: 'through-amplitude-transitions', ...ampBase, constants: ampC(['init', 'make', 'receiver', 'balk', 'expose', 'wait', 'reload'], { MaxClients: 1, MaxQ: 2, Ids: ID(['u1', '~', '~']), PerIds: PID(['none', '~']), Steps: S(10000) }),
    constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 9, 11)}` },
  { kind: 'sim', name: 'through-amplitude', ...ampBase, pick: true, depth: 40, num: T(tier, 300, 4000),
    constants: ampC(['init', 'make', 'identity', 'receiver', 'balk', 'expose', 'wait', 'reload'], { Names: S('A', 'B'), MaxClients: 2, MaxQ: 6, Ids: ID(['u1', '~', '~'], ['~', 'd1', '~']), Steps: S(2000, 10000) }) },
  exSim(tier)] };

// ------------------------------------------------------- browser: persistence
const perBase = { spec: 'Persistence', adapter: 'persistence' };
const INITS = (...x) => `={${x.map(([a, b]) => `[f \\in {"f1","f2"} |-> IF f = "f1" THEN "${a}" ELSE "${b}"]`).join(', ')}}`;
const perActs = S('init', 'page', 'fetch', 'fetchOne', 'fetchFails', 'flags', 'track', 'clear', 'lookups', 'older', 'damage', 'damageExposures');
const perC = { Clients: S('A-k1', 'A-k1x', 'A-k2', 'B-k1', 'A-k1-web', 'A-k2-web'), Modes: S('ok', 'full', 'blocked', 'absent', 'unreadable'),
  VNames: S('~', 'a', 'b', 'off'), Legacy: S('text', 'val', 'valp', 'exp', 'null', 'num', 'bare', 'a'), FKinds: S('~', 'a', 'b'), Opts: S('track', 'no-track'),
  Damage: S('garbage', 'text', 'null', 'empty', 'gone'), Inits: INITS(['~', '~'], ['b', '~'], ['b', 'b']), Acts: perActs };
props.B05 = { jobs: (tier) => [
  { kind: 'model', name: 'persistence-design', spec: 'Persistence', specification: 'Spec', constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}`,
    constants: { ...perC, Clients: S('A-k1', 'A-k1x', 'B-k1'), VNames: S('~', 'a'), Legacy: S('text', 'null'), FKinds: S('~', 'a'), Opts: S('track'), Damage: S('garbage', 'gone'), Inits: INITS(['~', '~'], ['b', 'b']), Modes: S('ok', 'full', 'blocked') },
    invariants: ['NeverThrows'], properties: ['OnlyOwnSpace', 'SeesLastStored', 'InitialOnlyFills'] },
  { kind: 'edges', name: 'persistence-transitions', ...perBase, maxLen: 40, constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}`,
    constants: { ...perC, Clients: S('A-k1', 'B-k1'), VNames: S('~', 'a'), Legacy: S('text', 'val'), FKinds: S('~', 'a'), Opts: S('track'), Damage: S('garbage'), Inits: INITS(['~', '~'], ['b', 'b']), Modes: S('ok', 'full'),
      Acts: S('page', 'fetch', 'fetchOne', 'flags', 'track', 'clear', 'older', 'damage') } },
  { kind: 'sim', name: 'persistence-random', ...perBase, pick: true, depth: 40, num: T(tier, 1500, 15000), constants: perC },
  { kind: 'sim', name: 'persistence-legacy', ...perBase, pick: true, depth: 30, num: T(tier, 500, 5000), constants: { ...perC, Clients: S('A-k1', 'A-k1x'), Modes: S('ok', 'full'), Acts: S('page', 'older', 'damage', 'fetchOne', 'flags', 'lookups') } },
] };

// ------------------------------------------------------------- browser: user
const userBase = { spec: 'ClientUser', adapter: 'client-user' };
const uset = (fields, ...us) => `={${us.map((u) => `[f \\in {${fields.map((f) => `"${f}"`)}} |-> CASE ${Object.entries(u).map(([k, v]) => `f = "${k}" -> "${v}"`).concat('OTHER -> "~"').join(' [] ')}]`).join(', ')}}`;
const UF = ['uid', 'did', 'p1', 'p2'];
const userSmall = (acts, o) => ({ Fields: S(...UF), Props: S('p1', 'p2'), Handles: S('h1'), MaxInt: 2, MaxWait: 3, MutVals: S('~', 'y'),
  UserVals: uset(UF, { uid: 'x', p1: 'x' }, { uid: 'y', did: 'y' }), Configs: '={[web |-> FALSE]}', Acts: S(...acts), ...o });
const WHO = ['init', 'new', 'mutate', 'get', 'set', 'fetch', 'start', 'provider'];
const READY = ['init', 'new', 'set', 'fetch', 'start', 'attach', 'settle', 'intUser'];
const ALLACTS = [...new Set([...WHO, ...READY])];
const UFL = ['uid', 'did', 'lib', 'cty', 'p1', 'p2', 'p3'];
// a reproducible sample of n members of [fields -> vals]
const rng = (seed) => { let x = (seed * 2654435761 + 88675123) >>> 0; return () => { x ^= x << 13; x >>>= 0; x ^= x >>> 17; x ^= x << 5; x >>>= 0; return x / 4294967296; }; };
const sampleFns = (fields, vals, n, seed) => {
  const r = rng(seed);
  return `={${Array.from({ length: n }, () => `[${fields.map((f) => `${f} |-> "${vals[Math.floor(r() * vals.length)]}"`).join(', ')}]`).join(', ')}}`;
};
const userBig = (seed, n) => ({ Fields: S(...UFL), Props: S('p1', 'p2', 'p3'), Handles: S('h1', 'h2', 'h3'), MaxInt: 6, MaxWait: 5, MutVals: S('~', 'x', 'y', 'z', 'nil'),
  UserVals: sampleFns(UFL, ['~', '~', 'x', 'y', 'z', 'nil'], n, seed), Configs: '={[web |-> FALSE], [web |-> TRUE]}', Acts: S(...ALLACTS) });
const userJobs = (tier, seed) => [
  { kind: 'model', name: 'user-design', spec: 'ClientUser', specification: 'Spec',
    constants: userSmall(ALLACTS, { Configs: '={[web |-> TRUE]}', MutVals: S('y') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}`,
    invariants: ['NothingWaitsWhenReady', 'ExplicitWins'],
    properties: ['OnlyTheClientChangesIt', 'ReadBack', 'ReadyOnce', 'WaitsForCurrent', 'MutationInvisible'] },
  { kind: 'edges', name: 'user-copies', ...userBase, options: { fields: UF }, constants: userSmall(WHO),
    constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}` },
  { kind: 'edges', name: 'user-readiness', ...userBase, options: { fields: UF },
    constants: userSmall(READY, { Configs: '={[web |-> FALSE], [web |-> TRUE]}', UserVals: uset(UF, { uid: 'x', p1: 'x' }) }),
    constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 8, 10)}` },
  { kind: 'sim', name: 'user-random', ...userBase, pick: true, options: { fields: UFL }, depth: 40, num: T(tier, 800, 20000), constants: userBig(seed, T(tier, 60, 200)) },
];
props.B09 = { jobs: userJobs };
props.B10 = { jobs: userJobs };

// ------------------------------------------------------- browser: user context
const UC_AGENTS = [
  { ua: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', lang1: 'en-GB', langs: ['fr-FR', 'en'], language: 'fr-FR', os: 'Chrome 120', model: 'Linux', category: 'desktop', browser: 'Chrome' },
  { ua: 'Mozilla/5.0 (iPhone; CPU iPhone OS 17_0 like Mac OS X) AppleWebKit/605.1.15 (KHTML, like Gecko) Version/17.0 Mobile/15E148 Safari/604.1', lang1: 'de-DE', langs: [], language: 'de-DE', os: 'Mobile Safari 17', model: 'iOS', category: 'mobile', browser: 'Safari' },
  { ua: 'Mozilla/5.0 (Macintosh; Intel Mac OS X 10.15; rv:121.0) Gecko/20100101 Firefox/121.0', lang1: 'en', langs: ['en'], language: 'en', os: 'Firefox 121', model: 'Mac OS', category: 'desktop', browser: 'Firefox' },
  { ua: 'Mozilla/5.0 (Linux; Android 13; SM-X200) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36', lang1: 'en', langs: ['en'], language: 'en', os: 'Chrome 120', model: 'Android', category: 'tablet', browser: 'Chrome' },
  { ua: 'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/120.0.0.0 Safari/537.36 Edg/120.0.2210.91', lang1: '', langs: [], language: '', os: 'Edge 120', model: 'Windows', category: 'desktop', browser: 'Edge' },
  { ua: 'Mozilla/5.0 (Windows NT 10.0; Win64; x64) AppleWebKit/537.36 (KHTML, like Gecko) Chrome/119.0.0.0 Safari/537.36 OPR/105.0.0.0', lang1: 'nb', langs: ['nn'], language: 'nn', os: 'Opera 105', model: 'Windows', category: 'desktop', browser: 'Opera' },
  { ua: 'Opera/9.80 (J2ME/MIDP; Opera Mini/7.1.32052/29.3709; U; en) Presto/2.8.119 Version/11.10', lang1: 'en', langs: [], language: 'en', os: 'Opera Mini 7', model: '~', category: 'desktop', browser: 'Opera' },
  { ua: 'Mozilla/5.0 (X11; Linux x86_64) AppleWebKit/537.36 (KHTML, like Gecko) Ubuntu Chromium/80.0.3987.87 Chrome/80.0.3987.87 Safari/537.36', lang1: '', langs: [], language: '', os: 'Chromium 80', model: 'Ubuntu', category: 'desktop', browser: 'Chrome' },
  { ua: 'Mozilla/5.0 (Linux; Android 13; Pixel 7 Build/TD1A; wv) AppleWebKit/537.36 (KHTML, like Gecko) Version/4.0 Chrome/116.0.0.0 Mobile Safari/537.36', lang1: 'pt-BR', langs: ['pt-PT'], language: 'pt-PT', os: 'Chrome WebView 116', model: 'Android', category: 'mobile', browser: 'Chrome' },
  { ua: 'Mozilla/5.0 (Linux; Android 12; SM-S906N) AppleWebKit/537.36 (KHTML, like Gecko) SamsungBrowser/20.0 Chrome/106.0.5249.126 Mobile Safari/537.36', lang1: 'ko', langs: [], language: 'ko', os: 'Samsung Browser 20', model: 'Android', category: 'mobile', browser: 'Samsung Browser' },
];
const ucPage = (p, slash, ...q) => ({ p, slash, q: q.map(([k, ...vs]) => ({ k, vs })) });
const UC_PAGES = [ucPage('', true), ucPage('/a', false), ucPage('/a', true), ucPage('/b', true, ['x', '1']), ucPage('', true, ['x', '1', '2'], ['y', 'z']), ucPage('/c', false, ['x', '3'], ['y', ''], ['x', '1'])];
const UC_REFS = [{ url: '', trimmed: '' }, { url: 'https://r.example/', trimmed: 'https://r.example' }, { url: 'https://r.example/p?q=1', trimmed: 'https://r.example/p?q=1' }];
const ucUser = (f = {}, groups = [], gp = []) => ({ f: Object.fromEntries(['language', 'country', 'platform', 'os', 'device_model', 'device_category', 'browser', 'referring_url', 'landing_url', 'first_seen'].map((k) => [k, f[k] ?? '~'])), groups, gp });
const UC_USERS = [ucUser(), ucUser({ language: 'xx', country: 'DE', landing_url: 'https://given.example/l', os: 'null', first_seen: 'null' }), ucUser({ first_seen: '12345', device_category: 'embedded', os: 'OS 9', browser: 'B', platform: 'TV', device_model: 'M', referring_url: 'https://x.example' }),
  ucUser({}, [{ t: 'company', names: ['acme', 'other'] }], [{ t: 'company', name: 'acme', plan: 'paid' }, { t: 'company', name: 'other', plan: 'free' }]),
  ucUser({ country: 'FR' }, [{ t: 'team', names: ['red'] }, { t: 'company', names: [] }], [{ t: 'company', name: 'acme', plan: 'paid' }, { t: 'team', name: 'blue', plan: 'free' }]),
  ucUser({}, [{ t: 'company', names: ['', 'acme'] }, { t: 'team', names: ['blue'] }], [{ t: 'team', name: 'blue', plan: 'free' }])];
const UC_PROVS = [ucUser(), ucUser({ language: 'pp', first_seen: '777' }), ucUser({ language: 'null', landing_url: 'null', first_seen: 'null', os: 'null' }), ucUser({ country: 'IT', landing_url: 'https://prov.example' }, [{ t: 'company', names: ['other'] }], [{ t: 'company', name: 'other', plan: 'free' }])];
const ucBase = { spec: 'UserContext', adapter: 'user-context', options: { pages: UC_PAGES, cookies: ['v', 'v=2', 'a%20b', 'q==', '1'], names: ['acme', 'other', 'red', 'blue'] } };
const ucC = (o) => ({ Pages: UC_PAGES, Refs: UC_REFS, Agents: UC_AGENTS, Users: UC_USERS, Provs: UC_PROVS, CookieVals: S('~', 'v', 'v=2', 'a%20b', 'q==', '1'), Steps: S(1000, 86400000), Modes: S('ok', 'full', 'blocked'), Damage: S('gone', '{', 'null', '7x'), Acts: S('init', 'load', 'nav', 'user', 'prov', 'cookie', 'wait', 'mode', 'harm'), ...o });
props.B13 = { jobs: (tier) => [
  { kind: 'model', name: 'context-design', spec: 'UserContext', specification: 'Spec', constants: ucC({ Refs: UC_REFS.slice(1, 2), Agents: UC_AGENTS.slice(0, 1), Users: UC_USERS.slice(0, 4), Provs: UC_PROVS.slice(0, 2), Pages: UC_PAGES.slice(2, 5), CookieVals: S('~', 'v'), Steps: S(1000), Damage: S('gone', '{') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}`,
    invariants: ['AppWins', 'FirstName'], properties: ['LandingKept', 'FirstSeenKept', 'OnlyThose'] },
  { kind: 'edges', name: 'context-agents', ...ucBase, constants: ucC({ Refs: UC_REFS.slice(1, 2), Users: UC_USERS.slice(0, 1), Provs: UC_PROVS.slice(0, 1), Pages: UC_PAGES.slice(2, 3), CookieVals: S('~'), Steps: S(1000), Damage: S('gone'), Acts: S('init', 'load') }), constraints: ['Lvl'], extra: 'Lvl == TLCGet("level") <= 3' },
  { kind: 'edges', name: 'context-transitions', ...ucBase, constants: ucC({ Refs: UC_REFS.slice(1, 2), Agents: UC_AGENTS.slice(0, 1), Users: UC_USERS.slice(0, 2), Provs: UC_PROVS.slice(0, 1), Pages: UC_PAGES.slice(2, 5), CookieVals: S('~', 'v=2'), Steps: S(1000), Damage: S('gone', '{') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'sim', name: 'context-random', ...ucBase, pick: true, depth: 25, num: T(tier, 300, 12000), constants: ucC() },
] };

// ------------------------------------------------ browser: configured requests
const RQ_IDS = [['A', 'client-aaaaaaaaaa', undefined, false], ['B', 'client-bbbbbbbbbb', undefined, false], ['C', 'client-cccccccccc', 'two', false], ['W', 'client-wwwwwwwwww', undefined, true]];
const rqMs = (v) => (typeof v === 'number' ? { is: 'ms', ms: v } : { is: v, ms: 0 });
const rqCfg = (o = {}) => { const c = { zone: '~', url: '~', furl: '~', timeout: 'none', poll: 'none', fos: '~', pos: '~', retry: '~', thr: '~', debug: '~', level: -1, logger: '~', http: '~', ...o }; return { ...c, timeout: rqMs(c.timeout), poll: rqMs(c.poll) }; };
const rqRandom = (seed, n) => {
  const r = rng(seed), of = (...l) => l[Math.floor(r() * l.length)], yn = () => of('~', '~', 'null', 'yes', 'no');
  return Array.from({ length: n }, () => rqCfg({ zone: of('~', 'null', 'US', 'us', 'EU', 'eu', 'Eu'), url: of('~', '~', 'null', '', 'https://v.example'), furl: of('~', '~', 'null', '', 'https://f.example'), timeout: of('none', 'null', 0, 3001, 10000), poll: of('none', 'null', 1, 59999, 60001, 90007),
    fos: yn(), pos: yn(), retry: yn(), thr: yn(), debug: yn(), level: of(-1, 0, 1, 2, 3, 4, 5), logger: of('~', 'own'), http: of('~', '~', 'own') }));
};
const rqBase = { spec: 'Requests', adapter: 'requests', options: { ids: RQ_IDS } };
const rqC = (ids, cfgs, o) => ({ Ids: S(...ids), WebIds: S(...ids.filter((x) => x === 'W')), Cfgs: cfgs, Uids: S('~', 'u'), KeySets: '={<<"*">>, <<"a", "b", "c">>}', Modes: S('ok', 'fail', 'silent'), Steps: S(...[500, 10000, 60000].map((x) => x * 128)),
  Acts: S('init', 'make', 'start', 'fetch', 'track', 'user', 'stop', 'server', 'wait', 'reload'), ...o });
const RQ_FEW = [rqCfg(), rqCfg({ zone: 'eu', thr: 'yes', retry: 'no', timeout: 3001, fos: 'no', poll: 90007 }), rqCfg({ url: 'https://v.example', furl: 'https://f.example', zone: 'EU', pos: 'no', http: 'own', timeout: 0, thr: 'yes' })];
props.B14 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'requests-design', spec: 'Requests', specification: 'Spec', constants: rqC(['A', 'W'], RQ_FEW.slice(0, 2), { KeySets: '={<<"*">>}', Uids: S('u') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}`,
    invariants: ['OnlyWhenConfigured'], properties: ['RightPlace', 'FirstConfiguration', 'NothingUnasked', 'NoFetchOnStart', 'StoppedSendsNoFlags', 'OptionSent', 'ThrowsOnlyIfAsked'] },
  { kind: 'edges', name: 'requests-one-client', ...rqBase, constants: rqC(['A'], RQ_FEW, { Acts: S('init', 'make', 'start', 'fetch', 'stop', 'server', 'wait'), KeySets: '={<<"*">>}', Uids: S('~') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'edges', name: 'requests-two-clients', ...rqBase, constants: rqC(['A', 'W'], RQ_FEW.slice(0, 2), { Modes: S('ok', 'fail'), Acts: S('init', 'make', 'start', 'fetch', 'track', 'user', 'reload') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}` },
  { kind: 'edges', name: 'requests-every-setting', ...rqBase, constants: rqC(['A'], rqRandom(seed + 77, T(tier, 150, 1500)), { Modes: S('ok', 'fail'), Acts: S('init', 'make', 'start', 'wait'), Uids: S('u'), Steps: S(60000 * 128) }), constraints: ['Lvl'], extra: 'Lvl == TLCGet("level") <= 4' },
  { kind: 'sim', name: 'requests-random', ...rqBase, pick: true, depth: 35, num: T(tier, 1000, 15000), constants: rqC(['A', 'B', 'C', 'W'], rqRandom(seed, 60), { Uids: S('~', 'u', 'v'), KeySets: '={<<"*">>, <<"a">>, <<"a", "b">>, <<"a", "b", "c", "d">>}', Steps: S(...[1, 499, 501, 3001, 9999, 10001, 60000, 240000].map((x) => x * 128)) }) },
] };

// -------------------------------------------------------- browser: amplitude
const ampBase = { spec: 'AmplitudeClients', adapter: 'amplitude-clients' };
const ID = (...xs) => `={${xs.map(([u, d, p]) => `[u |-> "${u}", d |-> "${d}", p |-> "${p}"]`).join(', ')}}`;
const PID = (...xs) => `={${xs.map(([u, d]) => `[u |-> "${u}", d |-> "${d}"]`).join(', ')}}`;
const AMPALL = ['init', 'make', 'identity', 'receiver', 'balk', 'expose', 'fetch', 'persist', 'wait', 'reload'];
const ampC = (acts, o) => ({ Names: S('A'), Keys: S('k1'), Webs: '={FALSE}', Ids: ID(['u1', '~', '~'], ['~', '~', '~']), PerIds: PID(['u2', 'd2'], ['bad', '~']),
  MaxClients: 2, MaxQ: 2, Steps: S(4000, 6000), Acts: S(...acts), ...o });
props.B11 = {
  jobs: (tier) => [
    { kind: 'model', name: 'amplitude-design', spec: 'AmplitudeClients', specification: 'Spec',
      constants: ampC(AMPALL, { Names: S('A', 'B'), Keys: S('k1', 'c1') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 7)}`,
      invariants: ['OnePerKey', 'WaitBounded'], properties: ['OwnBridgeOnly', 'WaitingHoldsBack', 'DeploymentKeysReadNothing'] },
    { kind: 'edges', name: 'amplitude-one-instance', ...ampBase, constants: ampC(['init', 'make', 'identity', 'receiver', 'balk', 'expose', 'fetch', 'wait'], { MaxClients: 1, MaxQ: 1, Ids: ID(['u1', '~', '~'], ['~', 'd1', '~']) }),
      constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 9)}` },
    { kind: 'edges', name: 'amplitude-two-keys', ...ampBase, constants: ampC(['init', 'make', 'identity', 'receiver', 'expose', 'fetch', 'wait'], { Keys: S('k1', 'c1'), MaxQ: 1, Ids: ID(['u1', '~', '~']) }),
      constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
    { kind: 'edges', name: 'amplitude-persisted', ...ampBase, constants: ampC(['init', 'make', 'fetch', 'persist'], { MaxClients: 1, PerIds: PID(['u2', 'd2'], ['bad', '~'], ['~', 'd3']), Keys: S('k1') }),
      constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}` },
    { kind: 'sim', name: 'amplitude-random', ...ampBase, pick: true, depth: 50, num: T(tier, 900, 12000),
      constants: ampC(AMPALL, { Names: S('A', 'B'), Keys: S('k1', 'k2', 'c1'), Webs: '={FALSE, TRUE}', MaxClients: 6, MaxQ: 6,
        Ids: ID(['u1', '~', '~'], ['~', '~', '~'], ['u1', 'd1', '~'], ['u2', 'd1', 'x'], ['u2', 'd1', 'y'], ['~', 'd2', '~'], ['~', '~', 'x']),
        PerIds: PID(['u2', 'd2'], ['bad', '~'], ['~', 'd3'], ['u4', '~'], ['none', '~']), Steps: S(2000, 3000, 10000) }) },
  ],
};

// ---------------------------------------------------------------------- core
const coreTrace = (what) => ({ kind: 'trace', name: `evaluation-${what}`, spec: 'EvaluationTrace', driver: 'evaluation', options: { what }, chunks: 8 });
const TRACE_TECH = 'TLA+ specification of evaluation (Text, Murmur3, Evaluation); calls of the real engine over an enumerated table and random inputs are recorded and TLC computes from the specification what each must have answered';
props.E01 = { technique: TRACE_TECH, jobs: () => [coreTrace('eval')] };
props.E02 = { technique: TRACE_TECH, jobs: () => [coreTrace('match')] };
props.E03 = { technique: TRACE_TECH, jobs: () => [coreTrace('bucket')] };
props.E04 = { technique: TRACE_TECH, jobs: () => [coreTrace('sort')] };

props.E05 = { technique: TRACE_TECH, jobs: () => [coreTrace('trace')] };

// ------------------------------------------------------------------- segment
const segBase = { spec: 'Segment', adapter: 'segment' };
const SEGK = (...xs) => `={${xs.map(([how, page, key, o = {}]) => `[how |-> "${how}", page |-> "${page}", key |-> "${key}", nested |-> ${o.nested ? 'TRUE' : 'FALSE'}, given |-> ${o.given ? 'TRUE' : 'FALSE'}]`).join(', ')}}`;
const segKinds = SEGK(['given', 'loaded', 'analytics'], ['given', 'ready', 'analytics'], ['own', 'none', 'analytics'], ['own', 'stub', 'analytics'], ['own', 'loaded', 'analytics'], ['own', 'ready', 'analytics'],
  ['own', 'none', 'seg'], ['own', 'stub', 'seg'], ['own', 'loaded', 'analytics', { nested: 1 }], ['skip', 'stub', 'analytics'], ['skip', 'ready', 'analytics'], ['skip', 'ready', 'analytics', { given: 1 }]);
const segC = (o) => ({ Kinds: segKinds, Ids: ID(['u1', 'd1', 'x'], ['~', 'd2', '~'], ['u2', 'd1', '~']), Persisted: ID(['u3', 'd3', 'y'], ['bad', 'd3', '~'], ['u3', 'bad', 'bad'], ['~', '~', '~']), Vals: S('a', 'b'), MaxSetups: 2,
  Acts: S('setup', 'load', 'ready', 'wait', 'identify', 'persist', 'store', 'track'), ...o });
props.S01 = { jobs: (tier) => [
  { kind: 'model', name: 'segment-design', spec: 'Segment', specification: 'Spec', constants: segC({}), invariants: ['ReadyMeansReady', 'ResolvedMeansReady', 'NobodyForgotten'], properties: ['RefusedUnlessReady', 'StaysReady'] },
  { kind: 'edges', name: 'segment-transitions', ...segBase, constants: segC({}) },
  { kind: 'sim', name: 'segment-random', ...segBase, pick: true, depth: 30, num: T(tier, 500, 10000), constants: segC({ MaxSetups: 4 }) },
] };

// ------------------------------------------------------------- tag: consent
const decBase = { spec: 'ConsentDecision', adapter: 'consent-decision' };
const decC = (o) => ({ MaxListeners: 2, Behaviours: S('ok', 'throw', 'grant', 'deny', 'off'), Acts: S('require', 'set', 'seed', 'listen', 'unlisten'), ...o });
props.T02 = { jobs: (tier) => [
  { kind: 'model', name: 'decision-design', spec: 'ConsentDecision', specification: 'Spec', constants: decC({ MaxListeners: T(tier, 2, 3) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}`,
    properties: ['Final', 'ExplicitWins', 'ToldOnChange', 'OnceOnly', 'QuietOtherwise'] },
  { kind: 'edges', name: 'decision-transitions', ...decBase, constants: decC({ Acts: S('require', 'set', 'seed', 'listen') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'decision-random', ...decBase, pick: true, depth: 40, num: T(tier, 500, 10000), constants: decC({ MaxListeners: 6 }) },
] };
const impBase = { spec: 'ConsentImpressions', adapter: 'consent-impressions' };
const impC = (o) => ({ Ints: S('a', 'b'), Cap: 2, Bursts: S(1, 2), Budgets: S(0, 1, 100000), Steps: S(400), Retry: 1000, Acts: S('require', 'track', 'decide', 'answer', 'revoke', 'spoil', 'wait'), ...o });
props.T03 = { jobs: (tier) => [
  { kind: 'model', name: 'impressions-design', spec: 'ConsentImpressions', specification: 'Spec', constants: impC({}), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}`,
    invariants: ['Bounded', 'NothingHeldAfterDenial', 'HeldIsRetried', 'InOrder'], properties: ['SilentWithheld', 'NothingLost'] },
  { kind: 'edges', name: 'impressions-one', ...impBase, constants: impC({ Ints: S('a'), Cap: 512, Bursts: S(1, 2), Budgets: S(0, 1), Acts: S('require', 'track', 'decide', 'answer', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 8)}` },
  { kind: 'sim', name: 'impressions-random', ...impBase, pick: true, depth: 40, num: T(tier, 1500, 20000), constants: impC({ Cap: 512, Budgets: S(0, 1, 2, 100000), Bursts: S(1, 2, 3), Steps: S(1, 400, 999) }) },
  { kind: 'sim', name: 'impressions-bound', ...impBase, pick: true, depth: 14, num: T(tier, 150, 1500), constants: impC({ Ints: S('a'), Cap: 512, Budgets: S(0, 1, 511, 100000), Bursts: S(1, 2, 200, 511, 512, 513), Steps: S(1, 400) }) },
] };
const stoBase = { spec: 'ConsentStorage', adapter: 'consent-storage' };
const ITEMS = (...xs) => `={${xs.map((o) => `[is |-> "${o.is ?? 'obj'}", x |-> "${o.x ?? '~'}", fs |-> "${o.fs ?? '~'}", w1 |-> "${o.w1 ?? '~'}", w2 |-> "${o.w2 ?? '~'}", d |-> "${o.d ?? '~'}"]`).join(', ')}}`;
const STOACTS = ['require', 'use', 'decide', 'decide-then', 'flip', 'set-then-deny', 'device', 'mode'];
const HELD = { x: 'p', fs: 'p', w1: 'p', w2: 'p', d: 'p' };
const stoC = (keys, o) => ({ Keys: S(...keys), Vals: ITEMS(HELD), DeviceVals: ITEMS({ is: 'none' }, { x: 'o', fs: 'o', w1: 'o', w2: 'o', d: 'o' }), Acts: S(...STOACTS), Modes: S('ok', 'full', 'nocookies'), ...o });
props.T01 = { jobs: (tier) => [
  { kind: 'model', name: 'storage-design', spec: 'ConsentStorage', specification: 'Spec', constants: stoC(['id', 'cid', 'sess', 'prev']), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}`,
    invariants: ['NothingHeldOnceDecided'], properties: ['NoTrace', 'NoWriteRefused', 'OwnReads', 'DeviceIdentityKept'] },
  ...['loc', 'ses', 'prev', 'edit', 'pres', 'prov', 'sprov', 'id', 'cid', 'cob', 'sess'].map((k) => ({ kind: 'edges', name: `storage-${k}`, ...stoBase, options: { keys: [k] }, constants: stoC([k]), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}` })),
  { kind: 'edges', name: 'storage-same-name', ...stoBase, options: { keys: ['prov', 'sprov'] }, constants: stoC(['prov', 'sprov'], { Modes: S('ok') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'sim', name: 'storage-random', ...stoBase, options: {}, pick: true, depth: 40, num: T(tier, 800, 15000), constants: stoC(['loc', 'ses', 'prev', 'edit', 'pres', 'prov', 'sprov', 'id', 'cid', 'cob', 'sess'], {
    Vals: ITEMS(HELD, { x: 'q' }, { w2: 'q', fs: 'q' }, { x: 'p', d: 'q' }), DeviceVals: ITEMS({ is: 'none' }, { is: 'bad' }, { x: 'o' }, { x: 'o', fs: 'o', w1: 'o', w2: 'o', d: 'o' }, { w1: 'o' }, { w2: 'o', x: 'o' }, { fs: 'o' }, { d: 'o' }) }) },
] };

// ------------------------------------------------- tag: behavioural targeting
const sesBase = { spec: 'Session', adapter: 'session' };
const HALF_HOUR = 1800000;
const sesC = (o) => ({ Tabs: S('a', 'b'), Modes: S('ok', 'nowrite', 'blocked'), Limit: HALF_HOUR, Steps: S(1, HALF_HOUR - 1, HALF_HOUR), Requireds: '={TRUE, FALSE}', Foreign: S('bad', 'gone', 'old', 'ses'), Acts: S('load', 'ask', 'activity', 'clear', 'decide', 'elsewhere', 'wait'), ...o });
const SITES = [{ a: 'www.example.com', b: 'app.example.com', x: 'example.com' }, { a: 'example.com', b: 'shop.example.com', x: 'example.com' }, { a: 'a.b.example.co.uk', b: 'www.example.co.uk', x: 'example.co.uk' }];
props.T07 = { jobs: (tier) => [
  { kind: 'model', name: 'session-design', spec: 'Session', specification: 'Spec', constants: sesC({ Foreign: S('old', 'bad') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    invariants: ['Shared'], properties: ['Continues', 'AskingExtendsNothing', 'ConsentKept'] },
  { kind: 'edges', name: 'session-one-tab', ...sesBase, options: { hosts: SITES[0], limit: null }, constants: sesC({ Tabs: S('a'), Modes: S('ok', 'nowrite'), Foreign: S('old', 'gone') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'edges', name: 'session-two-tabs', ...sesBase, options: { hosts: SITES[0], limit: null }, constants: sesC({ Modes: S('ok'), Steps: S(1, HALF_HOUR), Acts: S('load', 'ask', 'activity', 'decide', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  ...SITES.map((hosts, i) => ({ kind: 'sim', name: `session-random-${i}`, ...sesBase, options: { hosts, limit: [null, HALF_HOUR, 5000][i] }, pick: true, depth: 40, num: T(tier, 400, 8000),
    constants: sesC({ Limit: [HALF_HOUR, HALF_HOUR, 5000][i], Steps: [S(1, 60000, HALF_HOUR - 1, HALF_HOUR, HALF_HOUR + 1), S(1, 60000, HALF_HOUR - 1, HALF_HOUR, HALF_HOUR + 1), S(1, 2500, 4999, 5000, 5001)][i] }) })),
] };

const histBase = { spec: 'EventHistory', adapter: 'event-history' };
const HISTALL = ['page', 'add', 'wait', 'leave', 'decide', 'device', 'full', 'clear', 'other', 'sync', 'answer'];
const histC = (o) => ({ Cap: 500, Types: S('a', 'b', 'x'), Bursts: S(1), Steps: S(200, 500), Times: S(0, 300), Starts: S('off', 'granted', 'pending', 'denied'), Damage: S('none', 'bad', 'old'), Debounce: 500, Acts: S(...HISTALL), ...o });
props.T05 = { jobs: (tier) => [
  { kind: 'model', name: 'history-design', spec: 'EventHistory', specification: 'Spec', constants: histC({ Cap: 2, Times: S(0, 300), Steps: S(500), Damage: S('none', 'old') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}`,
    invariants: ['Bounded', 'NoDuplicates', 'UpToDate', 'WrittenSoon'], properties: ['NothingWithoutConsent', 'NothingLost', 'InStep', 'MergedInOrder'] },
  { kind: 'edges', name: 'history-device', ...histBase, constants: histC({ Times: S(0), Acts: S('page', 'add', 'wait', 'leave', 'decide', 'device', 'full', 'clear') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}` },
  { kind: 'edges', name: 'history-relay', ...histBase, constants: histC({ Types: S('a'), Times: S(300, 0), Steps: S(100), Starts: S('granted'), Acts: S('page', 'add', 'decide', 'other', 'sync', 'answer') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 8, 9)}` },
  { kind: 'sim', name: 'history-random', ...histBase, pick: true, depth: 40, num: T(tier, 800, 12000), constants: histC({ Bursts: S(1, 2), Times: S(0, 50, 300, 1000), Steps: S(1, 200, 499, 500) }) },
  { kind: 'sim', name: 'history-bound', ...histBase, pick: true, depth: 20, num: T(tier, 200, 3000), constants: histC({ Bursts: S(1, 2, 100, 250, 499, 500, 501), Times: S(0, 300, 700), Starts: S('off', 'pending') }) },
] };

const behBase = { spec: 'Behaviors', adapter: 'behaviors' };
// a reproducible sample of rule sets: up to 3 rules for 2 flags, up to 2 groups of up to 2 conditions
const tlaCond = (c) => `[y |-> "${c.y}", op |-> "${c.op}", v |-> ${c.v}, tt |-> "${c.tt}", tv |-> ${c.tv}, unit |-> "${c.unit}", f |-> "${c.f}", neg |-> ${c.neg ? 'TRUE' : 'FALSE'}]`;
const tlaRules = (rs) => `<<${rs.map((r) => `[flag |-> "${r.flag}", id |-> "${r.id}", dnf |-> <<${r.dnf.map((g) => `<<${g.map(tlaCond).join(', ')}>>`).join(', ')}>>]`).join(', ')}>>`;
const sampleRules = (n, seed, simple) => {
  const r = rng(seed);
  for (let i = 0; i < 10; i++) r();
  const one = (l) => l[Math.floor(r() * l.length)];
  const cond = () => ({ y: one(['a', 'b', 'c']), op: one(['greater or equal', 'greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not', ...(simple ? [] : ['nonsense'])]), v: one([0, 1, 1, 2, 2, 3]),
    tt: one(['rolling', 'current_session']), tv: one([1, 1, 2, 3]), unit: one(['hour', 'day', '~']), f: one(['any', 'any', 'is red', 'not red', 'red or blue', 'no colour', 'red and big']), neg: r() < 0.25 });
  const dnf = () => Array.from({ length: one([1, 1, 2]) }, () => Array.from({ length: one([1, 1, 2]) }, cond));
  return Array.from({ length: n }, () => {
    const names = [['f1', 'b1'], ['f1', 'b2'], ['f2', 'b3'], ['f2', 'b1']];
    return Array.from({ length: one([1, 2, 3, 4]) }, (_, i) => ({ flag: names[i][0], id: names[i][1], dnf: dnf() }));
  });
};
const behC = (rules, o) => ({ RuleSets: `={${rules.map(tlaRules).join(', ')}}`, Types: S('a', 'b', 'c', 'd'), Colours: S('red', 'blue', '~'), Limit: 1800, Steps: S(600, 1800, 1801, 3600, 86400),
  Others: '={<<>>, <<[y |-> "a", c |-> "red", ago |-> 5]>>, <<[y |-> "b", c |-> "~", ago |-> 3600], [y |-> "c", c |-> "blue", ago |-> 3601]>>}', Acts: S('page', 'track', 'sync', 'wait'), ...o });
const COND = { y: 'a', op: 'greater or equal', v: 2, tt: 'rolling', tv: 1, unit: 'hour', f: 'any', neg: false };
const OPS6 = ['greater or equal', 'greater', 'is', 'less', 'less or equal', 'is not'];
props.T06 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'behaviors-design', spec: 'Behaviors', specification: 'Spec', constants: behC([[{ flag: 'f1', id: 'b1', dnf: [[COND, { ...COND, y: 'b', neg: true, tv: 2000 }], [{ ...COND, tt: 'current_session', f: 'is red' }]] }, { flag: 'f2', id: 'b2', dnf: [[{ ...COND, y: 'b', v: 1, tv: 2000 }]] }]],
    { Types: S('a', 'b'), Colours: S('red', '~'), Steps: S(600, 3600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`, invariants: ['SteadyWhenTimeless'], properties: ['Accurate', 'AllAccurate'] },
  // every operator, window edges included, for one kind of event
  { kind: 'edges', name: 'behaviors-operators', ...behBase, constants: behC([OPS6.map((op, i) => ({ flag: 'f1', id: `b${i}`, dnf: [[{ ...COND, op, v: 1 }]] })), OPS6.map((op, i) => ({ flag: 'f1', id: `b${i}`, dnf: [[{ ...COND, op, v: 1, tt: 'current_session', neg: i % 2 === 1 }]] }))],
    { Types: S('a', 'd'), Colours: S('red'), Steps: S(1800, 1), Others: '={<<>>}', Acts: S('page', 'track', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'behaviors-random', ...behBase, pick: true, depth: 30, num: T(tier, 800, 12000), constants: behC(sampleRules(T(tier, 150, 600), seed)) },
  { kind: 'sim', name: 'behaviors-edges', ...behBase, pick: true, depth: 30, num: T(tier, 400, 6000), constants: behC(sampleRules(T(tier, 80, 300), seed + 99, true), { Types: S('a', 'b'), Colours: S('red', '~'), Steps: S(1, 1800, 1801, 3599, 3600) }) },
] };

const relBase = { spec: 'RelayClient', adapter: 'relay-client' };
const RELALL = ['init', 'start', 'body', 'flush', 'destroy', 'ready', 'reply', 'noise', 'write', 'ask', 'await', 'wait'];
const relC = (o) => ({ Events: '={1, 2}', MaxReq: 4, MaxWait: 2, Steps: S(500), Limit: 2000, BodyLate: '={FALSE}', Acts: S(...RELALL), ...o });
props.T08 = { jobs: (tier) => [
  { kind: 'model', name: 'relay-design', spec: 'RelayClient', specification: 'Spec', constants: relC({ MaxReq: 2, MaxWait: 1, BodyLate: '={FALSE, TRUE}' }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 9)}`,
    invariants: ['NothingAfterDestroy'], properties: ['KeptUntilConfirmed', 'OldestFirst', 'AnsweredOnce', 'TrustsItsFrameOnly', 'SendsOnlyWhenAvailable'] },
  { kind: 'edges', name: 'relay-writes', ...relBase, constants: relC({ MaxReq: 5, MaxWait: 2, Acts: S('init', 'start', 'flush', 'destroy', 'ready', 'reply', 'write', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 8)}` },
  { kind: 'edges', name: 'relay-requests', ...relBase, constants: relC({ MaxReq: 2, MaxWait: 1, Events: '={1}', Acts: S('init', 'start', 'destroy', 'ready', 'reply', 'noise', 'ask', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 8)}` },
  { kind: 'edges', name: 'relay-starting', ...relBase, constants: relC({ MaxReq: 2, Events: '={1}', BodyLate: '={TRUE, FALSE}', Acts: S('init', 'start', 'body', 'destroy', 'ready', 'write', 'await', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 8)}` },
  { kind: 'sim', name: 'relay-random', ...relBase, pick: true, depth: 50, num: T(tier, 1500, 20000), constants: relC({ Events: '={1, 2, 3, 4}', MaxReq: 40, MaxWait: 8, Steps: S(1, 100, 500, 1999), BodyLate: '={FALSE, TRUE}' }) },
] };

// ------------------------------------------------------------------ web client
const sampler = (seed) => { const r = rng(seed); for (let i = 0; i < 10; i++) r(); return { r, one: (l) => l[Math.floor(r() * l.length)], some: (l, p) => l.filter(() => r() < p) }; };
const NONE = [{ k: 'none' }];
const samplePages = (n, seed, small) => {
  const { r, one, some } = sampler(seed);
  const PATHS = ['/a', '/b', '/c'];
  return Array.from({ length: n }, () => {
    const flags = [], pages = [];
    const keys = ['f1', 'f2', 'f3'].slice(0, small ? one([1, 2]) : one([1, 2, 2, 3]));
    for (const f of keys) {
      const ids = ['p1', 'p2', 'p3'].slice(0, one([1, 1, 2, 2, 3, 0]));
      for (const id of ids) {
        const manual = r() < 0.45;
        pages.push({ f, id, trig: manual ? 'manual' : 'url_change', name: manual ? one(['m1', 'm2']) : '~', urls: r() < 0.25 ? new Set() : new Set([one(PATHS), ...some(PATHS, 0.3)]) });
      }
      const scope = () => (r() < 0.4 ? ['*'] : r() < 0.08 ? [] : [...new Set([one(['p1', 'p2', 'p3']), ...some(['p1', 'p2'], 0.2)])]);
      const actions = (v) => {
        let k = 0;
        return Array.from({ length: one([1, 1, 2, 3]) }, () => (r() < 0.5
          ? { k: 'mutate', ms: Array.from({ length: one([1, 1, 2, 0]) }, () => ({ id: `m${++k}`, scope: scope() })) }
          : { k: 'inject', id: `i${++k}`, scope: scope(), js: one(['plain', 'plain', 'remover', 'remover', 'throws', 'removerthrows', 'nojs', 'badid']), css: r() < 0.6 }));
      };
      const does = { off: NONE, on: actions('on') };
      if (r() < 0.7) does.control = r() < 0.7 ? NONE : actions('control');
      if (r() < 0.6) does.t2 = r() < 0.15 ? NONE : actions('t2');
      flags.push({ key: f, web: r() < 0.92, does });
    }
    const assignment = () => Object.fromEntries(flags.map((fl) => [fl.key, r() < 0.6 ? 'on' : one([...Object.keys(fl.does), 'nothing'])]));
    const preview = () => Object.fromEntries(some(flags, 0.7).map((fl) => [fl.key, r() < 0.1 ? 'unknown' : one(Object.keys(fl.does))]));
    return { flags, pages, start: [assignment(), assignment()], previews: [preview(), ...(r() < 0.5 ? [preview()] : [])].filter((x) => Object.keys(x).length) };
  });
};
const pvBase = { spec: 'PageVariants', adapter: 'page-variants' };
const pvAll = S('load', 'nav', 'burst', 'toggle', 'assign', 'apply', 'revert', 'preview');
const pvC = (confs, o) => ({ Confs: confs, Urls: S('/a', '/b', '/c'), Queries: S('', '?x=1', '#h'), Acts: pvAll, ...o });
const M = (id, scope = ['*']) => ({ id, scope });
const INJ = (id, scope, js = 'remover', css = true) => ({ k: 'inject', id, scope, js, css });
// one experiment with changes for two pages, and another beside it
const PV1 = { flags: [
  { key: 'f1', web: true, does: { off: NONE, control: NONE, on: [{ k: 'mutate', ms: [M('m1', ['p1']), M('m2')] }, { k: 'mutate', ms: [M('m3', ['p2'])] }, INJ('i1', ['p1'])], t2: [{ k: 'mutate', ms: [M('m1')] }, INJ('i2', ['*'], 'plain')] } },
  { key: 'f2', web: true, does: { off: NONE, on: [INJ('i1', ['p1'], 'nojs'), { k: 'mutate', ms: [M('m9')] }] } }],
  pages: [{ f: 'f1', id: 'p1', trig: 'url_change', name: '~', urls: S('/a') }, { f: 'f1', id: 'p2', trig: 'manual', name: 'm1', urls: S('/a', '/b') }, { f: 'f2', id: 'p1', trig: 'manual', name: 'm1', urls: S() }],
  start: [{ f1: 'on', f2: 'on' }], previews: [{ f1: 't2' }] };
props.T09 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'page-variants-design', spec: 'PageVariants', specification: 'Spec', constants: pvC([PV1, ...samplePages(T(tier, 6, 30), seed + 5, true)], { Queries: S('', '?x=1'), Urls: S('/a', '/b') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 8)}`,
    invariants: ['OneVariant'], properties: ['Exact', 'RevertGone', 'OnlyActiveCounted', 'CountedOnce'] },
  { kind: 'edges', name: 'page-variants-transitions', ...pvBase, constants: pvC([PV1], { Queries: S('', '?x=1'), Urls: S('/a', '/b') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'sim', name: 'page-variants-random', ...pvBase, pick: true, depth: 25, num: T(tier, 600, 9000), constants: pvC(samplePages(T(tier, 120, 500), seed)) },
  { kind: 'sim', name: 'page-variants-turns', ...pvBase, pick: true, depth: 25, num: T(tier, 300, 4000), constants: pvC([PV1, ...samplePages(T(tier, 60, 250), seed + 77)], { Acts: S('load', 'nav', 'burst', 'toggle', 'assign', 'apply') }) },
] };

// what a refusal erases: sites as the browser sees them
const host = (h, lv, refused = []) => ({ h, lv, refused: S(...refused) });
const ER_SITES = [
  [host('a.example.com', ['example.com', 'a.example.com']), host('b.example.com', ['example.com', 'b.example.com'])],
  [host('shop.co.uk', ['shop.co.uk']), host('a.b.shop.co.uk', ['shop.co.uk', 'b.shop.co.uk', 'a.b.shop.co.uk'])],
  [host('x.a.ca.us', ['ca.us', 'a.ca.us', 'x.a.ca.us'], ['ca.us']), host('y.a.ca.us', ['ca.us', 'a.ca.us', 'y.a.ca.us'], ['ca.us'])],
  [host('me.github.io', ['me.github.io']), host('www.me.github.io', ['me.github.io', 'www.me.github.io'])],
  [host('localhost', [])],
  [host('example.com', ['example.com']), host('a.example.com', ['example.com', 'a.example.com']), host('b.a.example.com', ['example.com', 'a.example.com', 'b.a.example.com'])],
];
const erKeys = ['abcdef0123456789', 'abcdef012x45678z'], erInsts = ['$default_instance', 'x'];
const erBase = (sites = ER_SITES) => ({ spec: 'Erasure', adapter: 'erasure', options: { sites: { keys: erKeys, insts: erInsts, sites: sites.map((t) => t.map((h) => ({ ...h, refused: [...h.refused] }))) } } });
const erC = (o) => ({ Sites: ER_SITES, Keys: S(...erKeys), Insts: S(...erInsts), MaxIds: 100, Acts: S('open', 'seed', 'cookies', 'load', 'decide', 'settle', 'wait'), ...o });
props.T04 = { jobs: (tier) => [
  { kind: 'model', name: 'erasure-design', spec: 'Erasure', specification: 'Spec', constants: erC({ Sites: [ER_SITES[0], ER_SITES[2], ER_SITES[4]], Keys: S(erKeys[0]), Insts: S('x'), MaxIds: T(tier, 2, 3) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 7)}`,
    invariants: ['Consistent'], properties: ['Erased', 'NothingElse', 'OthersStay', 'PendingStill', 'NoReturn'] },
  { kind: 'edges', name: 'erasure-transitions', ...erBase([ER_SITES[0]]), constants: erC({ Sites: [ER_SITES[0]], Keys: S(erKeys[0]), Insts: S('x'), MaxIds: 2 }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'sim', name: 'erasure-random', ...erBase(), pick: true, depth: 20, num: T(tier, 400, 6000), constants: erC() },
  { kind: 'sim', name: 'erasure-midway', ...erBase(), pick: true, depth: 14, num: T(tier, 300, 4000), constants: erC({ Keys: S(erKeys[0]), Insts: S('$default_instance'), Acts: S('open', 'seed', 'load', 'decide', 'settle') }) },
] };

// redirect experiments
const rdA = (h, p) => ({ h, p });
const rdTo = (h, p, q = [], f = '', sc = []) => ({ h, p, q, f, sc });
const kv = (k, v) => ({ k, v });
const rdFlag = (key, on, to, name = 'n') => ({ key, on: S(...on), to, name });
const rdConf = (cookie, url, handler, flags, start) => ({ cookie, url, handler, flags, start });
const RD_CONFS = [
  rdConf(false, false, 'no', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('a', '/2') })], [{ f: 'x' }]),
  rdConf(true, false, 'no', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('b', '/2', [kv('t', '1')]) }), rdFlag('g', [rdA('b', '/2')], { y: rdTo('a', '/2') })], [{ f: 'x', g: 'off' }, { f: 'x', g: 'y' }]),
  rdConf(false, true, 'no', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('b', '/2', [kv('t', '1')]) }, 'foreign')], [{ f: 'x' }]),
  rdConf(false, false, 'now', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('a', '/2', [kv('t', '1')]), z: rdTo('a', '/1', [kv('t', '1')]) })], [{ f: 'x' }, { f: 'z' }]),
  rdConf(true, true, 'later', [rdFlag('f', [rdA('a', '/1'), rdA('a', '/2')], { x: rdTo('a', '/2', [], '#h'), z: rdTo('b', '/1') }, 'foreign')], [{ f: 'x' }, { f: 'z' }]),
  rdConf(false, false, 'now', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('a', '/1', [], '#h'), z: rdTo('a', '/1', [], '#k') })], [{ f: 'x' }, { f: 'z' }]),
  rdConf(true, false, 'now', [rdFlag('f', [rdA('a', '/2/')], { x: rdTo('a', '/2') }), rdFlag('g', [rdA('a', '/2')], { y: rdTo('b', '/2') })], [{ f: 'x', g: 'y' }]),
];
const rdAddresses = [rdA('a', '/1'), rdA('a', '/2'), rdA('b', '/1'), rdA('b', '/2'), rdA('a', '/2/')];
const rdQueries = [[], [kv('t', '1')], [kv('t', '2')], [kv('x', '1')], [kv('x', '1'), kv('t', '1')]];
function sampleRedirects(n, seed) {
  const { r: rnd, one } = sampler(seed), r = (k) => Math.floor(rnd() * k);
  const out = [];
  for (let i = 0; i < n; i++) {
    const flags = [], keys = ['f', 'g', 'h'].slice(0, 1 + r(3));
    for (const key of keys) {
      const on = rdAddresses.filter(() => r(3) > 0);
      const to = {};
      for (const v of ['x', 'y'].slice(0, 1 + r(2))) { const b = one(rdAddresses); to[v] = rdTo(b.h, b.p, one(rdQueries), one(['', '', '', '#h', '#k']), r(4) ? [] : [one(rdAddresses), one(rdAddresses)]); }
      flags.push(rdFlag(key, on.length ? on : [rdAddresses[0]], to, one(['n', 'foreign', 'accented'])));
    }
    const cookie = r(2) > 0, url = r(2) > 0, handler = one(['no', 'no', keys.length > 1 ? 'later' : 'now', 'later']); // one after another within a page: below
    const start = [0, 1, 2].map(() => Object.fromEntries(flags.map((f) => [f.key, one([...Object.keys(f.to), ...Object.keys(f.to), 'control', 'off'])])));
    out.push(rdConf(cookie, url, handler, flags, start));
  }
  return out;
}
const rdActs = ['open', 'enter', 'follow', 'push', 'arrive', 'touch', 'apply', 'wait', 'assign'];
const rdC = (Confs, o) => ({ Confs, Addresses: S(...rdAddresses), Queries: S(...rdQueries), Hashes: S('', '#h', '#k'), Waits: S(400, 600, 25000), Acts: S(...rdActs), ...o });
const rdBase = { spec: 'Redirects', adapter: 'redirects' };
props.T10 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'redirects-design', spec: 'Redirects', specification: 'Spec', constants: rdC([...RD_CONFS, ...sampleRedirects(T(tier, 4, 20), seed + 3)], { Queries: S([], [kv('t', '1')]), Hashes: S(''), Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    invariants: ['Delivered'], properties: ['NotWhenThere', 'QueryKept', 'OneAtATime', 'SuppressedStays', 'LoopBroken', 'OnlyStored'] },
  { kind: 'edges', name: 'redirects-transitions', ...rdBase, constants: rdC(RD_CONFS, { Addresses: S(...rdAddresses.slice(0, 2), rdA('b', '/2')), Queries: S([], [kv('t', '1')]), Hashes: S('') , Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'edges', name: 'redirects-one-after-another', ...rdBase, constants: rdC(RD_CONFS.slice(-1), { Queries: S([], [kv('t', '1')]), Hashes: S(''), Waits: S(100) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'edges', name: 'redirects-fragments', ...rdBase, constants: rdC(RD_CONFS.slice(-3, -1), { Addresses: S(...rdAddresses.slice(0, 3)), Queries: S([]), Hashes: S('', '#h', '#k'), Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'edges', name: 'redirects-undone', ...rdBase, constants: rdC([RD_CONFS[0], RD_CONFS[3], rdConf(false, false, 'no', [rdFlag('f', [rdA('a', '/1')], { x: rdTo('a', '/1', [kv('t', '1')]) })], [{ f: 'x' }])],
    { Addresses: S(...rdAddresses.slice(0, 2)), Queries: S([], [kv('t', '2')]), Hashes: S(''), Waits: S(600), Acts: S('open', 'enter', 'follow', 'push', 'touch') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'redirects-random', ...rdBase, pick: true, depth: 18, num: T(tier, 500, 6000), constants: rdC([...RD_CONFS.slice(0, -1), ...sampleRedirects(T(tier, 100, 500), seed)]) },
] };

// triggers of pages
const tp = (f, id, t, o = {}) => ({ f, id, t, urls: [], a: '', m: '', n: -1, ...o });
const SELS = ['.x', '.y', '#e3', '.x .y', 'div', ':bad('];
const TR_CONFS = [
  { pages: [tp('f', 'p1', 'url', { urls: ['/a'] }), tp('f', 'p2', 'manual', { a: 'n1' }), tp('g', 'p3', 'manual', { a: 'n2', urls: ['/b'] }), tp('g', 'p4', 'event', { a: 'buy', n: 1 })] },
  { pages: [tp('f', 'p1', 'act', { a: '.y', m: 'click' }), tp('f', 'p2', 'act', { a: '.x', m: 'click', n: 300 }), tp('g', 'p3', 'act', { a: '.x', m: 'hover', n: 500 }), tp('h', 'p4', 'act', { a: '.y', m: 'hover' }), tp('h', 'p5', 'act', { a: '#e3', m: 'focus', n: 700 })] },
  { pages: [tp('f', 'p1', 'time', { n: 1000 }), tp('g', 'p2', 'time', { n: 3000, urls: ['/a'] }), tp('h', 'p3', 'exit', { n: 2000 }), tp('h', 'p4', 'exit', {})] },
  { pages: [tp('f', 'p1', 'appeared', { a: '.y' }), tp('g', 'p2', 'visible', { a: '#e3', n: 50 }), tp('h', 'p3', 'visible', { a: '.x' }), tp('k', 'p4', 'appeared', { a: '.x', urls: ['/b'] })] },
  { pages: [tp('f', 'p1', 'scroll', { m: 'percent', n: 25 }), tp('g', 'p2', 'scroll', { m: 'element', a: '#e3', n: 300 }), tp('h', 'p3', 'scroll', { m: 'element', a: '.x' }), tp('h', 'p4', 'scroll', { m: 'percent', n: 90, urls: ['/a'] })] },
  { pages: ['hover', 'focus'].flatMap((m, i) => [tp('f', `p${i}1`, 'act', { a: '.y', m, n: 300 }), tp('g', `p${i}2`, 'act', { a: '.x', m, n: 300 }), tp('h', `p${i}3`, 'act', { a: 'div', m, n: 300 }), tp('k', `p${i}4`, 'act', { a: '.x .y', m, n: 500 })]) },
];
function sampleTriggers(n, seed) {
  const { r: rnd, one } = sampler(seed), r = (k) => Math.floor(rnd() * k);
  const kinds = {
    url: () => ({}), manual: () => ({ a: one(['n1', 'n2']) }), event: () => ({ a: one(['buy', 'view']), n: one([-1, 1, 2]) }), appeared: () => ({ a: one(SELS) }),
    visible: () => ({ a: one(SELS), n: one([-1, 0, 50, 100]) }), act: () => ({ a: one(SELS), m: one(['click', 'hover', 'focus']), n: one([-1, 0, 300, 500]) }),
    exit: () => ({ n: one([-1, 0, 1000, 2000]) }), time: () => ({ n: one([500, 1000, 3000]) }), scroll: () => (r(2) ? { m: 'percent', n: one([5, 25, 50, 90]) } : { m: 'element', a: one(SELS), n: one([-1, 0, 300]) }),
  };
  const out = [];
  for (let i = 0; i < n; i++) {
    const pages = [], some = Object.keys(kinds).filter(() => r(2));
    const names = some.length ? some : ['act'];
    for (let j = 0; j < 2 + r(6); j++) { const t = one(names); pages.push(tp(one(['f', 'g', 'h']), `p${j}`, t, { urls: r(3) ? [] : one([['/a'], ['/b'], ['/a', '/b']]), ...kinds[t]() })); }
    out.push({ pages });
  }
  return out;
}
const trActs = ['load', 'nav', 'toggle', 'event', 'add', 'remove', 'show', 'scroll', 'click', 'hover', 'focus', 'exit', 'hide', 'wait'];
const trC = (Confs, o) => ({ Confs, Urls: S(['/a', ''], ['/b', ''], ['/a', '?x=1']), Scrolls: S(0, 150, 700, 1500, 2000), Waits: S(20, 60, 150, 600, 1100, 2500), Acts: S(...trActs), ...o });
const trBase = { spec: 'Triggers', adapter: 'triggers' };
props.T11 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'triggers-design', spec: 'Triggers', specification: 'Spec', constants: trC([...TR_CONFS, ...sampleTriggers(T(tier, 3, 20), seed + 3)], { Scrolls: S(0, 700), Waits: S(150, 1100) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}`,
    invariants: ['AddressHolds', 'UrlExact', 'Occurred'], properties: ['Stays', 'Counted'] },
  { kind: 'edges', name: 'triggers-transitions', ...trBase, constants: trC(TR_CONFS, { Scrolls: S(0, 700), Waits: S(150), Urls: S(['/a', ''], ['/b', '']) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'edges', name: 'triggers-held', ...trBase, constants: trC(TR_CONFS.slice(-1), { Urls: S(['/a', '']), Waits: S(150, 600), Acts: S('load', 'add', 'hover', 'focus', 'wait') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}` },
  { kind: 'sim', name: 'triggers-random', ...trBase, pick: true, depth: 30, num: T(tier, 3000, 20000), constants: trC([...TR_CONFS, ...sampleTriggers(T(tier, 150, 600), seed)]) },
] };

// when the client starts
const lw = (req, status, zone = '') => ({ req, status, zone });
const li = (v, req, status, zone = '', blocking = false) => ({ v, req, status, zone, blocking });
const LW = [lw('', ''), lw('yes', ''), lw('yes', 'granted', 'EU'), lw('no', '', 'Eu'), lw('', 'denied'), lw('', 'granted')];
const LI = [li('1', 'yes', ''), li('2', '', ''), li('3', 'yes', 'granted', '', true), li('4', 'no', 'denied', 'EU', true), li('5', 'yes', 'denied'), li('6', 'yes', 'bogus'), li('7', 'yes', 'pending', 'eu')];
const laC = (o) => ({ Windows: LW, Inits: LI, Modes: S('plain', 'preview', 'extension', 'editor'), Bursts: S(1, 2, 250, 499, 500, 501), Waits: S(100, 450, 600, 1000, 9000), Acts: S('load', 'window', 'initialize', 'consent', 'events', 'configs', 'flags', 'again', 'wait'), ...o });
const laBase = { spec: 'Launch', adapter: 'launch' };
props.T12 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'launch-design', spec: 'Launch', specification: 'Spec', constants: laC({ Bursts: S(1, 300), Waits: S(450, 600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    invariants: ['Withheld', 'Kept', 'HiddenBriefly', 'Liveness', 'EditorQuiet'], properties: ['Once', 'NotBefore', 'RequiredStays'] },
  { kind: 'edges', name: 'launch-transitions', ...laBase, constants: laC({ Windows: T(tier, LW.slice(0, 3), LW), Inits: T(tier, LI.slice(0, 5), LI), Bursts: S(1, 499), Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'sim', name: 'launch-random', ...laBase, pick: true, depth: 20, num: T(tier, 6000, 40000), constants: laC() },
] };

// flags of the web client
const rf = (k, mode, val, dep = '', block = false) => ({ k, mode, val, dep, block });
const RF_CONFS = [
  { flags: [rf('f', 'local', 'a'), rf('g', 'remote', 'b')], hold: false, at: [] },
  { flags: [rf('h', 'local', 'dep', 'g'), rf('g', 'local', 'dep', 'f'), rf('f', 'remote', 'a', '', true)], hold: false, at: [['f', '/a']] },
  { flags: [rf('f', 'local', 'user'), rf('g', 'local', 'off')], hold: true, at: [] },
  { flags: [rf('f', 'local', 'user'), rf('g', 'remote', 'none', '', true), rf('h', 'remote', 'off'), rf('k', 'local', 'dep', 'h')], hold: false, at: [['f', '/b']] },
];
const RF_SERVERS = [[], [rf('g', 'local', 'a')], [rf('g', 'local', 'off'), rf('f', 'local', 'b')], [rf('g', 'remote', 'user', '', true), rf('x', 'local', 'a')], [rf('f', 'local', 'b', '', true), rf('g', 'local', 'dep', 'f')]];
function sampleFlags(n, seed, conf) {
  const { r: rnd, one } = sampler(seed), r = (k) => Math.floor(rnd() * k);
  const out = [];
  for (let i = 0; i < n; i++) {
    const ks = ['f', 'g', 'h', 'k', ...(conf ? [] : ['x'])], flags = [];
    ks.forEach((k, j) => { if (!r(4)) return; const val = one(['a', 'b', 'off', 'none', 'user', ...(j ? ['dep', 'dep'] : [])]); flags.push(rf(k, one(['local', 'local', 'remote']), val, val === 'dep' ? ks[r(j)] : '', !r(4))); });
    if (r(2)) flags.reverse();
    out.push(conf ? { flags, hold: !r(4), at: flags.filter(() => !r(4)).map((f) => [f.k, one(['/a', '/b'])]) } : flags);
  }
  return out;
}
const rfC = (Confs, Servers, o) => ({ Confs, Servers, Urls: S('/a', '/b'), Waits: S(400, 600, 1000), Acts: S('load', 'identity', 'flags', 'nav', 'wait'), ...o });
const rfBase = { spec: 'RemoteFlags', adapter: 'remote-flags' };
props.T13 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'flags-design', spec: 'RemoteFlags', specification: 'Spec', constants: rfC([...RF_CONFS, ...sampleFlags(T(tier, 4, 30), seed + 1, true)], [...RF_SERVERS, ...sampleFlags(T(tier, 3, 20), seed + 2)], { Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    invariants: ['ServerFirst', 'HoldsForIdentity', 'HiddenBriefly', 'Fresh', 'Shows'], properties: ['OnlyServedStored'] },
  { kind: 'edges', name: 'flags-transitions', ...rfBase, constants: rfC(RF_CONFS, RF_SERVERS, { Waits: S(600) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'flags-random', ...rfBase, pick: true, depth: 20, num: T(tier, 2500, 25000), constants: rfC([...RF_CONFS, ...sampleFlags(T(tier, 200, 1000), seed, true)], [...RF_SERVERS, ...sampleFlags(T(tier, 200, 1000), seed + 7)]) },
] };

// ------------------------------------------------------ tag: visitor identity
const viUtm = (source = '', medium = '', term = '') => ({ source, medium, term });
const viLink = (u, extra = false) => ({ utm: u, extra });
const VI_LINKS = [viLink(viUtm()), viLink(viUtm('g')), viLink(viUtm('', 'cpc', 'a b')), viLink(viUtm('n', 'mail'), true), viLink(viUtm(), true)];
const VI_RECS = [[0, 0, 0], [1, 0, 0], [1, 2, 0], [0, 2, 0], [0, 2, 3], [0, 0, 3], [1, 0, 3]].map(([dev, id, v2]) => ({ dev: -dev, id: -id, v2: -v2 }));
const VI_CKS = [['gone', 0, -1], ['junk', 0, -1], ['five', 0, -1], ['empty', 0, -1], ['ok', -4, -1], ['ok', 0, -7000], ['ok', -5, -9000], ['ok', 0, -1]].map(([how, v2, fs]) => ({ how, v2, fs }));
const viBase = { spec: 'VisitorIdentity', adapter: 'visitor-identity', options: { sources: ['g', 'n', 'old', 'ads'] } };
const viC = (o) => ({ Hosts: S('a', 'b'), Shares: '={TRUE, FALSE}', Recs: S(...VI_RECS), FirstSeens: S(-1, -5000), Cookies: S(...VI_CKS), Campaigns: S(viUtm(), viUtm('old', 'social', 'x'), viUtm('ads')), Links: VI_LINKS, Steps: S(1500, 86400000), Damage: S('{', '""', 'x'),
  Acts: S('init', 'visit', 'record', 'harm', 'first', 'harmfirst', 'cookie', 'analytics', 'mode', 'cmode', 'wait'), ...o });
const viSmall = (o) => viC({ Recs: S(...VI_RECS.slice(0, 3)), Cookies: S(VI_CKS[0], VI_CKS[4]), Campaigns: S(viUtm('old', 'social')), Links: VI_LINKS.slice(0, 2), Steps: S(1500), Damage: S('{'), FirstSeens: S(-5000), ...o });
props.T14 = { jobs: (tier) => [
  { kind: 'model', name: 'identity-design', spec: 'VisitorIdentity', specification: 'Spec', constants: viSmall({}), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 6)}`,
    invariants: ['Somebody'], properties: ['IdStays', 'DeviceMoves', 'DeviceKept', 'OneVisitor', 'OneFirst', 'CookieRemade', 'UrlFirst', 'NoCampaignLost'] },
  { kind: 'edges', name: 'identity-hosts', ...viBase, constants: viSmall({ Recs: S(VI_RECS[1], VI_RECS[2]), Acts: S('init', 'visit', 'record', 'cookie', 'wait', 'mode', 'cmode') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'edges', name: 'identity-damage', ...viBase, constants: viC({ Shares: '={TRUE}', Links: VI_LINKS.slice(0, 1), Campaigns: S(viUtm('ads')), Steps: S(1500), Acts: S('init', 'visit', 'record', 'harm', 'first', 'harmfirst', 'cookie') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 3, 4)}` },
  { kind: 'sim', name: 'identity-random', ...viBase, pick: true, depth: 25, num: T(tier, 800, 12000), constants: viC() },
] };

// ------------------------------------------------------------ tag: injection
const IN_OPTS = { e: { parent: 'p', sib: true }, f: { parent: 'q', sib: false }, g: { parent: 'p', sib: false } };
const inBase = { spec: 'Injection', adapter: 'injection', options: { opts: IN_OPTS, sels: ['p', 'q', 's'] } };
const inC = (es, o) => ({ Elems: S(...es), Opts: Object.fromEntries(es.map((e) => [e, IN_OPTS[e]])), Sels: S('p', 's'), Steps: S(400, 600), Bursts: S(1, 12), Limit: 10, Acts: S('init', 'insert', 'waitfor', 'put', 'drop', 'sib', 'nosib', 'remove', 'adopt', 'failing', 'touch', 'wait', 'cancel'), ...o });
props.T15 = { jobs: (tier) => [
  { kind: 'model', name: 'injection-design', spec: 'Injection', specification: 'Spec', constants: inC(['e', 'g'], { Limit: 2, Bursts: S(1, 3) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 9)}`,
    invariants: ['Placed', 'Bounded', 'DoneOnce'], properties: ['ThenQuiet'] },
  { kind: 'edges', name: 'injection-sibling', ...inBase, options: { opts: { e: IN_OPTS.e }, sels: ['s', 'p'] }, constants: inC(['e']), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 8)}` },
  { kind: 'edges', name: 'injection-two', ...inBase, options: { opts: { e: IN_OPTS.e, f: IN_OPTS.f }, sels: [] }, constants: inC(['e', 'f'], { Sels: '={}', Steps: S(1000) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'injection-random', ...inBase, pick: true, depth: 40, num: T(tier, 1000, 20000), constants: inC(['e', 'f', 'g'], { Sels: S('p', 'q', 's'), Steps: S(1, 400, 999), Bursts: S(1, 2, 5, 9, 10, 11, 25) }) },
] };

// ------------------------------------------------------------ tag: SPA links
const SPA_HREFS = { path: '/b', rel: 'c?x=1', abs: 'https://www.example.com/d#h', ext: 'https://other.example/e', port: 'https://www.example.com:8443/f', http: 'http://www.example.com/g', empty: '' };
const spaBase = { spec: 'SpaLinks', adapter: 'spa-links' };
const spaC = (links, o) => ({ Links: S(...links), Kinds: S('router', 'other', 'bare', 'none', 'plain'), Targets: S('-', '_self', '_blank', 'empty', 'frame'), Mods: S('none', 'meta', 'ctrl', 'shift', 'alt', 'middle'),
  Hrefs: `={${Object.keys(SPA_HREFS).map((k) => `[id |-> "${k}", how |-> "${k === 'empty' ? 'empty' : ['ext', 'port', 'http'].includes(k) ? 'external' : 'same'}"]`).join(', ')}}`, Acts: S('init', 'install', 'make', 'mutate', 'revert', 'router', 'click', 'beside'), ...o });
props.T16 = { jobs: (tier) => [
  { kind: 'model', name: 'links-design', spec: 'SpaLinks', specification: 'Spec', constants: spaC(['x'], {}), properties: ['TakenToGo', 'WhereItSays', 'UnchangedLinksAlone', 'OtherWindows'] },
  { kind: 'edges', name: 'links-every-kind', ...spaBase, options: { links: ['x'], hrefs: SPA_HREFS }, constants: spaC(['x']) },
  { kind: 'sim', name: 'links-random', ...spaBase, pick: true, options: { links: ['x', 'y', 'z'], hrefs: SPA_HREFS }, depth: 40, num: T(tier, 600, 8000), constants: spaC(['x', 'y', 'z']) },
] };

// --------------------------------------------- tag: pages follow behaviours
const bpF = (key, mode, id, kind) => ({ key, mode, id, kind });
const BP_CONFS = [
  [bpF('f', 'local', 'b1', 'lost'), bpF('g', 'remote', 'b2', 'some')],
  [bpF('f', 'local', 'b1', 'once'), bpF('h', 'local', '-', 'some')],
  [bpF('f', 'remote', 'b1', 'lost'), bpF('g', 'local', 'b2', 'both'), bpF('h', 'remote', '-', 'some')],
  [bpF('f', 'local', 'b1', 'never')],
  [bpF('h', 'remote', '-', 'some')],
];
function sampleBehaviourFlags(n, seed) {
  const { r, one } = sampler(seed);
  return Array.from({ length: n }, () => ['f', 'g', 'h', 'k'].slice(0, 1 + Math.floor(r() * 4)).map((k, i) => (r() < 0.2 ? bpF(k, one(['local', 'remote']), '-', 'some') : bpF(k, one(['local', 'local', 'remote']), `b${i}`, one(['some', 'two', 'once', 'lost', 'lost', 'never', 'both', 'either'])))));
}
const bpBase = { spec: 'BehaviourPages', adapter: 'behaviour-pages' };
const bpC = (o) => ({ Configs: BP_CONFS, Previews: '={{}, {"f"}}', Steps: S(600, 1000, 2000), Replies: S('ok', 'fail'), Acts: S('open', 'flags', 'track', 'both', 'elsewhere', 'ready', 'reads', 'nav', 'wait'), ...o });
props.T17 = { jobs: (tier, seed) => [
  { kind: 'model', name: 'pages-design', spec: 'BehaviourPages', specification: 'Spec', constants: bpC({ Steps: S(1000) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 7, 9)}`,
    invariants: ['Current', 'PreviewedStay', 'OthersCount'], properties: ['NoRelayNothingNew', 'FailureChangesNothing'] },
  { kind: 'edges', name: 'pages-transitions', ...bpBase, constants: bpC({ Configs: BP_CONFS.slice(0, T(tier, 3, 5)), Previews: '={{}}', Steps: S(1000) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 7)}` },
  { kind: 'sim', name: 'pages-random', ...bpBase, pick: true, depth: 30, num: T(tier, 1500, 20000), constants: bpC({ Configs: [...BP_CONFS, ...sampleBehaviourFlags(T(tier, 40, 300), seed)], Previews: '={{}, {"f"}, {"f", "g"}}' }) },
] };

// -------------------------------------------------------------- tag: preview
const prevF = (key, mode, own, shows, at, ...more) => ({ key, mode, own, shows, pages: [...(at.length ? [{ by: '', at }] : []), ...more] });
const prevM = (by, ...at) => ({ by, at });
const PREV_SETS = [
  [prevF('f', 'local', 'on', ['on', 't'], ['/a', '/b']), prevF('g', 'local', 'off', ['on', 'control'], ['/a']), prevF('r', 'remote', 'on', ['on', 't'], ['/b', '/a'])],
  [prevF('f', 'local', 'control', ['on', 't', 'control'], ['/b']), prevF('g', 'remote', 't', ['on', 't'], ['/a', '/b'])],
  [prevF('f', 'local', 'on', ['on', 't'], [], prevM('m', '/a', '/b')), prevF('g', 'remote', 'off', ['on', 't'], ['/a'], prevM('n', '/b')), prevF('r', 'local', 't', ['t', 'off'], [], prevM('m', '/a'), prevM('n', '/a', '/b'))],
];
const prevL = (onoff, ask, keep = []) => ({ on: onoff, ask, keep });
const PREV_LINKS = [prevL('', []), prevL('', [['f', 't']], [['id', '5']]), prevL('true', [['f', 't']]), prevL('true', [['f', 'off'], ['g', 'on']]), prevL('true', [['r', 't'], ['f', '']]), prevL('true', [['g', 'nothing'], ['other', 'on']]), prevL('true', []), prevL('false', [['f', 't']]),
  prevL('true', [['f', 'control'], ['g', 't'], ['r', 'off']])];
const prevC = (flags, o) => ({ Flags: flags, Links: PREV_LINKS, Paths: S('/a', '/b'), Names: flags.some((f) => f.pages.some((p) => p.by)) ? S('m', 'n') : new Set(), Damages: S('gone', '{', 'null', '{}', '{"previewFlags":null}', '5', '"x"', '[]'), Acts: S('follow', 'nav', 'toggle', 'wait', 'dismiss', 'lose', 'tab'), ...o });
props.T18 = { jobs: (tier) => PREV_SETS.flatMap((fs, i) => [
  { kind: 'model', name: `preview-design-${i}`, spec: 'Preview', specification: 'Spec', constants: prevC(fs, {}), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 5, 7)}`, invariants: ['OneAtATime'], properties: ['Exactly', 'Lasts', 'Remembered'] },
  { kind: 'edges', name: `preview-transitions-${i}`, spec: 'Preview', adapter: 'preview', options: { flags: fs }, constants: prevC(fs, i === 1 ? {} : { Links: PREV_LINKS.slice(0, 7), Damages: S('gone', '{}') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'sim', name: `preview-random-${i}`, spec: 'Preview', adapter: 'preview', pick: true, options: { flags: fs }, depth: 25, num: T(tier, 500, 8000), constants: prevC(fs, {}) },
]) };

// T19 — the visual editor
const ED_SRC = { ok: 'https://cdn.amplitude.com/o.js', path: 'https:cdn.amplitude.com/o.js', plain: 'http://cdn.amplitude.com/o.js', other: 'https://evil.example/cdn.amplitude.com', at: 'https://cdn.amplitude.com@evil.example/x', alike: 'https://xamplitude.com/o.js', tail: 'https://cdn.amplitude.com.evil.example/o.js', js: 'javascript:alert(1)//cdn.amplitude.com', data: 'data:text/javascript,1' };
const ED_ORG = { ours: 'https://app.amplitude.com', port: 'https://app.eu.amplitude.com:8443', alike: 'https://evilamplitude.com', tail: 'https://x.amplitude.com.evil.example', none: '', opaque: 'null', self: 'https://www.example.com' };
const edRec = (src) => JSON.stringify({ injectSrc: src, amplitudeWindowUrl: 'https://app.amplitude.com' });
const ED_REC = { none: null, ok: edRec(ED_SRC.ok), evil: edRec(ED_SRC.tail), empty: '{}', junk: '{"injectSrc', plain: edRec(ED_SRC.plain) };
const ED_SETS = [[{ flag: 'f', page: 'p', at: ['/a', '/b'] }], [{ flag: 'f', page: 'q', at: ['/b'] }]];
const edC = (o) => ({ Sources: Object.keys(ED_SRC).map((id) => ({ id, ours: id === 'ok' || id === 'path' })), Origins: Object.keys(ED_ORG).map((id) => ({ id, ours: id === 'ours' || id === 'port' })),
  Records: [{ id: 'none', there: false, src: 0 }, { id: 'ok', there: true, src: 1 }, { id: 'evil', there: true, src: 7 }, { id: 'empty', there: true, src: 0 }, { id: 'junk', there: false, src: 0 }, { id: 'plain', there: true, src: 3 }],
  Openers: S('ok', 'null', 'closed', 'throws'), Paths: S('/a', '/b'), Sets: ED_SETS, Steps: S(4000, 7000), Acts: S('open', 'store', 'message', 'loaded', 'hide', 'pages', 'nav', 'wait'), ...o });
const ED_OPT = { sources: ED_SRC, origins: ED_ORG, records: ED_REC, first: ED_SETS[0] };
props.T19 = { jobs: (tier) => [
  { kind: 'model', name: 'editor-design', spec: 'Editor', specification: 'Spec', constants: edC({ Steps: S(4000, 7000) }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 6, 9)}`, invariants: ['NotAsked', 'Untouched', 'NotForever'], properties: ['OnlyOurs'] },
  { kind: 'edges', name: 'editor-transitions', spec: 'Editor', adapter: 'editor', options: ED_OPT, constants: edC({ Steps: S(4000, 7000), Openers: S('ok', 'throws') }), constraints: ['Lvl'], extra: `Lvl == TLCGet("level") <= ${T(tier, 4, 5)}` },
  { kind: 'sim', name: 'editor-random', spec: 'Editor', adapter: 'editor', pick: true, options: ED_OPT, depth: 25, num: T(tier, 600, 6000), constants: edC({ Steps: S(4000, 7000), Sources: [...Array(6).fill('ok'), ...Object.keys(ED_SRC)].map((id) => ({ id, ours: id === 'ok' || id === 'path' })), Origins: [...Array(5).fill('ours'), ...Object.keys(ED_ORG)].map((id) => ({ id, ours: id === 'ours' || id === 'port' })), Records: edC({}).Records.map((r) => r.there && r.src ? { ...r, src: r.src + 6 } : r) }) },
] };
