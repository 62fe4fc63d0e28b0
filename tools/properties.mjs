// Source of /verif/properties.jsonl: node tools/properties.mjs
import fs from 'node:fs';
const AC = 'packages/analytics-connector/src/';
const CO = 'packages/experiment-core/src/';
const BR = 'packages/experiment-browser/src/';
const TG = 'packages/experiment-tag/src/';
const SG = 'packages/plugin-segment/src/';
const L = [];
const p = (id, title, statement, over, text, why, files, state, mechanism, observe_at) =>
  L.push({
    id, title, statement, quantifier: { over, text }, why_tests_cant: why,
    anchors: {
      files,
      state: state.map(([name, meaning, where]) => ({ name, meaning, where })),
      mechanism: mechanism.map(([name, where]) => ({ name, where })),
      observe_at, hook_needed: null,
    },
  });

// ---------------------------------------------------------------- connector
p('C01', 'Early analytics events are delivered once, in order, to the receiver',
  'Events logged on a connector before any receiver is attached are held, and the first receiver to attach gets each of them exactly once, in logging order, before any later event; later events go straight to the receiver attached at that moment and to no other. At most the first 512 early events are held; events logged beyond that are dropped without disturbing the ones held. Connectors with different instance names never see each other\'s events, and asking for the same name again gives the same connector.',
  ['histories'], 'every interleaving of event logging, receiver attachment and receiver replacement on any number of named connectors, including bursts around the 512 bound',
  'The tests log three events and attach one receiver; they sample neither replacement of receivers, the bound, nor several instances.',
  [AC + 'eventBridge.ts', AC + 'analyticsConnector.ts'],
  [['queue', 'events waiting for a receiver', 'EventBridgeImpl.queue'], ['receiver', 'current receiver', 'EventBridgeImpl.receiver']],
  [['EventBridgeImpl.logEvent / setEventReceiver', AC + 'eventBridge.ts'], ['AnalyticsConnector.getInstance', AC + 'analyticsConnector.ts']],
  ['receiver callbacks']);
p('C02', 'Identity edits are isolated until commit and announce exactly the real changes',
  'An identity edit started on a connector works on its own snapshot: until it is committed nobody sees it, also when it goes on after an earlier commit, and committing replaces the identity with the snapshot plus that edit\'s changes ($set, $unset and $clearAll applied in the order given). Registered listeners are called once per commit or direct set that changes the identity by deep comparison, with the new identity, and not at all otherwise; a removed listener hears nothing further. Reading the identity returns its current value, and replacing top-level fields of what was read does not alter the store.',
  ['histories'], 'every interleaving of several open edits, property updates, commits, direct sets, listener additions and removals, on values of every JSON shape',
  'Tests cover single linear edits; overlapping editors, no-op commits over nested values and listener removal are combinations they never reach.',
  [AC + 'identityStore.ts', AC + 'util/equals.ts'],
  [['identity', 'current user/device/properties/opt-out', 'IdentityStoreImpl.identity'], ['listeners', 'registered listeners', 'IdentityStoreImpl.listeners']],
  [['editIdentity / commit / setIdentity', AC + 'identityStore.ts'], ['isEqual', AC + 'util/equals.ts']],
  ['getIdentity', 'listener callbacks']);

// ---------------------------------------------------------------- core
p('E01', 'Flag evaluation follows the flag configuration and nothing else',
  'Evaluating flags for a user returns, for each flag, the variant of the first segment, in order, whose conditions hold (some group of conditions all of which hold; a segment without conditions always holds, an empty list of groups never) and whose bucketing yields a variant that exists on the flag; if none does, the flag has no result. The result\'s metadata is the flag\'s, overlaid by the segment\'s, overlaid by the variant\'s. The result is a function of the flags and the user alone: input is not modified, repeated and traced evaluation give the same answer.',
  ['inputs', 'configurations'], 'every flag configuration (segments, condition groups, buckets, variants, metadata) and every user context',
  'Existing engine tests that run check array operators and traces on a few fixed flags; the broad integration test needs the network and does not run.',
  [CO + 'evaluation/evaluation.ts', CO + 'evaluation/select.ts', CO + 'evaluation/flag.ts'],
  [['results', 'variant per flag', 'EvaluationEngine.evaluate']],
  [['evaluateFlag / evaluateSegment', CO + 'evaluation/evaluation.ts'], ['select', CO + 'evaluation/select.ts']],
  ['EvaluationEngine.evaluate', 'evaluateWithTraces', 'evaluateConditions']);
p('E02', 'Targeting operators decide each match by one definition',
  'Every targeting operator (is, is not, contains, less/greater comparisons, version comparisons, set is/contains/contains-any and their negations, regular-expression match) gives the documented answer for every kind of property value: text, number, boolean, list, list encoded as text, and absent. Absent values match only through the explicit "(none)" value, or through "is not", "does not contain" and the negated contains-set operators that do not name it. Order comparisons are numeric (or by version) where the value and some filter value are numbers (versions), and by text otherwise. A list matches an operator that is not about sets when one of its elements does; a value that is no list never matches a set operator. "is" disregards letter case of true and false only, "contains" of everything.',
  ['inputs'], 'every operator, property value kind and list of filter values',
  'Tests sample a handful of operator/value pairs; the combination table of operators, value kinds and filter lists is never enumerated.',
  [CO + 'evaluation/evaluation.ts', CO + 'evaluation/semantic-version.ts'],
  [['match', 'whether a condition holds', 'EvaluationEngine.matchCondition']],
  [['matchNull / matchSet / matchString / matchStringsNonSet', CO + 'evaluation/evaluation.ts'], ['SemanticVersion', CO + 'evaluation/semantic-version.ts']],
  ['EvaluationEngine.evaluateConditions']);
p('E03', 'Bucketing is the published stable hash of salt and bucketing key',
  'For a bucketed segment the user\'s bucketing value and the salt alone fix the outcome: MurmurHash3 (x86, 32 bit, seed 0) of "salt/value", its remainder modulo 100 selects the allocation whose half-open range contains it, and the quotient by 100 selects the distribution whose half-open range contains it. A user outside every allocation or distribution, or with no bucketing value, gets the segment\'s default variant. The assignment therefore never changes between evaluations, devices or unrelated configuration edits.',
  ['inputs', 'configurations'], 'every salt, bucketing value (any text, including non-ASCII, and any length) and every partition into allocations and distributions',
  'The hash test compares fixed vectors of ASCII words; range edges, missing keys, non-text keys and multi-byte text meet no assertion that runs.',
  [CO + 'evaluation/evaluation.ts', CO + 'evaluation/murmur3.ts', CO + 'evaluation/utils.ts'],
  [['bucket', 'salt, selector, allocations', 'EvaluationBucket']],
  [['bucket', CO + 'evaluation/evaluation.ts'], ['hash32x86', CO + 'evaluation/murmur3.ts']],
  ['EvaluationEngine.evaluate']);
p('E04', 'Dependent flags are evaluated after what they depend on, cycles refused',
  'A flag whose targeting refers to other flags\' results sees those results whatever order the flags are supplied in. Ordering returns every requested flag and every available flag it transitively depends on exactly once, each after all its dependencies, and ignores dependencies that do not exist. A dependency cycle among the requested flags is refused with an error and never loops or yields a partial order.',
  ['inputs', 'configurations'], 'every dependency graph (chains, diamonds, cycles, self-loops, missing nodes) and every input order and requested subset',
  'Fixed graphs in tests; ordering bugs depend on the shape of the graph and the insertion order.',
  [CO + 'evaluation/topological-sort.ts', CO + 'evaluation/evaluation.ts'],
  [['order', 'sorted flags', 'topologicalSort']],
  [['topologicalSort / parentTraversal', CO + 'evaluation/topological-sort.ts']],
  ['topologicalSort', 'ExperimentClient.all', 'EvaluationEngine.evaluate']);

// ---------------------------------------------------------------- browser client
p('B01', 'A variant lookup follows the documented source and fallback priority',
  'Looking up a flag returns the first available of: with stored-variant priority, the stored variant, the inline fallback, the initial variant, the configured fallback, then the stored default; with initial-variant priority, the initial variant, the stored variant, the inline fallback, the configured fallback, then the stored default. A flag marked for local evaluation is instead answered by its local evaluation result, then inline fallback, initial variant, configured fallback, then the evaluated default, and never from stored remote variants. A flag not marked local for which no source has a variant is answered by evaluating its configuration; listing all variants overlays locally evaluated flags on the prioritised source on the other source.',
  ['configurations', 'inputs', 'histories'], 'every combination of stored, initial, inline, configured and locally evaluated variants, defaults among them, and both priorities',
  'The client test suite that exercises lookups needs the network and does not run; none of the combinations are asserted.',
  [BR + 'experimentClient.ts', BR + 'types/source.ts'],
  [['variants', 'stored remote variants', 'ExperimentClient.variants'], ['initialVariants', 'bootstrap variants', 'config.initialVariants'], ['flags', 'flag configurations', 'ExperimentClient.flags']],
  [['variantAndSource and the per-source resolvers', BR + 'experimentClient.ts']],
  ['ExperimentClient.variant', 'ExperimentClient.all']);
p('B02', 'A fetch replaces or merges stored variants exactly; a failure changes nothing',
  'A successful fetch for all flags makes the stored variants exactly the returned ones; a successful fetch for named flags updates the returned ones, removes the named ones that were not returned, and leaves every other flag alone. The result is what lookups see immediately and what a later page load finds in storage. A fetch that fails, times out or has no API key leaves the stored variants, in memory and in storage, as they were.',
  ['histories', 'fault_sequences'], 'every sequence of full and partial fetches with successes, HTTP errors, network errors and timeouts, in any completion order that does not overlap retries',
  'No running test covers the client; overlapping and partial fetches need histories of several calls.',
  [BR + 'experimentClient.ts', BR + 'storage/cache.ts'],
  [['variants', 'stored remote variants', 'ExperimentClient.variants']],
  [['fetchInternal / doFetch / storeVariants', BR + 'experimentClient.ts'], ['LoadStoreCache', BR + 'storage/cache.ts']],
  ['ExperimentClient.fetch', 'variant', 'localStorage']);
p('B03', 'Failed fetches are retried boundedly in the background until superseded',
  'When a fetch fails with a timeout, a network error, a 5xx or a 429, the client retries in the background, at most 8 times, waiting 500 ms before the first retry and 1.5 times longer (at most 10 s) before each next one, until one succeeds; other 4xx failures are not retried, nor is anything when retrying is turned off. A retry asks for the same user and options as the fetch it repeats, and its success is stored like any fetch\'s. A newer fetch cancels pending retries: from then on they send nothing and change nothing.',
  ['schedules', 'fault_sequences'], 'every interleaving of fetches, responses, failures and timer expiries',
  'Retry timing and supersession need a controlled clock and transport and no running test has either.',
  [BR + 'experimentClient.ts', BR + 'util/backoff.ts'],
  [['retriesBackoff', 'pending background retries', 'ExperimentClient.retriesBackoff']],
  [['startRetries / stopRetries / shouldRetryFetch', BR + 'experimentClient.ts'], ['Backoff', BR + 'util/backoff.ts']],
  ['HTTP requests', 'variant', 'virtual clock']);
p('B04', 'Start loads flags once, polls only while running, and stop ends it',
  'Starting loads flag configurations and, unless configured otherwise, fetches variants for the given user; starting an already running client does neither. While started with polling on, flag configurations are reloaded at the configured interval (never more often than once a minute) by exactly one poller; after stop no further reload is scheduled, and the client can be started again. A failed load keeps the previous flag configurations, in memory and stored, and never stops polling already under way; a failure while starting is swallowed (or, when so configured, rejects the start).',
  ['schedules', 'fault_sequences'], 'every interleaving of start, stop, restart, timer expiry and flag load success or failure',
  'Needs a virtual clock, a controllable transport and multi-step histories; the client tests do not run.',
  [BR + 'experimentClient.ts', CO + 'util/poller.ts', CO + 'api/flag-api.ts'],
  [['isRunning', 'started', 'ExperimentClient.isRunning'], ['poller', 'flag poller', 'ExperimentClient.poller']],
  [['start / stop / doFlags', BR + 'experimentClient.ts'], ['Poller', CO + 'util/poller.ts']],
  ['HTTP requests', 'ExperimentClient.all']);
p('B05', 'What the client stored survives a page load, and bad storage never breaks it',
  'After a page load a client with the same instance name and API key (told apart by its last six characters) sees exactly the variants, flag configurations and tracking option last stored, and none of another instance\'s or key\'s; variants saved by earlier releases (plain text or value/payload records) are read with their meaning. Bootstrapped initial flags only fill in flags that storage lacks. Unparseable, full or unavailable storage never makes construction or a lookup throw, and at worst yields an empty cache.',
  ['histories', 'crash_points', 'fault_sequences'], 'every history of stores, page loads, other instances and corrupted or throwing storage',
  'Tests store and load once with good data; corruption, legacy formats and multiple instances in combination are not sampled.',
  [BR + 'storage/cache.ts', BR + 'experimentClient.ts', BR + 'storage/local-storage.ts'],
  [['caches', 'persisted variants/flags/options', 'getVariantStorage / getFlagStorage / getVariantsOptionsStorage']],
  [['LoadStoreCache / SingleValueStoreCache / transformVariantFromStorage', BR + 'storage/cache.ts']],
  ['localStorage', 'ExperimentClient.variant', 'ExperimentClient.all']);
p('B06', 'Each user is exposed to a flag\'s variant once per session',
  'Within a session an exposure for a given flag and variant is handed to the tracking integration at most once for one user identity, a different variant for the same flag is handed over again, and a change of user identity makes every exposure eligible again. What was sent is remembered across page loads of the session, and the first exposure of a flag, variant or newly seen identity is never suppressed. A custom exposure tracking provider sees the same once-per-identity rule within a page load.',
  ['histories'], 'every sequence of lookups, variant changes, identity changes and page loads within a session',
  'Tests cover single switches; the history of interleaved flags, variants and identities decides correctness.',
  [BR + 'integration/manager.ts', BR + 'util/userSessionExposureTracker.ts', BR + 'util/sessionAnalyticsProvider.ts'],
  [['sent', 'exposures already sent', 'SessionDedupeCache / UserSessionExposureTracker.tracked'], ['identity', 'identity of the cache', 'SessionDedupeCache.identity']],
  [['SessionDedupeCache.shouldTrack', BR + 'integration/manager.ts'], ['UserSessionExposureTracker.track', BR + 'util/userSessionExposureTracker.ts']],
  ['integration track calls', 'exposure provider calls', 'sessionStorage']);
p('B07', 'Tracked exposures are delivered once, in order, despite rejections and reloads',
  'Every tracked exposure is kept in persistent storage until the integration accepts it, is offered in the order tracked, and once accepted is never offered again; a rejection or exception stops the current pass. What is left survives page loads and is offered again with the next tracked exposure, and every second while exposures tracked before the integration was ready remain; only the newest 512 are kept.',
  ['histories', 'fault_sequences', 'crash_points'], 'every sequence of tracked events, accept/reject/throw answers, timer ticks, integration readiness and page loads',
  'Tests accept or reject uniformly; partial acceptance, throwing and reload points interleave arbitrarily.',
  [BR + 'integration/manager.ts'],
  [['queue', 'unsent events', 'PersistentTrackingQueue.inMemoryQueue / localStorage']],
  [['PersistentTrackingQueue.push / flush', BR + 'integration/manager.ts']],
  ['integration track calls', 'localStorage']);
p('B08', 'An exposure says what the user actually saw, or nothing',
  'An automatic or explicit exposure carries the flag key, the variant\'s key (or value) and its experiment key and metadata; when the lookup fell back or resolved to a default, it carries no variant, and when it fell back with nothing assigned, none is sent at all. A variant whose metadata turns exposure tracking off produces none. Automatic exposures happen exactly when automatic tracking is on; explicit ones always; and both use the variant and source the lookup returned.',
  ['configurations', 'inputs'], 'every lookup outcome, metadata setting, tracking configuration and integration type',
  'No running test asserts exposures of the client across sources.',
  [BR + 'experimentClient.ts', BR + 'integration/manager.ts', BR + 'types/source.ts'],
  [['exposure', 'outgoing exposure', 'ExperimentClient.exposureInternal']],
  [['exposureInternal', BR + 'experimentClient.ts'], ['IntegrationManager.track', BR + 'integration/manager.ts']],
  ['integration track calls', 'exposure provider calls']);
p('B09', 'Requests and evaluation use the full merged user, once integrations are ready',
  'Remote fetches wait until the integration reports ready (or fails to), then send the user merged from, weakest first, the user provider, the integration and the explicitly set user, with user properties merged key by key in the same priority and the library added. Setting a new integration tears the old one down and its user is no longer consulted. A user passed to fetch becomes the client\'s user.',
  ['schedules', 'configurations'], 'every assignment of fields to the three sources and every timing of integration setup, failure and replacement',
  'Merging priority over overlapping fields and readiness races are combinatorial; the client tests do not run.',
  [BR + 'experimentClient.ts', BR + 'integration/manager.ts'],
  [['user', 'explicit user', 'ExperimentClient.user'], ['ready', 'integration setup', 'IntegrationManager.isReady']],
  [['addContext / addContextOrWait', BR + 'experimentClient.ts'], ['IntegrationManager.setIntegration / ready', BR + 'integration/manager.ts']],
  ['HTTP request headers', 'local evaluation result']);
p('B10', 'The client\'s user is its own copy',
  'The user the client holds changes only through the client: replacing, adding or removing fields of an object passed in as the user, or of one returned by the client, or entries of its user properties, never changes what the client evaluates, sends or returns. Reading the user right after setting it gives an equal value. Setting no user gives no user.',
  ['histories', 'inputs'], 'every sequence of set, read and caller-side mutation of users with and without user properties',
  'Aliasing shows only when the caller mutates after the call; tests never do.',
  [BR + 'experimentClient.ts'],
  [['user', 'explicit user', 'ExperimentClient.user']],
  [['setUser / getUser', BR + 'experimentClient.ts']],
  ['ExperimentClient.getUser', 'HTTP request headers']);
p('B11', 'One client per instance and key, connected to the right Amplitude identity',
  'Initialising twice with the same instance name and API key returns the same client; a different instance name or key returns a separate one. An Amplitude-connected client takes its user and device id from the connector of its instance name, which starts from the identity the analytics SDK persisted for that key where one is readable; it waits for an identity at most 10 s before its first fetch and, when configured, fetches again on each identity change. Exposures go to that instance\'s event bridge only, and are kept while it has no receiver.',
  ['histories', 'schedules', 'configurations'], 'every order of initialisations, identity changes, receiver attachments and waits',
  'Single initialisations in tests; the timing between analytics and experiment start-up is the point.',
  [BR + 'factory.ts', BR + 'integration/amplitude.ts', BR + 'util/state.ts', BR + 'providers/amplitude.ts'],
  [['instances', 'clients by key', 'factory instances map'], ['identity', 'connector identity', 'IdentityStore']],
  [['initialize / initializeWithAmplitudeAnalytics', BR + 'factory.ts'], ['AmplitudeIntegrationPlugin', BR + 'integration/amplitude.ts']],
  ['initialize results', 'HTTP requests', 'event bridge']);
p('B12', 'Locally evaluated flags reflect the current flags and current user',
  'A flag configured for local evaluation is evaluated against the client\'s current merged user and its latest loaded flag configurations at the moment of the lookup, together with the flags it depends on; reloading flags or changing the user changes the next lookup and nothing stale is served. Flags not marked for local evaluation never appear in locally evaluated listings, and a reload makes flags absent from it disappear unless they were bootstrapped.',
  ['histories', 'configurations'], 'every history of user changes, flag reloads and lookups over flags with dependencies',
  'Needs sequences of flag loads and user changes; the client tests do not run.',
  [BR + 'experimentClient.ts', CO + 'evaluation/evaluation.ts', BR + 'util/convert.ts'],
  [['flags', 'loaded flag configurations', 'ExperimentClient.flags']],
  [['evaluate / doFlags / mergeInitialFlags', BR + 'experimentClient.ts'], ['convertUserToContext', BR + 'util/convert.ts']],
  ['ExperimentClient.all', 'ExperimentClient.variant']);

// ---------------------------------------------------------------- segment
p('S01', 'The Segment integration waits for Segment, then uses its identity and tracking',
  'Setting up the Segment integration completes only once the Segment instance reports ready, and its user id, anonymous id and traits are then what the experiment user carries; before that, the identity Segment persisted is used. An exposure is accepted only by a ready Segment instance and is then tracked exactly once with the same name and properties; otherwise it is refused so that it is retried. Persisted identity that cannot be read counts as absent. With setup skipped nothing waits, and the integration keeps to the persisted identity.',
  ['schedules', 'configurations'], 'every timing of script load, readiness, setup, tracking and identity changes, for an instance passed in, on the page or nested there, with and without readable persisted identity',
  'Readiness callback, readiness polling and replacement of the stub by the real library interleave with setup and tracking.',
  [SG + 'plugin.ts'], [['ready', 'segment ready', 'plugin closure']], [['segmentIntegrationPlugin', SG + 'plugin.ts']], ['plugin.setup', 'plugin.getUser', 'plugin.track']);

// ---------------------------------------------------------------- tag
p('T01', 'Nothing is persisted without consent',
  'When consent is required and not granted, the tag leaves no trace in local storage, session storage or cookies, other than the preview and visual-editor state it is documented to keep; what it would have written is held in memory and is visible to its own reads (a removal takes away only what is held). Granting consent writes what is held, combining it with what is already on the device instead of overwriting it; refusing discards it. When consent is not required, or granted, writes go through at once.',
  ['histories', 'schedules'], 'every interleaving of reads, writes, removals, page loads and consent decisions, repeated decisions included',
  'Consent tests that drive the whole tag do not run; each helper test samples a few sequences.',
  [TG + 'util/storage.ts', TG + 'util/cookie.ts', TG + 'consent/consent-cookie-storage.ts', TG + 'util/grant-flush-merge.ts', TG + 'consent/consent-gate.ts'],
  [['pendingWrites', 'writes held for consent', 'util/storage.ts'], ['status', 'consent status', 'ConsentManager']],
  [['getStorageItem / setStorageItem / removeStorageItem', TG + 'util/storage.ts'], ['SyncJsonCookie', TG + 'util/cookie.ts'], ['ConsentAwareCookieStorage', TG + 'consent/consent-cookie-storage.ts']],
  ['localStorage', 'sessionStorage', 'document.cookie']);
p('T02', 'A consent decision is final for its page unless changed, and heard exactly once',
  'Consent starts as pending when required; the first granted or denied status decides it, an explicit status set by the page outranks the configured one whatever their order, and setting pending never undoes a decision. Everything registered to wait for the decision is told exactly once, in registration order, even if one of them fails, and listeners are told of every later change and only of changes. A later switch between granted and denied is seen by status reads at once.',
  ['histories'], 'every sequence of configured and explicit statuses, registrations, unregistrations and reentrant calls',
  'Unit tests use two or three calls in fixed order.',
  [TG + 'consent/consent-manager.ts', TG + 'consent/consent-gate.ts'],
  [['status', 'tri-state decision', 'ConsentManager.status'], ['listeners', 'waiting callbacks', 'ConsentManager.listeners']],
  [['ConsentManager.setStatus / seedFromConfig', TG + 'consent/consent-manager.ts'], ['onConsentDecision', TG + 'consent/consent-gate.ts']],
  ['callbacks', 'status reads']);
p('T03', 'Impressions wait for consent, then go out once, in order, or are dropped',
  'While consent is pending, impressions are held (at most the newest 512) and none reaches analytics; on grant each is sent exactly once, in the order seen and stamped with the time it was seen, with refused sends retried every second until accepted; on denial, also one that comes while they are being sent, all still held are discarded and later ones are silently dropped. With consent granted or not required impressions pass straight through with the analytics\' own answer.',
  ['schedules', 'fault_sequences'], 'every interleaving of impressions, decisions, refused or throwing sends and timer ticks',
  'Tests do not combine refusals during the flush with further impressions and decisions.',
  [TG + 'consent/consent-impression-buffer.ts', TG + 'consent/consent-gate.ts'],
  [['buffer', 'held impressions', 'consent-impression-buffer.ts']],
  [['wrapIntegrationTrackForConsent', TG + 'consent/consent-impression-buffer.ts']],
  ['integration track calls']);
p('T04', 'Denial erases what the tag persisted, on every subdomain',
  'Refusing consent removes what the tag has persisted for its API key and instance from the local and session storage of the page and from cookies of its host and of every domain level above it (identity, behavioural events and session, caches, queues, campaign parameters and redirect records), and leaves other applications\' data, other keys and the preview state alone. A page of the same site on another subdomain that starts later without an identity in sight erases what is left there before it uses any of it, once consent permits it to run. Granting or leaving consent open erases nothing.',
  ['histories', 'configurations'], 'every set of persisted items, decision history and host within the same registrable domain',
  'The erase tests do not run here, and which keys exist depends on the history.',
  [TG + 'consent/clear-data.ts', TG + 'util/storage-keys.ts', TG + 'util/cookie.ts'],
  [['persisted keys', 'tag-owned keys', 'getPersistedDataKeys']],
  [['clearPersistedData / armDenialCleanup / clearIfErasedElsewhere', TG + 'consent/clear-data.ts']],
  ['localStorage', 'sessionStorage', 'document.cookie']);
p('T05', 'Behavioural events keep the newest 500 in time order and survive reloads',
  'The behavioural event history holds the newest 500 events the rules are about, each with an identity that never changes, and is written to storage once half a second passes without a further event, or at once when the tab is hidden or left, so that the next page load finds it. Synchronising with the store shared by the subdomains leaves both with every event once, the local ones ordered by time, whatever happens meanwhile; a failed synchronisation loses nothing. Without consent nothing is read from or written to storage or the shared store; on grant what was collected while undecided is kept together with what was stored, and a refusal drops it.',
  ['histories', 'crash_points', 'schedules'], 'every interleaving of added events, debounce expiry, page loads, consent decisions and synchronisation',
  'Bound, debounce, merge and consent interact only in long histories.',
  [TG + 'behavioral-targeting/event-storage.ts'],
  [['events', 'event history', 'EventStorageManager']],
  [['addEvent / persist / mergeFromRelay / syncFromRelay', TG + 'behavioral-targeting/event-storage.ts']],
  ['getAllEvents', 'localStorage']);
p('T06', 'Behavioural targeting matches exactly the configured counts and windows',
  'A behavioural rule matches when at least one of its groups has all its conditions hold, each condition comparing the number of matching events (by type and property filters) in its time window or current session with its threshold by its operator, negated where configured. After an event every rule about that kind of event is decided anew on the whole history, and on page load and synchronisation every rule is; otherwise what matches stays as it is. A synchronisation reports a change exactly when the matched set changed.',
  ['inputs', 'histories'], 'every rule, event history and evaluation time, window edges included',
  'Window edges, counts and negation interact; tests evaluate fixed histories.',
  [TG + 'behavioral-targeting/evaluator.ts', TG + 'behavioral-targeting/behavioral-targeting-manager.ts'],
  [['matched', 'matched behaviours', 'BehavioralTargetingManager']],
  [['evaluate', TG + 'behavioral-targeting/evaluator.ts'], ['trackEvent / evaluateAll', TG + 'behavioral-targeting/behavioral-targeting-manager.ts']],
  ['getMatchedBehaviors']);
p('T07', 'A session lasts until 30 minutes without activity',
  'Activity within 30 minutes of the previous activity continues the session and extends it; later activity, or asking for the session later, starts a new one, and asking never extends one. The session survives page loads and is shared by tabs and subdomains through a cookie. Without consent the cookie is neither read nor written, a grant keeps the session of the page, and where cookies do not work the session lives in the page alone.',
  ['histories', 'schedules'], 'every sequence of activity, queries, page loads, clock advances and consent decisions',
  'The boundary and extension rules are about histories in time.',
  [TG + 'behavioral-targeting/session-manager.ts'],
  [['session', 'id and last activity', 'SessionManager']],
  [['recordActivity / getCurrentSessionId', TG + 'behavioral-targeting/session-manager.ts']],
  ['session id', 'storage']);
p('T08', 'The cross-domain relay client loses no accepted write and trusts only its frame',
  'A write handed to the relay client is sent as soon as the frame is ready, and again with every flush, oldest first, until the relay confirms it; requests resolve with the reply to that very request, or fail after two seconds, or at once when there is no frame. Messages from any other origin or window, or that answer no open request, change nothing. Destroying the client fails everything still open and stops sending.',
  ['schedules', 'fault_sequences'], 'every interleaving of requests, replies, lost, late, foreign and duplicate messages, time-outs and destruction',
  'Message races; tests answer promptly and in order.',
  [TG + 'behavioral-targeting/relay-client.ts', TG + 'behavioral-targeting/relay-protocol.ts'],
  [['pending', 'open requests', 'RelayClient'], ['pendingWrites', 'unconfirmed writes', 'RelayClient']],
  [['RelayClient', TG + 'behavioral-targeting/relay-client.ts']],
  ['postMessage calls', 'returned promises']);
p('T09', 'A page shows exactly the changes its active variants call for',
  'After variants are applied on a page, each flag that is active there has exactly the changes of its current variant in effect, each applied once however often applying is repeated; a flag whose variant changed or whose page is no longer active has its earlier changes reverted. Reverting removes every change of the flags asked for and nothing of others. An impression is recorded only for a flag that is active on the page, when one of its changes takes effect or its control or off variant is met there, and not again while address (query and hash aside) and variant stay the same.',
  ['histories', 'configurations'], 'every sequence of navigations (also several at once), page activation and deactivation, variant changes, apply, revert and preview, over any flags, pages, scopes and injected scripts',
  'No test of the web client runs; the guarantees are about sequences.',
  [TG + 'experiment.ts'],
  [['appliedMutations', 'changes in effect', 'DefaultWebExperimentClient.appliedMutations'], ['activePages', 'pages in effect', 'DefaultWebExperimentClient.activePages']],
  [['applyVariants / revertVariants / handleMutate / handleInject', TG + 'experiment.ts']],
  ['DOM mutations', 'style/script elements', 'exposures']);
p('T10', 'Redirect variants move the user once and still record the impression',
  'On a page where its flag (and the scope of the redirect) is active, a redirect variant sends the browser, or the redirect handler of the site, once to its target, keeping those query parameters of the page that the target does not set; never to the address it is already at, nor while another redirect is under way. When the site itself undoes a redirect (the next document, or an address change without any interaction of the visitor, is back at the source without what the redirect added), that flag stops redirecting for the session. The impression is counted on the first page with the tag that is the destination (query and hash aside; across subdomains when carried by cookie or address), not again there, and no impression of a later redirect is lost by it; on another page it is counted only after half a second there.',
  ['histories', 'configurations'], 'every sequence of page loads, redirects followed, stripped or sent back, soft navigations, interactions and waits, over addresses, queries, flags, handlers and ways to carry impressions',
  'Needs several page loads with shared storage; the web client tests do not run.',
  [TG + 'experiment.ts', TG + 'util/url.ts'],
  [['redirect records', 'pending impressions, markers and suppressed flags', 'sessionStorage / cookies / url']],
  [['handleRedirect / storeRedirectImpressions / fireStoredRedirectImpressions', TG + 'experiment.ts'], ['concatenateQueryParamsOf', TG + 'util/url.ts']],
  ['location.replace', 'redirect handler', 'exposures', 'suppressed flags']);
p('T11', 'A page object is active exactly when its address rule and trigger hold',
  'A page is active when its address conditions match the current address and its trigger has occurred since the last navigation: manual activation (until switched off), an analytics event matching its filter, a click, or hover or focus held long enough, on an element its selector matches, time on page while the tab is visible (starting over when the tab becomes visible again), scroll depth or an element scrolled to, an element appearing or becoming visible to the wanted ratio, or exit intent after a minimum time. A page whose trigger has occurred stays active until the next navigation, which resets triggers and re-evaluates every page. Changes are on screen and impressions sent exactly for the experiments with an active page, for the resolved user. Subscribers are told of each change of the active set, and never when nothing changed.',
  ['histories', 'schedules'], 'every sequence of navigations, trigger events and timers over any set of pages',
  'No test of page triggers runs; correctness is about sequences of events and time.',
  [TG + 'subscriptions/subscriptions.ts', TG + 'subscriptions/message-bus.ts', TG + 'util/page-object.ts'],
  [['activePages', 'active pages', 'DefaultWebExperimentClient.activePages'], ['trigger state', 'triggers that have fired', 'SubscriptionManager']],
  [['isPageObjectActive / setupPageObjectSubscriptions', TG + 'subscriptions/subscriptions.ts'], ['MessageBus', TG + 'subscriptions/message-bus.ts']],
  ['active pages', 'page change subscribers']);
p('T12', 'The tag starts exactly once, when allowed, and keeps early analytics events',
  'However often and in whatever order the tag is initialised (also by a second copy of the script) and consent is set, the web client is started at most once: at once when consent is not required, otherwise when it is granted, with the latest configuration given. In preview mode or under the browser extension it starts from the configuration the server of the effective zone gives, falling back on the one built in, and the page is hidden meanwhile for at most a second; in the visual editor it applies nothing. Analytics events that arrive before the client runs are kept (the newest 500) and handed over in order when it does, but none seen while starting is withheld for consent.',
  ['histories', 'schedules'], 'every order of script load, plugin events, consent statuses, server replies and timeouts',
  'Start-up order is a schedule; tests cover the straightforward one.',
  [TG + 'index.ts', TG + 'consent/consent-gate.ts', TG + 'consent/consent-manager.ts', TG + 'util/config.ts', TG + 'preview/preview-api.ts'],
  [['started', 'start latch', 'index.ts'], ['eventBuffer', 'events before start', 'index.ts']],
  [['initialize / launchClient / setConsentStatus', TG + 'index.ts'], ['mergeWithWindowConfig', TG + 'util/config.ts'], ['start', TG + 'experiment.ts']],
  ['window.webExperiment', 'events handed over', 'requests', 'hidden page']);
p('T13', 'Remote experiments wait for the served flags, and fall back on kept ones',
  'On every page load local experiments are applied at once (after the visitor is identified where there are holdouts or mutexes), while remote ones, and those depending on them, are applied only when the served flags are in or have failed, whatever navigation happens meanwhile; experiments whose flags were served earlier in the session are applied at once from those. When the server fails or times out, the flags served earlier in the session are used, and where there are none the built-in ones; only served flags are kept. The page stays hidden for an active blocking remote experiment until it is applied, but never longer than a second.',
  ['histories', 'schedules', 'fault_sequences'], 'every set of flags, modes and dependencies, built in, kept and served, and every order of page loads, replies, timeouts, identification and navigation',
  'Depends on what earlier page loads left behind and on the order of replies and navigation; the tests of start-up do not run in the suite.',
  [TG + 'experiment.ts', TG + 'util/anti-flicker.ts', BR + 'experimentClient.ts'],
  [['remoteFlagKeys', 'experiments decided by served flags', 'DefaultWebExperimentClient'], ['localFlagKeys', 'experiments applied at once', 'DefaultWebExperimentClient'], ['flags', 'flags in use', 'ExperimentClient'], ['activeHandle', 'style hiding the page', 'util/anti-flicker.ts']],
  [['constructor / start / applyVariants', TG + 'experiment.ts'], ['doFlags', BR + 'experimentClient.ts'], ['applyAntiFlickerCss / removeAntiFlickerCss', TG + 'util/anti-flicker.ts']],
  ['changes on screen', 'impressions', 'hidden page', 'flags kept in session storage']);

p('B13', 'What a client tells targeting about page, device and groups is true and steady',
  'A client made by initialize() adds to the user the page\'s own facts: URL parameters with all their values, whole cookie values, browser, operating system, device, language, referrer, the landing page of the session and the time of the first visit; the latter two stay what they were first seen to be for as long as their record can be read. A field the application or its user provider states is never replaced by these, and one they leave null hides nothing. Targeting by group sees for each group type the first group of the user (or else of the provider) and that group\'s properties.',
  ['histories', 'configurations', 'inputs'], 'every order of page loads, navigation, user and provider changes, cookie changes, time and storage trouble, over users, groups, agents and addresses',
  'Needs histories over page loads and storage states and combinations of sources; the client tests do not run.',
  [BR + 'providers/default.ts', BR + 'util/convert.ts', BR + 'experimentClient.ts'],
  [['landing_url / first_seen records', 'remembered facts', 'DefaultUserProvider']],
  [['getUser', BR + 'providers/default.ts'], ['convertUserToContext', BR + 'util/convert.ts'], ['addContext', BR + 'experimentClient.ts']],
  ['userProvider.getUser()', 'flags targeted at context.page and groups', 'device storage']);
p('T14', 'The tag knows a returning visitor and the campaign that brought them',
  'On every visit the tag\'s visitor has an identifier and a time of first visit no later than now; a host keeps its identifier for as long as its storage lasts (one left by an earlier version carries over), and the hosts of a site with shared cookies know one common visitor and one first visit, each copy of which is made again from the other when lost. Campaign parameters of the address count before what the analytics SDK keeps, which counts before what the host remembered, parameter by parameter, and none is forgotten. Unreadable records count as absent.',
  ['histories', 'fault_sequences', 'configurations'], 'every history of visits to the hosts of a site with and without shared cookies, of records of earlier versions, lost, damaged or unwritable storage and cookies, and of campaigns',
  'Depends on what earlier visits to other hosts left behind in three stores; the tests of start-up do not run in the suite.',
  [TG + 'experiment.ts', TG + 'util/campaign.ts', TG + 'util/cookie.ts', TG + 'util/storage.ts'],
  [['EXP_<key> record', 'identifiers of the host', 'local storage'], ['EXP_<key>_identity', 'identifiers of the site', 'cookie'], ['EXP_MKTG_<key>', 'campaign of the host', 'local storage']],
  [['start / resolveCrossSubdomainObject', TG + 'experiment.ts'], ['enrichUserWithCampaignData', TG + 'util/campaign.ts']],
  ['ExperimentClient.getUser', 'identity cookie', 'local storage']);
p('T15', 'An injected element is in the page whenever there is a place for it',
  'An element an injected script asks to insert is put at its place (last in its parent, or right before its sibling at any depth within it) as soon as the page has that place, and put back whenever the page takes it out, except that after ten placements within a second the next waits for that second to pass; the callback tells of every placement and the promise of the first. Waiting for an element resolves as soon as the page has it. Once the injection is cancelled nothing is placed, told or found any more, and changes of variants to the page are never left paused.',
  ['histories', 'schedules'], 'every order of parents and siblings appearing, moving and vanishing, removals in bursts, other changes of the page, time and cancellation',
  'Depends on the order of changes of the page, their number and the time between them; no test drives these helpers.',
  [TG + 'util/inject-utils.ts'],
  [['rateLimit', 'placements within the last second', 'insertElement'], ['state.cancelled', 'injection cancelled', 'getInjectUtils']],
  [['insertElement / waitForElement', TG + 'util/inject-utils.ts']],
  ['place of the element in the document', 'callback', 'promises', 'dom-mutator observer']);

p('E05', 'Evaluation traces tell truthfully how each flag was decided',
  'An evaluation with traces gives the same results as one without, and exactly one trace for every flag evaluated. The trace says of each segment which conditions were looked at, up to the one that decided, with the value each looked at and whether it held, whether the segment passed, and the variant bucketing gave; its flag matches exactly when the flag has a result, and then names the segment which gave it. Tracing changes neither flags nor user.',
  ['inputs', 'configurations'], 'every flag, user and dependency on earlier results over generated segments, conditions, buckets and metadata',
  'The debug state shown to people relies on it and ordinary evaluation never runs that code, so the two can drift apart for inputs no test samples.',
  [CO + 'evaluation/evaluation.ts', BR + 'experimentClient.ts'],
  [['traces', 'record of each flag', 'FlagEvaluationTrace']],
  [['evaluateWithTraces / evaluateFlagWithTrace', CO + 'evaluation/evaluation.ts'], ['getEvaluationTraces', BR + 'experimentClient.ts']],
  ['EvaluationEngine.evaluateWithTraces']);
p('B14', 'Every request goes where, when and as the client was first configured',
  'A deployment key and instance name have one client, made with the first configuration given; null settings count as not given. Its requests go to the configured server or else that of the server zone (in any letter case), through the configured HTTP client, with its deployment key, the current user without cookies (flag requests of web clients: only the identifiers; of others: nothing), the flag keys asked for and the kept tracking option; flags and variants are requested on start, on fetch, by retries and by polling only if so configured, at no less than a minute apart, and given up after the configured time. Errors reach the caller only if asked for, and log messages only at the configured level, through the configured logger.',
  ['configurations', 'histories', 'fault_sequences'], 'every combination of settings, order of calls on several clients, answers, failures and silence of both servers, and time',
  'Settings interact with failures and time across several requests; the client tests do not run.',
  [BR + 'experimentClient.ts', BR + 'factory.ts', BR + 'transport/http.ts', BR + 'config.ts', CO + 'api/evaluation-api.ts', CO + 'api/flag-api.ts'],
  [['config', 'settings with defaults', 'ExperimentClient'], ['instances', 'one client per key and instance name', 'factory.ts'], ['fetchVariantsOptions', 'kept tracking option', 'local storage']],
  [['constructor / start / fetch / doFetch / doFlags', BR + 'experimentClient.ts'], ['initialize', BR + 'factory.ts'], ['getVariants / getFlags', CO + 'api']],
  ['requests sent', 'promises of start and fetch', 'log messages']);

p('T16', 'Links whose address a variant changed still navigate in place, and only those',
  'A plain click on, or inside, a link of the page\'s router whose address a variant has changed goes where the variant says, once: within the page by the router the page has (or by its history, telling listeners once) when the address is of the same site, by loading it otherwise. Every other click is left to the browser and the page untouched: links no variant changed or changed back, links outside the router, links opening elsewhere and clicks with modifier keys or other buttons.',
  ['histories', 'inputs'], 'every history of links made, changed and changed back, routers appearing and clicks of every kind on and inside them',
  'Depends on what variants did to each link and on what framework made it; no test clicks a link.',
  [TG + 'util/spa-link-interceptor.ts'],
  [['mutated links', 'links whose address a variant changed', 'spa-link-interceptor.ts']],
  [['installSpaLinkInterceptor', TG + 'util/spa-link-interceptor.ts']],
  ['click events', 'history', 'location']);

p('T17', 'The page shows the experiments for what the visitor is known to have done',
  'Once the remote flags are there, the page shows exactly those experiments which the behaviours the visitor now matches give, and the user is known by exactly these: after start, after every tracked event, even several in the same moment, and when the relay has told what was done on other subdomains, after which remote flags decided by behaviours are asked for once more. Previewed experiments stay. A relay that is not there in time, does not answer or refuses changes nothing and leaves nothing behind; one which has answered gets every own event.',
  ['histories', 'schedules', 'fault_sequences'], 'every order of events here and elsewhere, page loads, navigation, answers, failures and silence of the flag server and the relay',
  'Depends on which behaviours were gained or lost by which path, and on interleavings of asynchronous work no test arranges.',
  [TG + 'experiment.ts', TG + 'subscriptions/subscriptions.ts', TG + 'behavioral-targeting/behavioral-targeting-manager.ts'],
  [['userBehaviors', 'behaviours the user was last updated with', 'DefaultWebExperimentClient'], ['matchedBehaviors', 'behaviours matched now', 'BehavioralTargetingManager'], ['appliedMutations', 'changes to the page', 'DefaultWebExperimentClient']],
  [['scheduleRelaySync / reapplyVariantsAfterRelaySync / updateUserWithBehaviors / applyVariants', TG + 'experiment.ts'], ['setupPageObjectSubscriptions', TG + 'subscriptions/subscriptions.ts'], ['beginRelaySync', TG + 'behavioral-targeting/behavioral-targeting-manager.ts']],
  ['changes to the page', 'ExperimentClient.getUser', 'relay frame', 'flag requests']);
p('T18', 'A preview shows the variants its link names, throughout the tab, until ended',
  'A preview link makes the tab show the variants it names, on every page from then on, in place of the visitor\'s own, whatever variant that is and whether or not the flag is remote; it replaces the preview before and one naming none ends it. The named parameters leave the address and nothing else does. Impressions are counted of what each page really shows. One notice at a time tells which variants are previewed; other tabs, and tabs whose record is lost or damaged, work as if there were no preview.',
  ['histories', 'configurations', 'fault_sequences'], 'every sequence of links, page loads, navigation, dismissal, lost and damaged records and new tabs',
  'Depends on what earlier pages of the tab left behind and on several flags at once.',
  [TG + 'experiment.ts', TG + 'preview/preview.ts', TG + 'preview/preview-api.ts', TG + 'util/url.ts', TG + 'index.ts'],
  [['amp-preview-mode', 'variants previewed in this tab', 'session storage'], ['previewFlags', 'variants previewed on this page', 'DefaultWebExperimentClient']],
  [['setupPreviewMode / previewVariants', TG + 'experiment.ts'], ['showPreviewModeModal', TG + 'preview/preview.ts'], ['isPreviewMode', TG + 'util/url.ts']],
  ['changes to the page', 'address', 'notice', 'session storage', 'requests']);

p('T19', 'The visual editor comes only from Amplitude; no experiments while it is used',
  'The editor\'s script is loaded only on pages opened for editing or previewing, only from an address at Amplitude over https, and only when a window of Amplitude or the session stored by the editor asks for it; once, whatever is asked again, and anew if loading failed. While it is used no experiment changes the page, and the pages on which experiments run are those the editor laid out. The sign that it is loading goes away within 10 seconds. Without a window to talk to, a notice says so instead.',
  ['inputs', 'histories', 'fault_sequences'], 'every sequence of page loads (for editing, previewing or neither), stored sessions, messages of any origin and address, loading failures, navigation and waiting',
  'Security rests on every combination of origin, address and earlier state, of which tests try a few.',
  [TG + 'util/messenger.ts', TG + 'util/opener-channel.ts', TG + 'util/loading-indicator.ts', TG + 'util/opener-severed-banner.ts', TG + 'experiment.ts'],
  [['state', 'whether the editor is closed, being loaded or open', 'WindowMessenger.setup'], ['visual-editor-state', 'the editor\'s session in this tab', 'session storage']],
  [['setup / getStoredSession / asyncLoadScript', TG + 'util/messenger.ts'], ['doStart / setupPreviewMode / setPageObjects', TG + 'experiment.ts']],
  ['script elements', 'loading sign', 'changes to the page', 'active pages', 'address', 'getDebugState']);

fs.writeFileSync(new URL('../properties.jsonl', import.meta.url), L.map((x) => JSON.stringify(x)).join('\n') + '\n');
for (const x of L) {
  if (x.title.length > 80) console.error(x.id, 'title too long', x.title.length);
  const n = x.statement.split(/(?<=[.])\s+(?=[A-Z])/).length;
  if (n > 3) console.error(x.id, 'sentences', n);
}
console.log(L.length, 'properties');
