From 6c59f1198b604c0986b7d19df1fe9b23b5288ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 01/42] fix: copy user properties in setUser based on the given
 user

setUser decided whether to copy user_properties by looking at the previously
set user, so the first user set (or any user set after one without
properties) shared its user_properties object with the caller.
---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 4462b2c..f139661 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -454,7 +454,7 @@ export class ExperimentClient implements Client {
       this.user = null;
       return;
     }
-    if (this.user?.user_properties) {
+    if (user.user_properties) {
       const userPropertiesCopy = { ...user.user_properties };
       this.user = { ...user, user_properties: userPropertiesCopy };
     } else {
-- 
2.43.0


From 4a40537d7708685b09b34690ffe577843e08ddfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 02/42] fix: do not start polling if the client was stopped
 while starting

---
 packages/experiment-browser/src/experimentClient.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index f139661..a0cbe0b 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -271,7 +271,8 @@ export class ExperimentClient implements Client {
       // Otherwise, silently handle the error (existing behavior)
     }
 
-    if (this.config.pollOnStart) {
+    // The client may have been stopped while starting.
+    if (this.config.pollOnStart && this.isRunning) {
       this.poller.start();
     }
   }
-- 
2.43.0


From 4dc973c5b5cf0adf84f2da24d08bedb93821beb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:22 +0000
Subject: [PATCH 03/42] fix: superseded fetches neither retry nor overwrite
 newer variants

A background retry whose request was in flight when a newer fetch started
could still store its (possibly other user's) variants over the newer ones,
and an older fetch failing after a newer one had started left a retry loop
running that nothing could cancel.
---
 .../src/experimentClient.ts                   | 30 ++++++++++++++++---
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index a0cbe0b..e0b12af 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -96,6 +96,7 @@ export class ExperimentClient implements Client {
   private userProvider: ExperimentUserProvider | undefined;
   private userSessionExposureTracker: UserSessionExposureTracker | undefined;
   private retriesBackoff: Backoff | undefined;
+  private fetchGeneration = 0;
   private poller: Poller;
   private isRunning = false;
   private readonly integrationManager: IntegrationManager;
@@ -734,6 +735,7 @@ export class ExperimentClient implements Client {
     timeoutMillis: number,
     retry: boolean,
     options?: FetchOptions,
+    generation?: number,
   ): Promise<Variants> {
     // Don't even try to fetch variants if API key is not set
     if (!this.apiKey) {
@@ -746,6 +748,7 @@ export class ExperimentClient implements Client {
     // requests. A new failure will restart the retries.
     if (retry) {
       this.stopRetries();
+      generation = ++this.fetchGeneration;
     }
 
     try {
@@ -753,11 +756,19 @@ export class ExperimentClient implements Client {
         trackingOption: this.fetchVariantsOptions.get()?.trackingOption,
         ...options,
       });
-      await this.storeVariants(variants, options);
+      // A background retry which was superseded by a newer fetch while its
+      // request was in flight must not overwrite the newer fetch's variants.
+      if (retry || this.isLatestFetch(generation)) {
+        await this.storeVariants(variants, options);
+      }
       return variants;
     } catch (e) {
-      if (retry && this.shouldRetryFetch(e)) {
-        void this.startRetries(user, options);
+      if (
+        retry &&
+        this.isLatestFetch(generation) &&
+        this.shouldRetryFetch(e)
+      ) {
+        void this.startRetries(user, options, generation);
       }
       throw e;
     }
@@ -866,6 +877,7 @@ export class ExperimentClient implements Client {
   private async startRetries(
     user: ExperimentUser,
     options: FetchOptions,
+    generation: number,
   ): Promise<void> {
     this.logger.debug('[Experiment] Retry fetch');
     this.retriesBackoff = new Backoff(
@@ -875,10 +887,20 @@ export class ExperimentClient implements Client {
       fetchBackoffScalar,
     );
     void this.retriesBackoff.start(async () => {
-      await this.fetchInternal(user, fetchBackoffTimeout, false, options);
+      await this.fetchInternal(
+        user,
+        fetchBackoffTimeout,
+        false,
+        options,
+        generation,
+      );
     });
   }
 
+  private isLatestFetch(generation: number | undefined): boolean {
+    return generation === undefined || generation === this.fetchGeneration;
+  }
+
   private stopRetries(): void {
     if (this.retriesBackoff) {
       this.retriesBackoff.cancel();
-- 
2.43.0


From 4db4672903d78c5a3713e0909c0173ace576d5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:43 +0000
Subject: [PATCH 04/42] fix: unreadable, full or blocked storage no longer
 makes the client throw

Accessing window.localStorage or sessionStorage throws when the browser blocks
storage, which made client construction throw; an unreadable exposure cache or
queue and a full local storage made variant() throw.
---
 .../src/integration/manager.ts                | 25 +++++++++++++++----
 packages/experiment-core/src/util/global.ts   | 14 +++++++++--
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index e39d5b2..a4bc273 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -200,8 +200,12 @@ export class SessionDedupeCache {
   private loadCache(): void {
     const sessionStorage = getSessionStorage();
     if (this.isSessionStorageAvailable && sessionStorage) {
-      const storedCache = sessionStorage.getItem(this.storageKey);
-      this.inMemoryCache = storedCache ? JSON.parse(storedCache) : {};
+      try {
+        const storedCache = sessionStorage.getItem(this.storageKey);
+        this.inMemoryCache = (storedCache && JSON.parse(storedCache)) || {};
+      } catch (e) {
+        // Unreadable cache: keep what is in memory
+      }
     }
   }
 
@@ -278,8 +282,12 @@ export class PersistentTrackingQueue {
   private loadQueue(): void {
     const localStorage = getLocalStorage();
     if (this.isLocalStorageAvailable && localStorage) {
-      const storedQueue = localStorage.getItem(this.storageKey);
-      this.inMemoryQueue = storedQueue ? JSON.parse(storedQueue) : [];
+      try {
+        const storedQueue = localStorage.getItem(this.storageKey);
+        this.inMemoryQueue = (storedQueue && JSON.parse(storedQueue)) || [];
+      } catch (e) {
+        // Unreadable queue: keep what is in memory
+      }
     }
   }
 
@@ -292,7 +300,14 @@ export class PersistentTrackingQueue {
           this.inMemoryQueue.length - this.maxQueueSize,
         );
       }
-      localStorage.setItem(this.storageKey, JSON.stringify(this.inMemoryQueue));
+      try {
+        localStorage.setItem(
+          this.storageKey,
+          JSON.stringify(this.inMemoryQueue),
+        );
+      } catch (e) {
+        // Gracefully handle QuotaExceededError or other storage errors.
+      }
     }
   }
 
diff --git a/packages/experiment-core/src/util/global.ts b/packages/experiment-core/src/util/global.ts
index 1efca4f..1abaadf 100644
--- a/packages/experiment-core/src/util/global.ts
+++ b/packages/experiment-core/src/util/global.ts
@@ -37,11 +37,21 @@ export const isLocalStorageAvailable = (): boolean => {
 };
 
 export const getLocalStorage = (): Storage | undefined => {
-  return getGlobalScope()?.localStorage;
+  try {
+    return getGlobalScope()?.localStorage;
+  } catch (e) {
+    // Accessing the property throws when the browser blocks storage
+    return undefined;
+  }
 };
 
 export const getSessionStorage = (): Storage | undefined => {
-  return getGlobalScope()?.sessionStorage;
+  try {
+    return getGlobalScope()?.sessionStorage;
+  } catch (e) {
+    // Accessing the property throws when the browser blocks storage
+    return undefined;
+  }
 };
 
 export const getDocument = (): Document | undefined => {
-- 
2.43.0


From b4d303f4f89ee6c069c88facd7a4a50a70783bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 05/42] fix: an integration replaced during its setup no longer
 reports ready

When a replaced integration's setup settled, events went to the new integration
before its own setup had completed, called on the wrong receiver, and pending
fetches stopped waiting for it.
---
 .../src/integration/manager.ts                | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/packages/experiment-browser/src/integration/manager.ts b/packages/experiment-browser/src/integration/manager.ts
index a4bc273..b206ab7 100644
--- a/packages/experiment-browser/src/integration/manager.ts
+++ b/packages/experiment-browser/src/integration/manager.ts
@@ -67,16 +67,15 @@ export class IntegrationManager {
     }
     this.integration = integration;
     if (integration.setup) {
-      this.integration.setup(this.config, this.client).then(
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-        () => {
-          this.queue.setTracker(this.integration.track.bind(integration));
-          this.resolve();
-        },
-      );
+      const onSetup = () => {
+        // The integration may have been replaced while it was being set up.
+        if (this.integration !== integration) {
+          return;
+        }
+        this.queue.setTracker(integration.track.bind(integration));
+        this.resolve();
+      };
+      this.integration.setup(this.config, this.client).then(onSetup, onSetup);
     } else {
       this.queue.setTracker(this.integration.track.bind(integration));
       this.resolve();
-- 
2.43.0


From fe2c868dc2acc8a14dac52dad7ecbbd5cd54cb13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:16 +0000
Subject: [PATCH 06/42] fix: tracking an exposure no longer rewrites the stored
 variant's metadata

---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index e0b12af..7c1f59d 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -978,7 +978,7 @@ export class ExperimentClient implements Client {
       }
     }
 
-    if (metadata) exposure.metadata = metadata;
+    if (metadata) exposure.metadata = { ...metadata };
     if (this.isWebExperiment) {
       exposure.time = Date.now();
     }
-- 
2.43.0


From d64ebc0ae9b98cf299d9c6f67e69830e8be863a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 07/42] fix: fetch sends the user as it was given

fetch() kept using the caller's user object, so changes the caller made to it
while the request waited for the integration, or before a retry, were sent.
---
 packages/experiment-browser/src/experimentClient.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 7c1f59d..73690a5 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -320,7 +320,7 @@ export class ExperimentClient implements Client {
     this.setUser(user || {});
     try {
       await this.fetchInternal(
-        user,
+        this.user,
         this.config.fetchTimeoutMillis,
         this.config.retryFetchOnFailure,
         options,
-- 
2.43.0


From 0357addf7693bfa1f14c32b6ea42940bacdbd7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 08/42] fix: null and undefined user fields no longer hide
 provided ones

As documented, the user provider fills the fields of outgoing users which are
null or undefined; spreading let such fields overwrite provided values.
---
 .../src/experimentClient.ts                   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index 73690a5..de92844 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -917,9 +917,9 @@ export class ExperimentClient implements Client {
     };
     return {
       library: `experiment-js-client/${PACKAGE_VERSION}`,
-      ...providedUser,
-      ...integrationUser,
-      ...user,
+      ...presentFields(providedUser),
+      ...presentFields(integrationUser),
+      ...presentFields(user),
       user_properties: mergedUserProperties,
     };
   }
@@ -1045,6 +1045,20 @@ export class ExperimentClient implements Client {
   }
 }
 
+/**
+ * The fields of the user which are set, i.e. neither null nor undefined, and
+ * which may therefore override fields of lower priority users.
+ */
+const presentFields = (user: ExperimentUser | undefined): ExperimentUser => {
+  const fields: Record<string, unknown> = {};
+  for (const [key, value] of Object.entries(user ?? {})) {
+    if (value !== null && value !== undefined) {
+      fields[key] = value;
+    }
+  }
+  return fields as ExperimentUser;
+};
+
 type SourceVariant = {
   variant?: Variant | undefined;
   source?: VariantSource | undefined;
-- 
2.43.0


From 3340a44e93705934a8ff4e0696e0e1224040b3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:38 +0000
Subject: [PATCH 09/42] fix: a malformed Amplitude cookie no longer breaks
 initialization

Decoding a cookie value with an invalid escape threw out of the constructor
of the Amplitude integration; unreadable persisted state is to be ignored.
---
 packages/experiment-browser/src/util/state.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/util/state.ts b/packages/experiment-browser/src/util/state.ts
index c9a314f..7b6568e 100644
--- a/packages/experiment-browser/src/util/state.ts
+++ b/packages/experiment-browser/src/util/state.ts
@@ -24,7 +24,7 @@ export const parseAmplitudeCookie = (
   for (const cookie of cookies) {
     const [cookieKey, cookieValue] = cookie.split('=', 2);
     if (cookieKey === key) {
-      value = decodeURIComponent(cookieValue);
+      value = cookieValue;
     }
   }
   if (!value) {
@@ -32,6 +32,7 @@ export const parseAmplitudeCookie = (
   }
   // Parse cookie value depending on format
   try {
+    value = decodeURIComponent(value);
     // New format
     if (newFormat) {
       const decoding = atob(value);
-- 
2.43.0


From 1dee123feeede21cbe924089625426e7bcb24ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:38 +0000
Subject: [PATCH 10/42] fix: comparisons of values which are not numbers fall
 back to text

parseNumber returned NaN instead of undefined, so the intended fallback to
comparing as text was never reached and no such comparison ever matched.
---
 packages/experiment-core/src/evaluation/evaluation.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-core/src/evaluation/evaluation.ts b/packages/experiment-core/src/evaluation/evaluation.ts
index cff7021..2db2522 100644
--- a/packages/experiment-core/src/evaluation/evaluation.ts
+++ b/packages/experiment-core/src/evaluation/evaluation.ts
@@ -552,7 +552,8 @@ export class EvaluationEngine {
   }
 
   private parseNumber(value: string): number | undefined {
-    return Number(value) ?? undefined;
+    const parsed = value.trim() === '' ? NaN : Number(value);
+    return Number.isNaN(parsed) ? undefined : parsed;
   }
 
   private coerceString(value: unknown | undefined): string | undefined {
-- 
2.43.0


From 8fcdc288d565c7a217f48a462e009ef7ef480479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:59 +0000
Subject: [PATCH 11/42] fix: unreadable persisted Segment identity no longer
 makes getUser throw

---
 packages/plugin-segment/src/plugin.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/plugin-segment/src/plugin.ts b/packages/plugin-segment/src/plugin.ts
index 8a9c410..639593a 100644
--- a/packages/plugin-segment/src/plugin.ts
+++ b/packages/plugin-segment/src/plugin.ts
@@ -60,9 +60,14 @@ export const segmentIntegrationPlugin: SegmentIntegrationPlugin = (
         };
       }
       const get = (key: string) => {
-        const localStorage = getLocalStorage();
-        if (!localStorage) return undefined;
-        return JSON.parse(localStorage.getItem(key)) || undefined;
+        try {
+          const localStorage = getLocalStorage();
+          if (!localStorage) return undefined;
+          return JSON.parse(localStorage.getItem(key)) || undefined;
+        } catch (e) {
+          // Storage is blocked, or the stored value is not JSON.
+          return undefined;
+        }
       };
       return {
         user_id: get('ajs_user_id'),
-- 
2.43.0


From 2405fa346a77acb70402e6d8e602b1f30aeeeca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:34 +0000
Subject: [PATCH 12/42] fix: impressions held for a retry are discarded when
 consent is revoked

---
 .../src/consent/consent-impression-buffer.ts       | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/consent/consent-impression-buffer.ts b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
index 918a36e..0cda767 100644
--- a/packages/experiment-tag/src/consent/consent-impression-buffer.ts
+++ b/packages/experiment-tag/src/consent/consent-impression-buffer.ts
@@ -7,9 +7,9 @@ import type {
 import type { ImpressionBufferDebugInfo } from '../types/debug';
 
 import {
+  consentGate,
   isConsentPending,
   isConsentWithheld,
-  onConsentDecision,
 } from './consent-gate';
 
 /** Matches the cap on the SDK's own PersistentTrackingQueue. */
@@ -83,12 +83,12 @@ class ImpressionBuffer {
       return;
     }
     this.flushArmed = true;
-    onConsentDecision((granted) => {
-      if (granted) {
-        this.flush();
-      } else {
-        this.discardBuffered();
-      }
+    // Stays subscribed past the first decision: impressions the integration has
+    // refused are still held after a grant, and a revocation that arrives before
+    // they are accepted must discard them even if consent is granted again.
+    // flush() sends or discards according to the status in force.
+    consentGate.manager.onChange(() => {
+      this.flush();
     });
   }
 
-- 
2.43.0


From 4be4eba8d9fb1f243aa83246eb7473cf68777850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:18 +0000
Subject: [PATCH 13/42] fix: a cookie write in progress when consent is revoked
 is not issued

---
 .../experiment-tag/src/consent/consent-cookie-storage.ts | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/packages/experiment-tag/src/consent/consent-cookie-storage.ts b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
index 2c45419..25bcb34 100644
--- a/packages/experiment-tag/src/consent/consent-cookie-storage.ts
+++ b/packages/experiment-tag/src/consent/consent-cookie-storage.ts
@@ -64,6 +64,11 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
       return;
     }
     await this.flush;
+    // Consent can be revoked while this waited; the denial sweep has run by
+    // then, so a write issued now would outlive it.
+    if (isConsentWithheld()) {
+      return;
+    }
     return this.delegate.set(key, value);
   }
 
@@ -97,6 +102,10 @@ export class ConsentAwareCookieStorage<T> implements AsyncCookieStore<T> {
           }
           try {
             const existing = await this.delegate.get(key);
+            // Re-checked after the await, for a revocation that arrived since.
+            if (consentGate.manager.getStatus() !== 'granted') {
+              return;
+            }
             const merged =
               typeof value === 'string'
                 ? (mergeIdentityCookieJson(
-- 
2.43.0


From cc463f8e6989e83113e1bd0972ba8820b50aa247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 14/42] fix: behavioural events seen without consent are not
 sent to the relay

---
 .../src/behavioral-targeting/event-storage.ts | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
index 157c2b1..ccb91b6 100644
--- a/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/event-storage.ts
@@ -143,7 +143,9 @@ export class EventStorageManager {
     // Trigger debounced write to localStorage
     this.scheduleDebouncedWrite();
 
-    this.relayClient?.writeEvent(event);
+    if (!isConsentWithheld()) {
+      this.relayClient?.writeEvent(event);
+    }
   }
 
   /**
@@ -157,7 +159,9 @@ export class EventStorageManager {
    * Flushes pending relay writes (e.g. on page unload).
    */
   flushRelay(): void {
-    this.relayClient?.flush();
+    if (!isConsentWithheld()) {
+      this.relayClient?.flush();
+    }
   }
 
   /**
@@ -193,11 +197,12 @@ export class EventStorageManager {
 
   /**
    * Pass 2 sync: migrate local store to relay if needed, then merge relay events.
-   * Returns true when sync completed; false when relay unavailable or RPC failed.
+   * Returns true when sync completed; false when relay unavailable or RPC failed,
+   * or when consent is withheld: the relay store is on the device too.
    */
   async syncFromRelay(relayClient?: RelayClient): Promise<boolean> {
     const relay = relayClient ?? this.relayClient;
-    if (!relay?.relayAvailable) {
+    if (!relay?.relayAvailable || isConsentWithheld()) {
       return false;
     }
 
@@ -207,6 +212,9 @@ export class EventStorageManager {
         return false;
       }
       const migrated = await relay.checkMigrated(origin);
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // First-time origins migrate their local store in bulk (one RPC). The
       // backfill below then reconciles anything the bulk push dropped.
@@ -215,9 +223,15 @@ export class EventStorageManager {
           events: [...this.memoryCache.events],
           nextId: this.memoryCache.nextId,
         });
+        if (isConsentWithheld()) {
+          return false;
+        }
       }
 
       const relayStore = await relay.readEvents();
+      if (isConsentWithheld()) {
+        return false;
+      }
 
       // Backfill any local events the relay is missing, regardless of migrated
       // state. Both MIGRATE_EVENTS and the store dedupe on uuid, so this is a
-- 
2.43.0


From 3ff0c1897e94660de4e81faa799b94e662024f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 15/42] fix: changes of a variant's later mutate actions were
 mistaken for earlier ones

Applied mutations were remembered by position within their action, so with two
mutate actions in one payload the second action's mutations counted as already
applied and never took effect.
---
 packages/experiment-tag/src/experiment.ts | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 6ea4edf..0ead400 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1299,11 +1299,15 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private async handleVariantAction(key: string, variant: Variant) {
+    // Mutations are identified by their position across all of the variant's
+    // mutate actions, so that one action's do not stand in for another's.
+    let mutationOffset = 0;
     for (const action of variant.payload) {
       if (action.action === REDIRECT_ACTION) {
         await this.handleRedirect(action, key, variant);
       } else if (action.action === MUTATE_ACTION) {
-        this.handleMutate(action, key, variant);
+        this.handleMutate(action, key, variant, mutationOffset);
+        mutationOffset += action.data?.mutations?.length ?? 0;
       } else if (action.action === INJECT_ACTION) {
         this.handleInject(action, key, variant);
       }
@@ -1633,7 +1637,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
-  private handleMutate(action, flagKey: string, variant: Variant) {
+  private handleMutate(
+    action,
+    flagKey: string,
+    variant: Variant,
+    mutationOffset = 0,
+  ) {
     const mutations = action.data?.mutations || [];
     const variantKey = variant.key || '';
 
@@ -1643,7 +1652,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     const mutationControllers: Record<number, MutationController> = {};
 
-    mutations.forEach((m, index) => {
+    mutations.forEach((m, position) => {
+      const index = mutationOffset + position;
       // Check if mutation is scoped to page
       if (!this.isActionActiveOnPage(flagKey, m?.metadata?.scope)) {
         // Revert and delete the mutation if it exists
-- 
2.43.0


From 14ce864622f55b8ed54bd38da4c0dd66844a37a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:14 +0000
Subject: [PATCH 16/42] fix: revert an injection whose page is no longer active

Injections are remembered by id, but leaving the action's page looked the entry
up at index 0, so the injected code, styles and clean-up stayed in place.
---
 packages/experiment-tag/src/experiment.ts | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 0ead400..2a5b1d6 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1709,9 +1709,22 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     const variantKey = variant.key || '';
 
     if (!this.isActionActiveOnPage(flagKey, action?.data?.scope)) {
-      this.appliedMutations[flagKey]?.[variantKey]?.[
-        INJECT_ACTION
-      ]?.[0]?.revert();
+      // Revert and forget the injection if it exists
+      const injections =
+        this.appliedMutations[flagKey]?.[variantKey]?.[INJECT_ACTION];
+      const injectionId = String(action?.data?.id ?? '').replace(/-/g, '');
+      if (injections?.[injectionId]) {
+        injections[injectionId].revert();
+        delete injections[injectionId];
+        if (Object.keys(injections).length === 0) {
+          delete this.appliedMutations[flagKey][variantKey][INJECT_ACTION];
+        }
+        if (
+          Object.keys(this.appliedMutations[flagKey][variantKey]).length === 0
+        ) {
+          delete this.appliedMutations[flagKey];
+        }
+      }
       return;
     }
     // Validate and transform ID
-- 
2.43.0


From 596c80095a08b1724d9335d97e9b6e30f212641f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 17/42] fix: redirect records survived a refusal of consent

---
 packages/experiment-tag/src/consent/clear-data.ts | 10 +++++++++-
 packages/experiment-tag/src/experiment.ts         |  6 ++++--
 packages/experiment-tag/src/util/storage-keys.ts  |  8 ++++++++
 3 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/consent/clear-data.ts b/packages/experiment-tag/src/consent/clear-data.ts
index 62734bf..4ee2eb1 100644
--- a/packages/experiment-tag/src/consent/clear-data.ts
+++ b/packages/experiment-tag/src/consent/clear-data.ts
@@ -8,7 +8,11 @@ import {
   writeRawCookie,
 } from '../util/cookie';
 import { removeStorageItem } from '../util/storage';
-import { identityCookieKey } from '../util/storage-keys';
+import {
+  identityCookieKey,
+  redirectMarkerKey,
+  redirectSuppressKey,
+} from '../util/storage-keys';
 
 import { consentGate } from './consent-gate';
 
@@ -178,6 +182,10 @@ export const clearAllPersistedData = (
   for (const key of keys.sessionStorage) {
     removeStorageItem('sessionStorage', key);
   }
+  // Redirect loop protection records the addresses the visitor was sent
+  // between, so it goes with the rest.
+  removeStorageItem('sessionStorage', redirectMarkerKey(apiKey));
+  removeStorageItem('sessionStorage', redirectSuppressKey(apiKey));
 
   const hostname = getGlobalScope()?.location?.hostname ?? '';
   const domains = getCookieDomainLevels(hostname).map((domain) => `.${domain}`);
diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 2a5b1d6..01fbc78 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -85,6 +85,8 @@ import {
 import {
   identityCookieKey,
   PREVIEW_MODE_SESSION_KEY,
+  redirectMarkerKey,
+  redirectSuppressKey,
 } from './util/storage-keys';
 import {
   getUrlParams,
@@ -1464,11 +1466,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   private redirectMarkerStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+    return redirectMarkerKey(this.apiKey);
   }
 
   private redirectSuppressStorageKey(): string {
-    return `EXP_${this.apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+    return redirectSuppressKey(this.apiKey);
   }
 
   private getRedirectMarkers(): Record<string, RedirectMarker> {
diff --git a/packages/experiment-tag/src/util/storage-keys.ts b/packages/experiment-tag/src/util/storage-keys.ts
index e0fcc69..1de5ee4 100644
--- a/packages/experiment-tag/src/util/storage-keys.ts
+++ b/packages/experiment-tag/src/util/storage-keys.ts
@@ -11,6 +11,14 @@
 export const identityCookieKey = (apiKey: string): string =>
   `EXP_${apiKey.slice(0, 10)}_identity`;
 
+/** Session record of redirects under way and landed; see `experiment.ts`. */
+export const redirectMarkerKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_MARKER`;
+
+/** Session record of redirects suppressed for this tab; see `experiment.ts`. */
+export const redirectSuppressKey = (apiKey: string): string =>
+  `EXP_${apiKey.slice(0, 10)}_REDIRECT_SUPPRESSED`;
+
 /** Preview mode's flag overrides, carried across the URL-param cleanup. */
 export const PREVIEW_MODE_SESSION_KEY = 'amp-preview-mode';
 
-- 
2.43.0


From 4f2f3cd933ec57ad8153dc01db311184d0c86798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:10 +0000
Subject: [PATCH 18/42] fix: delivering redirect impressions dropped those of
 later redirects

---
 packages/experiment-tag/src/experiment.ts | 107 ++++++++++++++++------
 1 file changed, 79 insertions(+), 28 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 01fbc78..c8e4ef1 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -286,6 +286,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   } = {};
   private previousUrl: string | undefined = undefined;
   // Cache to track exposure for the current URL, should be cleared on URL change
+  // Stored redirect impressions waiting out their delay, by flag key
+  private redirectImpressionTimers: Record<
+    string,
+    ReturnType<typeof setTimeout>
+  > = {};
   private urlExposureCache: {
     [url: string]: {
       [flagKey: string]: string | undefined; // variant
@@ -1879,6 +1884,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       ...(variant.metadata !== undefined ? { metadata: variant.metadata } : {}),
     };
 
+    // An earlier redirect of this flag not delivered yet is superseded
+    this.cancelRedirectImpressionTimer(flagKey);
+
     // Always write to sessionStorage
     const stored =
       getStorageItem<Record<string, StoredRedirectImpression>>(
@@ -1918,6 +1926,13 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  private cancelRedirectImpressionTimer(flagKey: string) {
+    if (flagKey in this.redirectImpressionTimers) {
+      this.globalScope.clearTimeout(this.redirectImpressionTimers[flagKey]);
+      delete this.redirectImpressionTimers[flagKey];
+    }
+  }
+
   private async fireStoredRedirectImpressions() {
     const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
 
@@ -1962,6 +1977,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       >({
         ...(domain && { domain }),
         sameSite: 'Lax',
+        expirationDays: 1 / 1440, // 1 minute
       });
       try {
         cookieImpressions = (await cookieStorage.get(storageKey)) || {};
@@ -1988,46 +2004,81 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope.location.href,
     );
 
+    const delivered: string[] = [];
     for (const flagKey in merged) {
       const { redirectUrl, variantKey, expKey, metadata } = merged[flagKey];
-      if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
+      const deliver = () =>
         this.exposureWithDedupe(
           flagKey,
           { key: variantKey, expKey, metadata },
           true,
         );
-        delete merged[flagKey];
+      if (matchesUrl([currentUrl], urlWithoutParamsAndAnchor(redirectUrl))) {
+        this.cancelRedirectImpressionTimer(flagKey);
+        deliver();
+        delivered.push(flagKey);
+      } else if (!(flagKey in this.redirectImpressionTimers)) {
+        this.redirectImpressionTimers[flagKey] = this.globalScope.setTimeout(
+          () => {
+            delete this.redirectImpressionTimers[flagKey];
+            deliver();
+            void this.forgetRedirectImpressions(
+              [flagKey],
+              storageKey,
+              cookieStorage,
+            );
+          },
+          500,
+        );
       }
     }
 
-    const cleanup = async () => {
-      removeStorageItem('sessionStorage', storageKey);
-      if (cookieStorage) {
-        await cookieStorage.remove(storageKey).catch((error) => {
-          console.error(
-            `Failed to remove redirect impressions from cookie ${storageKey}:`,
-            error,
-          );
-        });
-      }
-    };
+    await this.forgetRedirectImpressions(delivered, storageKey, cookieStorage);
+  }
 
-    if (Object.keys(merged).length > 0) {
-      this.globalScope.setTimeout(() => {
-        void (async () => {
-          for (const flagKey in merged) {
-            const { variantKey, expKey, metadata } = merged[flagKey];
-            this.exposureWithDedupe(
-              flagKey,
-              { key: variantKey, expKey, metadata },
-              true,
-            );
-          }
-          await cleanup();
-        })();
-      }, 500);
+  /**
+   * Removes delivered impressions from where they are stored, leaving those of
+   * other redirects in place.
+   */
+  private async forgetRedirectImpressions(
+    flagKeys: string[],
+    storageKey: string,
+    cookieStorage?: AsyncCookieStore<Record<string, StoredRedirectImpression>>,
+  ) {
+    if (flagKeys.length === 0) {
+      return;
+    }
+    const without = (stored: Record<string, StoredRedirectImpression>) =>
+      Object.fromEntries(
+        Object.entries(stored).filter(([key]) => !flagKeys.includes(key)),
+      );
+
+    const session = without(
+      getStorageItem<Record<string, StoredRedirectImpression>>(
+        'sessionStorage',
+        storageKey,
+      ) || {},
+    );
+    if (Object.keys(session).length > 0) {
+      setStorageItem('sessionStorage', storageKey, session);
     } else {
-      await cleanup();
+      removeStorageItem('sessionStorage', storageKey);
+    }
+
+    if (cookieStorage) {
+      try {
+        const cookie = without((await cookieStorage.get(storageKey)) || {});
+        if (Object.keys(cookie).length > 0) {
+          await cookieStorage.set(storageKey, cookie);
+        } else {
+          await cookieStorage.remove(storageKey);
+        }
+      } catch (error) {
+        console.error(
+          `Failed to remove redirect impressions from cookie ${storageKey}:`,
+          error,
+        );
+      }
     }
   }
 
-- 
2.43.0


From be6e9cef512862e54e0860fe535d87ec867a4747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:18 +0000
Subject: [PATCH 19/42] fix: redirect impressions with names beyond Latin-1
 stopped the web client

---
 packages/experiment-tag/src/experiment.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index c8e4ef1..67f8a90 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -1420,7 +1420,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       };
       targetUrlObj.searchParams.set(
         REDIRECT_IMPRESSION_PARAM,
-        btoa(JSON.stringify(urlPayload)),
+        // btoa takes Latin-1 only: the rest travels as JSON escapes
+        btoa(
+          JSON.stringify(urlPayload).replace(
+            /[\u0100-\uffff]/g,
+            (char) =>
+              `\\u${('0000' + char.charCodeAt(0).toString(16)).slice(-4)}`,
+          ),
+        ),
       );
       targetUrl = targetUrlObj.toString();
     }
-- 
2.43.0


From fa9acb441a7545af5327a902aa11419b399b0408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 20/42] fix: an interaction only counted for the first selector
 it matched

A click, hover or focus on an element which several page objects' selectors
match stopped at the first of them, so the others never became active.
---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 73d8375..16bacbf 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -966,7 +966,6 @@ export class SubscriptionManager {
                 fireTrigger();
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1036,7 +1035,6 @@ export class SubscriptionManager {
                 }
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
@@ -1068,7 +1066,6 @@ export class SubscriptionManager {
                 config.timeoutStorage.delete(matchedAncestor);
               }
             }
-            break;
           }
         } catch (e) {
           // Invalid selector, skip
-- 
2.43.0


From 94a62ab8712c72e7614b163b691bddd95e11b9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 21/42] fix: elements out of view counted as visible

With no visibilityRatio an observer's first report of an element which is not
in view switched its page on; and an element which left the view switched a
page off as soon as another element came into view.
---
 .../src/subscriptions/subscriptions.ts           | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 16bacbf..54507ab 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -716,14 +716,18 @@ export class SubscriptionManager {
           const observer = new IntersectionObserver(
             (entries) => {
               entries.forEach((entry) => {
-                const isVisible = entry.intersectionRatio >= visibilityRatio;
-
-                // Update visibility state
-                this.elementVisibilityState.set(observerKey, isVisible);
-
-                // Publish event when element becomes visible
+                // An entry outside the viewport has an intersectionRatio of 0,
+                // which meets a visibilityRatio of 0 without being visible.
+                const isVisible =
+                  entry.isIntersecting &&
+                  entry.intersectionRatio >= visibilityRatio;
+
+                // Publish event when element becomes visible. The state holds
+                // until the next navigation: the trigger has occurred even if
+                // this (or another matching) element is out of view.
                 // Observer continues running; state check prevents duplicate firing
                 if (isVisible) {
+                  this.elementVisibilityState.set(observerKey, true);
                   this.messageBus.publish('element_visible');
                 }
               });
-- 
2.43.0


From 3ff3ca4f3e99417c430a063e60f191663eac6b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 22/42] fix: time on page ran in hidden tabs and twice over

Timers of a page opened (or navigated) in a hidden tab ran all the same, and
showing the tab left the first timer running beside the second.
---
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index 54507ab..ae96b5e 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -1130,10 +1130,17 @@ export class SubscriptionManager {
     }
 
     this.setUpTimeouts(durations);
+    if (this.globalScope.document.hidden) {
+      // Time in a hidden tab does not count: keep the durations pending until
+      // the tab becomes visible
+      Object.values(this.timeOnPageTimeouts).forEach(clearTimeout);
+    }
   };
 
   private setUpTimeouts = (durations: Set<number>) => {
     durations.forEach((durationMs) => {
+      // Never leave a previous timer for the same duration running
+      clearTimeout(this.timeOnPageTimeouts[durationMs]);
       this.timeOnPageTimeouts[durationMs] = this.globalScope.setTimeout(() => {
         this.messageBus.publish('time_on_page', { durationMs });
         delete this.timeOnPageTimeouts[durationMs];
-- 
2.43.0


From 5530146bf39f985bdd29e17111c5a0a6f2a5fd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:02 +0000
Subject: [PATCH 23/42] fix: triggers during start applied variants for an
 unresolved user

A trigger which occurred before start() had resolved the user evaluated and
exposed a variant for somebody else.
---
 packages/experiment-tag/src/experiment.ts                  | 5 +++++
 packages/experiment-tag/src/subscriptions/subscriptions.ts | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 67f8a90..60816f6 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -311,6 +311,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  // True while start() resolves the user. Triggers which occur meanwhile only
+  // activate their pages: variants evaluated now would be for another user.
+  public isResolvingUser = false;
   private readonly messageBus: MessageBus;
   private pageObjects: PageObjects;
   private activePages: PageObjects = {};
@@ -475,6 +478,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       this.globalScope,
     );
     this.setupPreviewMode(urlParams);
+    this.isResolvingUser = true;
     this.subscriptionManager.initSubscriptions();
     // Redirect stick-detector: settle any marker left by a prior redirect against
     // this fresh load, then watch for the user interaction that ends its window.
@@ -711,6 +715,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     // apply local variants
+    this.isResolvingUser = false;
     await this.applyVariants({ flagKeys: this.localFlagKeys });
     await this.previewVariants({
       keyToVariant: this.previewFlags,
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index ae96b5e..a6ebae1 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -415,6 +415,8 @@ export class SubscriptionManager {
           const shouldApplyVariants =
             !isInternalUpdate &&
             !this.options.isVisualEditorMode &&
+            // Until the user is resolved, start() applies the active pages
+            !this.webExperimentClient.isResolvingUser &&
             (pagesChanged || behaviorsChanged || isUrlChange);
 
           if (shouldApplyVariants) {
-- 
2.43.0


From bd3137300873a824f593d5cf626d1bc2701b20a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 24/42] fix: a timed out flag request stored the built-in flags
 as served ones

They then took the place of the initial flags of later initializations.
---
 packages/experiment-browser/src/experimentClient.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/packages/experiment-browser/src/experimentClient.ts b/packages/experiment-browser/src/experimentClient.ts
index de92844..0f5b6c5 100644
--- a/packages/experiment-browser/src/experimentClient.ts
+++ b/packages/experiment-browser/src/experimentClient.ts
@@ -837,6 +837,9 @@ export class ExperimentClient implements Client {
         if (this.config.throwOnError) {
           throw e;
         }
+        // Nothing new to store. The flags at hand include initial flags, which
+        // must not outlive the initial flags of a later initialization.
+        return;
       } else {
         throw e;
       }
-- 
2.43.0


From f7e144f1a256a29b830dc46da98d0688a4757c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 25/42] fix: preview configs and relay ignored the effective
 server zone

A serverZone set in window.experimentConfig, or in lower case, was not used.
---
 .../src/behavioral-targeting/relay-client.ts               | 4 +++-
 packages/experiment-tag/src/index.ts                       | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
index fceb291..f547d78 100644
--- a/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/relay-client.ts
@@ -22,7 +22,9 @@ export function getRelayUrl(
     return `${relayUrl.replace(/\/+$/, '')}/script/${apiKey}.relay.html`;
   }
   const cdnHost =
-    serverZone === 'EU' ? 'cdn.eu.amplitude.com' : 'cdn.amplitude.com';
+    serverZone?.toLowerCase() === 'eu'
+      ? 'cdn.eu.amplitude.com'
+      : 'cdn.amplitude.com';
   return `https://${cdnHost}/script/${apiKey}.relay.html`;
 }
 
diff --git a/packages/experiment-tag/src/index.ts b/packages/experiment-tag/src/index.ts
index a815cf2..fceced0 100644
--- a/packages/experiment-tag/src/index.ts
+++ b/packages/experiment-tag/src/index.ts
@@ -163,7 +163,10 @@ const launchClient = (
     // to startClient so it stays gated on isRedirecting — a redirect experiment
     // surfaced in preview mode must keep the overlay up while navigation is
     // in-flight, just like the normal path.
-    fetchLatestConfigs(apiKey, config.serverZone)
+    fetchLatestConfigs(
+      apiKey,
+      mergeWithWindowConfig(config, globalScope).serverZone,
+    )
       .then((previewState) => {
         const initialFlags = JSON.stringify(previewState.flags);
         const pageObjects = JSON.stringify(previewState.pageViewObjects);
@@ -213,7 +216,7 @@ const startClient = (
 
 const fetchLatestConfigs = async (apiKey: string, serverZone?: string) => {
   const serverUrl =
-    serverZone === 'EU'
+    serverZone?.toLowerCase() === 'eu'
       ? 'https://api.lab.eu.amplitude.com'
       : 'https://api.lab.amplitude.com';
   const api = new SdkPreviewApi(apiKey, serverUrl, HttpClient);
-- 
2.43.0


From 6b077358d0e5df4a6ea66d4b4d3c053b42ac8325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 26/42] fix: starting the web client while it was starting
 started it twice

A second copy of the script on the page subscribed and fetched again.
---
 packages/experiment-tag/src/experiment.ts | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 60816f6..df63bc5 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -311,6 +311,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public isRedirecting = false;
   private customRedirectHandler: ((url: string) => void) | undefined;
   public isRunning = false;
+  private startPromise: Promise<void> | undefined;
   // True while start() resolves the user. Triggers which occur meanwhile only
   // activate their pages: variants evaluated now would be for another user.
   public isResolvingUser = false;
@@ -433,9 +434,20 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   }
 
   /**
-   * Start the web experiment client.
+   * Start the web experiment client. Starting again, also while the client is
+   * still starting, has no effect.
    */
-  public async start() {
+  public start(): Promise<void> {
+    if (!this.startPromise) {
+      this.startPromise = this.doStart().catch((error) => {
+        this.startPromise = undefined;
+        throw error;
+      });
+    }
+    return this.startPromise;
+  }
+
+  private async doStart() {
     if (this.isRunning) {
       return;
     }
-- 
2.43.0


From 6bbfc9f9889a2303045b56435bdabece105259e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:07 +0000
Subject: [PATCH 27/42] fix: a navigation during start applied experiments
 awaiting their flags

Until the remote flags are in, experiments which need them would be bucketed
by stale flags, and count an impression of the wrong variant.
---
 packages/experiment-tag/src/experiment.ts | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index df63bc5..1626fbf 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -305,6 +305,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   private readonly localFlagKeys: string[] = [];
   private remoteFlagKeys: string[] = [];
   private isRemoteBlocking = false;
+  // True until the flags start() fetches are in: experiments which need them
+  // are not applied before, whatever occurs on the page meanwhile.
+  private isAwaitingRemoteFlags = false;
   // Public so the bootstrap (index.ts) can avoid removing anti-flicker CSS while
   // a redirect is in-flight — location.replace() doesn't suspend painting, so
   // tearing the overlay down before the navigation commits flashes the source page.
@@ -726,6 +729,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       await this.experimentClient.integrationManager.ready();
     }
 
+    // do not fetch remote flags if all remote flags are in preview mode
+    const allRemotePreviewed = this.remoteFlagKeys.every((key) =>
+      Object.keys(this.previewFlags).includes(key),
+    );
+    this.isAwaitingRemoteFlags = !allRemotePreviewed;
+
     // apply local variants
     this.isResolvingUser = false;
     await this.applyVariants({ flagKeys: this.localFlagKeys });
@@ -737,13 +746,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       removeAntiFlickerCss();
     }
 
-    if (
-      this.isRedirecting ||
-      // do not fetch remote flags if all remote flags are in preview mode
-      this.remoteFlagKeys.every((key) =>
-        Object.keys(this.previewFlags).includes(key),
-      )
-    ) {
+    if (this.isRedirecting || allRemotePreviewed) {
+      this.isAwaitingRemoteFlags = false;
       this.scheduleRelaySync(enrichedUser);
       this.isRunning = true;
       flushEventBuffer(this);
@@ -751,6 +755,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
 
     await this.fetchRemoteFlags();
+    this.isAwaitingRemoteFlags = false;
     // apply remote variants - if fetch is unsuccessful, fallback order: 1. localStorage flags, 2. initial flags
     await this.applyVariants({ flagKeys: this.remoteFlagKeys });
     this.scheduleRelaySync(enrichedUser);
@@ -843,6 +848,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if ((flagKeys && !flagKeys.includes(key)) || this.previewFlags[key]) {
         continue;
       }
+      if (this.isAwaitingRemoteFlags && !this.localFlagKeys.includes(key)) {
+        continue;
+      }
       const variant = variants[key];
       const variantKey = variant.key || '';
 
-- 
2.43.0


From 2dee7c7912e58d73d9d7f9f30f7946dcc8dcc3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 28/42] fix: cookie values seen by targeting were cut at an
 equals sign

---
 packages/experiment-browser/src/providers/default.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index ca4ae5e..d87aeef 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -80,7 +80,11 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       return undefined;
     }
     return Object.fromEntries(
-      this.globalScope?.document?.cookie?.split('; ').map((c) => c.split('=')),
+      this.globalScope?.document?.cookie?.split('; ').map((c) => {
+        // the value itself may contain an equals sign
+        const [name, ...value] = c.split('=');
+        return [name, value.join('=')];
+      }),
     );
   }
 
-- 
2.43.0


From 8a1e82374cc598063f40bc7b0196af8e018d4258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:36 +0000
Subject: [PATCH 29/42] fix: empty fields of an application's user provider hid
 the default ones

---
 packages/experiment-browser/src/providers/default.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-browser/src/providers/default.ts b/packages/experiment-browser/src/providers/default.ts
index d87aeef..f25abba 100644
--- a/packages/experiment-browser/src/providers/default.ts
+++ b/packages/experiment-browser/src/providers/default.ts
@@ -5,6 +5,7 @@ import { LocalStorage } from '../storage/local-storage';
 import { SessionStorage } from '../storage/session-storage';
 import { ExperimentUserProvider } from '../types/provider';
 import { ExperimentUser } from '../types/user';
+import { filterNullUndefined } from '../util';
 
 export class DefaultUserProvider implements ExperimentUserProvider {
   globalScope = getGlobalScope();
@@ -41,7 +42,7 @@ export class DefaultUserProvider implements ExperimentUserProvider {
       first_seen: this.getFirstSeen(),
       url_param: this.getUrlParam(),
       user_agent: this.userAgent,
-      ...user,
+      ...filterNullUndefined(user),
     };
   }
 
-- 
2.43.0


From 3cf32a4761074662b86f934865d401648784dbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 30/42] fix: an injected element was given up when the page
 changed a lot before it could be placed

---
 packages/experiment-tag/src/util/inject-utils.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 500d5a7..7201d35 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -105,9 +105,6 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           if (rateLimit >= 10) {
             return;
           }
-          rateLimit++;
-          setTimeout(() => rateLimit--, 1000);
-
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -121,6 +118,12 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
             return;
           }
 
+          rateLimit++;
+          setTimeout(() => {
+            rateLimit--;
+            checkElementInserted();
+          }, 1000);
+
           pauseGlobalObserver();
           parent.insertBefore(element, sibling);
           resumeGlobalObserver();
-- 
2.43.0


From 63e263612053421e89f45a4f8b8ab69347353ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:29 +0000
Subject: [PATCH 31/42] fix: placing an injected element before a nested
 sibling threw and stopped all mutations

---
 packages/experiment-tag/src/util/inject-utils.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/util/inject-utils.ts b/packages/experiment-tag/src/util/inject-utils.ts
index 7201d35..ac991f2 100644
--- a/packages/experiment-tag/src/util/inject-utils.ts
+++ b/packages/experiment-tag/src/util/inject-utils.ts
@@ -105,6 +105,7 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           if (rateLimit >= 10) {
             return;
           }
+
           const parent = document.querySelector(options.parentSelector);
           if (!parent) {
             return;
@@ -125,7 +126,8 @@ export const getInjectUtils = (state: { cancelled: boolean }): InjectUtils =>
           }, 1000);
 
           pauseGlobalObserver();
-          parent.insertBefore(element, sibling);
+          // the sibling need not be a direct child of the parent
+          (sibling?.parentNode ?? parent).insertBefore(element, sibling);
           resumeGlobalObserver();
           callback?.();
           resolve();
-- 
2.43.0


From f3ad7427a1cc4d160ab68c5fbbc9f6df5d8508b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 32/42] fix: behaviors lost after start() or a relay sync kept
 their variants on the page

---
 packages/experiment-tag/src/experiment.ts     |  8 ++++--
 .../src/subscriptions/subscriptions.ts        | 26 +++++--------------
 2 files changed, 12 insertions(+), 22 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 1626fbf..1c1b229 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -325,6 +325,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
   public readonly behavioralTargetingManager:
     | BehavioralTargetingManager
     | undefined;
+  // The matched behaviors the user was last updated with
+  public userBehaviors: Map<string, Set<string>> = new Map();
   private relayClient: RelayClient | null = null;
   private subscriptionManager: SubscriptionManager | undefined;
   private isVisualEditorMode = false;
@@ -1118,10 +1120,12 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       return;
     }
     const behaviorIds: string[] = [];
-    for (const behaviorSet of this.behavioralTargetingManager
+    this.userBehaviors = new Map();
+    for (const [flagKey, behaviorSet] of this.behavioralTargetingManager
       .getMatchedBehaviors()
-      .values()) {
+      .entries()) {
       behaviorIds.push(...behaviorSet);
+      this.userBehaviors.set(flagKey, new Set(behaviorSet));
     }
 
     // Get the current user from the experiment client
diff --git a/packages/experiment-tag/src/subscriptions/subscriptions.ts b/packages/experiment-tag/src/subscriptions/subscriptions.ts
index a6ebae1..a04760b 100644
--- a/packages/experiment-tag/src/subscriptions/subscriptions.ts
+++ b/packages/experiment-tag/src/subscriptions/subscriptions.ts
@@ -65,8 +65,6 @@ export class SubscriptionManager {
   private pageChangeSubscribers: Set<(event: PageChangeEvent) => void> =
     new Set();
   private lastNotifiedActivePages: PageObjects = {};
-  private lastNotifiedActiveBehavioralFlags: Map<string, Set<string>> =
-    new Map();
   private intersectionObservers: Map<string, IntersectionObserver> = new Map();
   private elementVisibilityState: Map<string, boolean> = new Map();
   private elementAppearedState: Set<string> = new Set();
@@ -396,16 +394,16 @@ export class SubscriptionManager {
             this.lastNotifiedActivePages,
           );
 
-          // Get current behavioral state and check if it changed
+          // Get current behavioral state and check if it is no longer the one
+          // the user was last updated with (by start(), a relay sync or an
+          // earlier event)
           const activeBehavioralFlags =
             this.webExperimentClient.behavioralTargetingManager?.getMatchedBehaviors();
+          const lastBehavioralFlags = this.webExperimentClient.userBehaviors;
 
           const behaviorsChanged =
             isAnalyticsEvent &&
-            !areBehaviorsEqual(
-              activeBehavioralFlags,
-              this.lastNotifiedActiveBehavioralFlags,
-            );
+            !areBehaviorsEqual(activeBehavioralFlags, lastBehavioralFlags);
           if (behaviorsChanged) {
             this.webExperimentClient.updateUserWithBehaviors();
           }
@@ -434,9 +432,7 @@ export class SubscriptionManager {
                 ? Array.from(
                     new Set([
                       ...Array.from(activeBehavioralFlags?.keys() || []),
-                      ...Array.from(
-                        this.lastNotifiedActiveBehavioralFlags?.keys() || [],
-                      ),
+                      ...Array.from(lastBehavioralFlags.keys()),
                     ]),
                   )
                 : [];
@@ -481,15 +477,6 @@ export class SubscriptionManager {
           if (pagesChanged || isUrlChange) {
             this.scheduleDebugNotification();
           }
-
-          // Update last notified behaviors if they changed
-          if (behaviorsChanged && activeBehavioralFlags) {
-            this.lastNotifiedActiveBehavioralFlags = new Map(
-              Array.from(activeBehavioralFlags.entries()).map(
-                ([key, value]) => [key, new Set(value)],
-              ),
-            );
-          }
         })();
       });
     }
@@ -515,7 +502,6 @@ export class SubscriptionManager {
     this.maxScrollPercentage = 0;
     this.pageLoadTime = Date.now();
     this.analyticsEventState.clear();
-    this.lastNotifiedActiveBehavioralFlags = new Map();
 
     // Clear pending click timeouts
     for (const timeout of this.clickTimeouts.values()) {
-- 
2.43.0


From beb3aad210782b68d39ad77adced329bfd737d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 33/42] fix: events tracked during a relay sync hid what the
 sync changed

---
 .../src/behavioral-targeting/behavioral-targeting-manager.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
index 3a39154..aaa978f 100644
--- a/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
+++ b/packages/experiment-tag/src/behavioral-targeting/behavioral-targeting-manager.ts
@@ -79,8 +79,6 @@ export class BehavioralTargetingManager {
   public async beginRelaySync(
     relayClient: RelayClient,
   ): Promise<RelaySyncResult> {
-    const behaviorsBefore = this.serializeMatchedBehaviors();
-
     await relayClient.init();
     if (!relayClient.relayAvailable) {
       await relayClient.waitForAvailable();
@@ -94,6 +92,9 @@ export class BehavioralTargetingManager {
       return { status: 'sync_failed' };
     }
 
+    // Compared with what matched right before the merge: events tracked while
+    // waiting for the relay have been evaluated and applied already.
+    const behaviorsBefore = this.serializeMatchedBehaviors();
     this.evaluateAll();
     return behaviorsBefore !== this.serializeMatchedBehaviors()
       ? { status: 'behaviors_changed' }
-- 
2.43.0


From 310fa5c7caf2dd7cef78ff9e1717c98b38ef5c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 34/42] fix: overlapping applyVariants applied variants the
 user no longer had

---
 packages/experiment-tag/src/experiment.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 1c1b229..c1b6f83 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -853,7 +853,9 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       if (this.isAwaitingRemoteFlags && !this.localFlagKeys.includes(key)) {
         continue;
       }
-      const variant = variants[key];
+      // Looked up anew: what the user is served may have changed while earlier
+      // flags were being applied
+      const variant = this.experimentClient.variant(key);
       const variantKey = variant.key || '';
 
       // Check if the variant key has changed for this experiment
-- 
2.43.0


From 0afa0bd2aa12fa69c5ee20fac2b0256364188a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 35/42] fix: a damaged preview record kept the client from
 starting

---
 packages/experiment-tag/src/experiment.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index c1b6f83..b3f05ed 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2151,7 +2151,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
         'sessionStorage',
         PREVIEW_MODE_SESSION_KEY,
       );
-      if (previewState) {
+      // Whatever else is stored there (by page code, say) is no preview
+      if (previewState?.previewFlags) {
         this.previewFlags = previewState.previewFlags;
       }
     }
-- 
2.43.0


From b08a7ee5b9485b4a6cdf2b3ac5f6b3bf748dad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:10 +0000
Subject: [PATCH 36/42] fix: previewing several flags showed the notice several
 times

---
 packages/experiment-tag/src/preview/preview.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/preview/preview.ts b/packages/experiment-tag/src/preview/preview.ts
index dfa17f9..05630fe 100644
--- a/packages/experiment-tag/src/preview/preview.ts
+++ b/packages/experiment-tag/src/preview/preview.ts
@@ -105,7 +105,13 @@ export class PreviewModeModal {
 
     this.injectStyles();
     requestAnimationFrame(() => {
-      if (this.modal && document.body) {
+      // Another modal may have been shown since this one was created: every
+      // previewed flag asks for one
+      if (
+        this.modal &&
+        document.body &&
+        !document.getElementById('amp-preview-modal')
+      ) {
         document.body.appendChild(this.modal);
       }
     });
-- 
2.43.0


From d393e2111b6f1daf75b1a278e6f230c70643a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 37/42] fix: opening the editor from a preview link loaded it
 twice

---
 packages/experiment-tag/src/experiment.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index b3f05ed..06e1aa2 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -2144,8 +2144,11 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
           previewParamsToRemove,
         ),
       );
-      // if in preview mode, listen for ForceVariant messages
-      WindowMessenger.setup();
+      // if in preview mode, listen for ForceVariant messages (in visual editor
+      // mode, that is set up along with the editor)
+      if (!this.isVisualEditorMode) {
+        WindowMessenger.setup();
+      }
     } else {
       const previewState: PreviewState | null = getStorageItem(
         'sessionStorage',
-- 
2.43.0


From 8a250a47ec61b0afd0bcb5047d70c0df4bdf84ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:35 +0000
Subject: [PATCH 38/42] fix: the editor's address that was checked was not the
 one loaded

---
 packages/experiment-tag/src/util/messenger.ts | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/packages/experiment-tag/src/util/messenger.ts b/packages/experiment-tag/src/util/messenger.ts
index e9adf31..309620e 100644
--- a/packages/experiment-tag/src/util/messenger.ts
+++ b/packages/experiment-tag/src/util/messenger.ts
@@ -124,7 +124,7 @@ export class WindowMessenger {
           DebugRecorder.setMessengerState('loading');
           state = 'opening';
           showLoadingIndicator();
-          asyncLoadScript(e.data.context.injectSrc)
+          asyncLoadScript(injectSrc.href)
             .then(() => {
               state = 'open';
               DebugRecorder.setMessengerState('loaded');
@@ -163,11 +163,10 @@ export class WindowMessenger {
       if (injectSrc.protocol !== 'https:' || !match.test(injectSrc.hostname)) {
         return null;
       }
+      return { ...sessionData, injectSrc: injectSrc.href };
     } catch {
       return null;
     }
-
-    return sessionData;
   }
 }
 
-- 
2.43.0


From ec20238be271f548d2b570e2cb1603ece6c0a086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:36 +0000
Subject: [PATCH 39/42] fix: removing delivered redirect impressions lost one
 being stored

---
 packages/experiment-tag/src/experiment.ts | 45 +++++++++++++++++------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index 06e1aa2..fdcb971 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -285,12 +285,14 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     };
   } = {};
   private previousUrl: string | undefined = undefined;
-  // Cache to track exposure for the current URL, should be cleared on URL change
   // Stored redirect impressions waiting out their delay, by flag key
   private redirectImpressionTimers: Record<
     string,
     ReturnType<typeof setTimeout>
   > = {};
+  // Settles once the redirect cookie has all changes asked for so far
+  private redirectCookieUpdate: Promise<void> = Promise.resolve();
+  // Cache to track exposure for the current URL, should be cleared on URL change
   private urlExposureCache: {
     [url: string]: {
       [flagKey: string]: string | undefined; // variant
@@ -1951,10 +1953,10 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
       });
 
       try {
-        const storedRedirects = await storage.get(storageKey);
-        const redirects = storedRedirects || {};
-        redirects[flagKey] = impression;
-        await storage.set(storageKey, redirects);
+        await this.updateRedirectCookie(storage, storageKey, (redirects) => ({
+          ...redirects,
+          [flagKey]: impression,
+        }));
       } catch (error) {
         console.error(
           `Failed to store redirect impression in cookie for ${flagKey}:`,
@@ -1964,6 +1966,32 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
+  /**
+   * Changes the redirect impressions kept in the cookie, one change at a time:
+   * each takes several steps, and one redirect can be under way while what is
+   * left of another is removed.
+   */
+  private updateRedirectCookie(
+    storage: AsyncCookieStore<Record<string, StoredRedirectImpression>>,
+    storageKey: string,
+    change: (
+      stored: Record<string, StoredRedirectImpression>,
+    ) => Record<string, StoredRedirectImpression>,
+  ): Promise<void> {
+    const update = this.redirectCookieUpdate.then(async () => {
+      const changed = change((await storage.get(storageKey)) || {});
+      if (Object.keys(changed).length > 0) {
+        await storage.set(storageKey, changed);
+      } else {
+        await storage.remove(storageKey);
+      }
+    });
+    this.redirectCookieUpdate = update.catch(() => {
+      // reported by whoever asked for the change
+    });
+    return update;
+  }
+
   private cancelRedirectImpressionTimer(flagKey: string) {
     if (flagKey in this.redirectImpressionTimers) {
       this.globalScope.clearTimeout(this.redirectImpressionTimers[flagKey]);
@@ -2105,12 +2133,7 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
 
     if (cookieStorage) {
       try {
-        const cookie = without((await cookieStorage.get(storageKey)) || {});
-        if (Object.keys(cookie).length > 0) {
-          await cookieStorage.set(storageKey, cookie);
-        } else {
-          await cookieStorage.remove(storageKey);
-        }
+        await this.updateRedirectCookie(cookieStorage, storageKey, without);
       } catch (error) {
         console.error(
           `Failed to remove redirect impressions from cookie ${storageKey}:`,
-- 
2.43.0


From 74911d2423b5f449b00ccfcde7f02e2506f3487d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 40/42] fix: events logged while held ones are replayed came
 before them

---
 .../analytics-connector/src/eventBridge.ts    | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/analytics-connector/src/eventBridge.ts b/packages/analytics-connector/src/eventBridge.ts
index e89ebff..721ed7b 100644
--- a/packages/analytics-connector/src/eventBridge.ts
+++ b/packages/analytics-connector/src/eventBridge.ts
@@ -14,12 +14,16 @@ export interface EventBridge {
 export class EventBridgeImpl implements EventBridge {
   private receiver: AnalyticsEventReceiver;
   private queue: AnalyticsEvent[] = [];
+  private replaying = false;
 
   logEvent(event: AnalyticsEvent): void {
     if (!this.receiver) {
       if (this.queue.length < 512) {
         this.queue.push(event);
       }
+    } else if (this.replaying) {
+      // Logged by the receiver, say: comes after the events held before it
+      this.queue.push(event);
     } else {
       this.receiver(event);
     }
@@ -27,11 +31,16 @@ export class EventBridgeImpl implements EventBridge {
 
   setEventReceiver(receiver: AnalyticsEventReceiver): void {
     this.receiver = receiver;
-    if (this.queue.length > 0) {
-      this.queue.forEach((event) => {
-        receiver(event);
-      });
-      this.queue = [];
+    if (this.replaying) {
+      return;
+    }
+    this.replaying = true;
+    try {
+      while (this.queue.length > 0) {
+        receiver(this.queue.shift());
+      }
+    } finally {
+      this.replaying = false;
     }
   }
 }
-- 
2.43.0


From e002e1582b39d8e1989952bbdf9168dfc206cef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:46 +0000
Subject: [PATCH 41/42] fix: a redirect impression superseded by another was
 counted in addition

---
 packages/experiment-tag/src/experiment.ts | 26 ++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/packages/experiment-tag/src/experiment.ts b/packages/experiment-tag/src/experiment.ts
index fdcb971..ee0d1b1 100644
--- a/packages/experiment-tag/src/experiment.ts
+++ b/packages/experiment-tag/src/experiment.ts
@@ -290,6 +290,8 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     string,
     ReturnType<typeof setTimeout>
   > = {};
+  // Set while stored redirect impressions are being delivered
+  private redirectImpressionsDelivery: Promise<void> | undefined = undefined;
   // Settles once the redirect cookie has all changes asked for so far
   private redirectCookieUpdate: Promise<void> = Promise.resolve();
   // Cache to track exposure for the current URL, should be cleared on URL change
@@ -1999,7 +2001,29 @@ export class DefaultWebExperimentClient implements WebExperimentClient {
     }
   }
 
-  private async fireStoredRedirectImpressions() {
+  /**
+   * Delivers stored redirect impressions, after any delivery under way: it may
+   * be about to remove what another would read.
+   */
+  private fireStoredRedirectImpressions(): Promise<void> {
+    const previous = this.redirectImpressionsDelivery;
+    const delivery = (
+      previous
+        ? previous.then(() => this.deliverStoredRedirectImpressions())
+        : this.deliverStoredRedirectImpressions()
+    ).finally(() => {
+      if (this.redirectImpressionsDelivery === settled) {
+        this.redirectImpressionsDelivery = undefined;
+      }
+    });
+    const settled = delivery.catch(() => {
+      // reported to whoever asked for the delivery
+    });
+    this.redirectImpressionsDelivery = settled;
+    return delivery;
+  }
+
+  private async deliverStoredRedirectImpressions() {
     const storageKey = `EXP_${this.apiKey.slice(0, 10)}_REDIRECT`;
 
     // Read URL param impressions (highest priority)
-- 
2.43.0


From 286da4157f5828654d14a477f6d3348bb0de2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:36 +0000
Subject: [PATCH 42/42] fix: an edit which went on after its commit changed the
 committed identity unannounced

---
 packages/analytics-connector/src/identityStore.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/analytics-connector/src/identityStore.ts b/packages/analytics-connector/src/identityStore.ts
index 1689594..d25a779 100644
--- a/packages/analytics-connector/src/identityStore.ts
+++ b/packages/analytics-connector/src/identityStore.ts
@@ -83,7 +83,8 @@ export class IdentityStoreImpl implements IdentityStore {
       updateUserProperties: function (
         actions: Record<string, Record<string, unknown>>,
       ): IdentityEditor {
-        let actingProperties = actingIdentity.userProperties || {};
+        // A copy: what was set or committed before is not to change
+        let actingProperties = { ...actingIdentity.userProperties };
         for (const [action, properties] of Object.entries(actions)) {
           switch (action) {
             case ID_OP_SET:
-- 
2.43.0

