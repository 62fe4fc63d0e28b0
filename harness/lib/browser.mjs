// Harness for experiment-browser clients: real client, real transport, fake network.
import { bundle } from './bundle.mjs';
import { compile, makeGlobal, drain, FakeStorage, VClock, CookieJar } from './env.mjs';

export const ENTRY = `
export * from '@amplitude/experiment-js-client';
export { AnalyticsConnector } from '@amplitude/analytics-connector';
`;
export const loadBrowser = async () => compile(await bundle(ENTRY));

const unb64 = (s) => JSON.parse(Buffer.from(s.replace(/-/g, '+').replace(/_/g, '/'), 'base64').toString('utf8'));

// Pending requests live in numbered slots: a new request takes the lowest free one.
export class Net {
  // timeout(r): after how long the client gives a request up (its slot is free then)
  constructor(clock, timeout) {
    this.clock = clock;
    this.timeout = timeout;
    this.slots = new Map();
    this.sent = [];
    this.fetch = (url, init = {}) =>
      new Promise((resolve, reject) => {
        this.expire();
        let slot = 1;
        while (this.slots.has(slot)) slot++;
        const h = init.headers ?? {};
        const r = {
          slot, url: String(url), headers: h, resolve, reject,
          user: h['X-Amp-Exp-User'] ? unb64(h['X-Amp-Exp-User']) : undefined,
          keys: h['X-Amp-Exp-Flag-Keys'] ? unb64(h['X-Amp-Exp-Flag-Keys']) : undefined,
          track: h['X-Amp-Exp-Track'],
          kind: String(url).includes('/sdk/v2/flags') ? 'flags' : String(url).includes('vardata') ? 'vardata' : 'other',
        };
        r.deadline = clock ? clock.now + timeout(r) : Infinity;
        this.slots.set(slot, r);
        this.sent.push(r);
      });
  }
  expire() {
    if (this.clock) for (const [s, r] of this.slots) if (r.deadline <= this.clock.now + 1e-6) this.slots.delete(s);
  }
  take(slot) {
    const r = this.slots.get(slot);
    this.slots.delete(slot);
    return r;
  }
  forget(slot) {
    this.slots.delete(slot);
  }
  ok(slot, body) {
    this.take(slot)?.resolve({ status: 200, text: async () => JSON.stringify(body) });
  }
  status(slot, status) {
    this.take(slot)?.resolve({ status, text: async () => 'error' });
  }
  neterr(slot) {
    this.take(slot)?.reject(new TypeError('Failed to fetch'));
  }
  drainSent() {
    const s = this.sent;
    this.sent = [];
    return s;
  }
}
export { makeGlobal, drain, FakeStorage, VClock, CookieJar, compile, bundle };
