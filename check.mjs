#!/usr/bin/env node
// usage: node check.mjs <PROPERTY> [--tier quick|thorough] [--seed N]
//        node check.mjs --replay <file>
import fs from 'node:fs';
import path from 'node:path';
import crypto from 'node:crypto';
import { Worker } from 'node:worker_threads';
import { fileURLToPath } from 'node:url';
import { runTLC, scratch } from './harness/lib/tlc.mjs';
import { buildGraph, coverWalks, wanderWalks } from './harness/lib/walks.mjs';
import { replay } from './harness/lib/replay.mjs';
import { props } from './harness/props.mjs';

const HERE = path.dirname(fileURLToPath(import.meta.url));
const argv = process.argv.slice(2);
const opt = (n, d) => {
  const i = argv.indexOf('--' + n);
  return i >= 0 ? argv[i + 1] : d;
};

if (opt('replay')) {
  const r = JSON.parse(fs.readFileSync(opt('replay'), 'utf8'));
  if (r.adapter) {
    const mod = await import(path.join(HERE, 'harness/suites', r.adapter + '.mjs'));
    const sys = await mod.prepare(r.options ?? {});
    const inst = await sys.create();
    for (const a of r.actions) {
      const o = await inst.step(a);
      console.log(JSON.stringify(a), '\n   ->', JSON.stringify(o));
    }
    console.log('expected at last step:', JSON.stringify(r.expected));
  } else console.log(JSON.stringify(r, null, 1));
  process.exit(0);
}

const id = argv.find((a) => /^[A-Z]\d{2,3}$/.test(a));
const tier = opt('tier', process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick');
const seed = Number(opt('seed', process.env.VERIF_SEED ?? '1')) || 1;
const only = opt('job');
if (!id || !props[id]) {
  console.error('unknown property', id);
  process.exit(2);
}
const t0 = Date.now();
const P = props[id];
const cov = { states: 0, transitions: 0, traces_validated_against_impl: 0, impl_steps: 0, samples: [], jobs: [] };
const violations = [];
let broken = null;

function report(job, f) {
  const dir = path.join(HERE, 'replays');
  fs.mkdirSync(dir, { recursive: true });
  const h = crypto.createHash('sha1').update(JSON.stringify([job.name, f])).digest('hex').slice(0, 10);
  const file = path.join(dir, `${id}-${h}.json`);
  fs.writeFileSync(file, JSON.stringify({ property: id, job: job.name, adapter: job.adapter, options: job.options, fields: job.fields, ...f }, null, 1));
  violations.push({ job: job.name, file, f });
}

// recording runs in a thread of its own, so that code that never returns is noticed
function recordTraces(job) {
  return new Promise((resolve, reject) => {
    const w = new Worker(path.join(HERE, 'harness/lib/record-worker.mjs'), {
      workerData: { module: path.join(HERE, 'harness/suites', job.driver + '.mjs'), options: { seed, tier, ...(job.options ?? {}) } },
      resourceLimits: { maxOldGenerationSizeMb: 6000 },
    });
    const t = setTimeout(() => { resolve(null); w.terminate(); }, (job.recordS ?? (tier === 'quick' ? 180 : 400)) * 1000);
    w.on('message', (m) => {
      clearTimeout(t);
      if (m.error) reject(new Error(m.error));
      else resolve(Object.assign(m.traces, { stats: m.stats }));
    });
    w.on('error', (e) => { clearTimeout(t); reject(e); });
  });
}

// development only: keeps the behaviours for tools/mut, replaying nothing
function dump(job, traces) {
  if (!process.env.VERIF_DUMP) return false;
  fs.writeFileSync(path.join(process.env.VERIF_DUMP, `${job.name}.json`), JSON.stringify({ job: { name: job.name, adapter: job.adapter, fields: job.fields ?? null, options: job.options ?? {} }, traces }));
  return true;
}

async function runJob(job) {
  if (process.env.VERIF_DUMP && (job.kind === 'model' || job.kind === 'trace')) return;
  const s = { job: job.name, kind: job.kind };
  const j0 = Date.now();
  const tlcOpts = { seed, timeoutS: tier === 'quick' ? 600 : 840, ...job };
  if (job.kind === 'model') {
    const r = await runTLC({ ...tlcOpts, mode: 'check' });
    s.states = r.states;
    s.transitions = r.transitions;
    cov.states += r.states;
    cov.transitions += r.transitions;
    if (!r.ok) throw new Error(`specification check ${job.name} failed: ${r.violated}\n${r.out.slice(-60).join('\n')}`);
  } else if (job.kind === 'edges') {
    const r = await runTLC({ ...tlcOpts, mode: 'edges' });
    if (!r.ok || !r.inits.length) throw new Error(`specification run ${job.name} failed: ${r.violated}\n${r.out.slice(-60).join('\n')}`);
    const g = buildGraph(r.inits, r.edges);
    const { walks, coveredEdges } = coverWalks(g, { maxLen: job.maxLen ?? 60, seed });
    if (coveredEdges !== g.E.length) throw new Error(`walks cover ${coveredEdges} of ${g.E.length} transitions in ${job.name}`);
    const total = walks.reduce((n, w) => n + w.length, 0);
    const extra = wanderWalks(g, { steps: tier === 'thorough' ? Math.min(total, 100000) : Math.min(Math.max(200, total / 4), 8000), maxLen: job.maxLen ?? 60, seed });
    walks.push(...extra);
    const acts = {};
    for (const e of g.E) acts[e.a.n] = (acts[e.a.n] ?? 0) + 1;
    if (dump(job, walks)) return;
    const rep = await replay(walks, job.adapter, { fields: job.fields, options: job.options, procs: job.procs });
    Object.assign(s, { states: r.states, transitions: r.transitions, graph_edges: g.E.length, per_action: acts, walks: rep.traces, of_them_random: extra.length, impl_steps: rep.steps });
    cov.states += r.states;
    cov.transitions += r.transitions;
    cov.traces_validated_against_impl += rep.traces;
    cov.impl_steps += rep.steps;
    cov.samples.push(...rep.samples.slice(0, 1).map((x) => ({ job: job.name, actions: x })));
    rep.failures.forEach((f) => report(job, f));
  } else if (job.kind === 'sim') {
    const r = await runTLC({ ...tlcOpts, mode: 'sim' });
    if (!r.hists.length || r.violated || r.timedOut) throw new Error(`simulation ${job.name} failed: ${r.violated}\n${r.out.slice(-60).join('\n')}`);
    const distinct = [...new Map(r.hists.map((h) => [JSON.stringify(h), h])).values()];
    const acts = {};
    for (const h of distinct) for (const e of h) acts[e.a.n] = (acts[e.a.n] ?? 0) + 1;
    if (dump(job, distinct)) return;
    const rep = await replay(distinct, job.adapter, { fields: job.fields, options: job.options, procs: job.procs });
    Object.assign(s, { simulated: distinct.length, per_action: acts, walks: rep.traces, impl_steps: rep.steps });
    cov.traces_validated_against_impl += rep.traces;
    cov.impl_steps += rep.steps;
    cov.samples.push(...rep.samples.slice(0, 1).map((x) => ({ job: job.name, actions: x })));
    rep.failures.forEach((f) => report(job, f));
  } else if (job.kind === 'trace') {
    const traces = await recordTraces(job);
    if (!traces) return report(job, { actual: 'the recorded calls did not come to an end', expected: 'every call returns' });
    const dir = scratch('verif-tr-');
    const chunks = Math.max(1, Math.min(job.chunks ?? 8, traces.length));
    const per = Math.ceil(traces.length / chunks);
    await Promise.all(
      Array.from({ length: chunks }, async (_, c) => {
        const part = traces.slice(c * per, (c + 1) * per);
        if (!part.length) return;
        const file = path.join(dir, `t${c}.json`);
        fs.writeFileSync(file, JSON.stringify(part.map((t) => t.events)));
        const mism = [];
        let end = 0;
        const r = await runTLC({
          ...tlcOpts, mode: 'trace', heap: job.heap ?? '2g', env: { TRACE: file },
          onLine: (l) => {
            if (l.startsWith('"M[')) { mism.push(JSON.parse(JSON.parse(l).slice(1))); return true; }
            if (l.startsWith('"D[')) { end += 1; return true; }
            return false;
          },
        });
        cov.states += r.states;
        cov.transitions += r.transitions;
        s.states = (s.states ?? 0) + r.states;
        for (const m of mism.slice(0, 3)) report(job, { recorded: part[m[0] - 1], event: m[1], expected: m[2], actual: m[3] });
        if (!mism.length && (!r.ok || end !== part.length)) {
          throw new Error(`trace validation ${job.name}: ${end}/${part.length} traces finished, code ${r.code}\n${r.out.slice(-60).join('\n')}`);
        }
        cov.traces_validated_against_impl += part.length;
        cov.impl_steps += part.reduce((a, t) => a + t.events.length, 0);
      }),
    );
    s.traces = traces.length;
    s.events = traces.reduce((a, t) => a + t.events.length, 0);
    if (traces.stats) s.stats = traces.stats;
    cov.samples.push({ job: job.name, trace: traces[0]?.sample ?? traces[0]?.events?.slice(0, 3) });
  } else throw new Error('unknown job kind ' + job.kind);
  s.wall_s = Math.round((Date.now() - j0) / 100) / 10;
  cov.jobs.push(s);
  if (process.env.VERIF_VERBOSE) console.error(JSON.stringify(s));
}

const queue = P.jobs(tier, seed).filter((j) => !only || j.name === only);
await Promise.all(
  Array.from({ length: P.parallel ?? 3 }, async () => {
    for (let job; (job = queue.shift()) && !violations.length && !broken; ) {
      try {
        await runJob(job);
      } catch (e) {
        broken = `${job.name}: ${e?.stack ?? e}`;
      }
    }
  }),
);

const known = fs.existsSync(path.join(HERE, 'known-findings.txt'))
  ? fs.readFileSync(path.join(HERE, 'known-findings.txt'), 'utf8').split('\n').filter((l) => l.startsWith(`known: property=${id} `))
  : [];
for (const k of known) console.log(`KNOWN-FINDING: ${k.slice('known: '.length)}`);

fs.mkdirSync(process.env.VERIF_EVIDENCE ?? path.join(HERE, 'evidence'), { recursive: true });
fs.writeFileSync(
  path.join(process.env.VERIF_EVIDENCE ?? path.join(HERE, 'evidence'), id + '.json'),
  JSON.stringify(
    {
      property: id, tier, seed, level: P.level ?? 'model_checking', coverage: cov,
      assumptions: P.assumptions ?? [], wall_s: (Date.now() - t0) / 1000,
      violations: violations.map((v) => ({ job: v.job, replay: v.file })),
    }, null, 1,
  ),
);
if (violations.length) {
  for (const v of violations.slice(0, 5)) {
    console.log(`job ${v.job}: expected ${JSON.stringify(v.f.expected)?.slice(0, 1500)}`);
    console.log(`job ${v.job}: actual   ${JSON.stringify(v.f.actual)?.slice(0, 1500)}`);
    if (v.f.actions) console.log(`  after ${v.f.actions.length} actions, last ${JSON.stringify(v.f.actions.at(-1))}`);
    console.log(`VIOLATION property=${id} replay=${v.file}`);
  }
  process.exit(1);
}
if (broken) {
  console.error('CHECK BROKEN', broken);
  process.exit(2);
}
console.log(`property ${id} held: ${cov.states} states, ${cov.transitions} transitions, ${cov.traces_validated_against_impl} traces (${cov.impl_steps} steps) against the code in ${((Date.now() - t0) / 1000).toFixed(1)}s`);
