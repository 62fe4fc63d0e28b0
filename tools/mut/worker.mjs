// one worker: replays a job's behaviours against edited sources, one edit at a time
import { parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs'; import path from 'node:path';
import { agrees } from '../../harness/lib/compare.mjs';
const { file, repo, budgetMs, sitesFile } = workerData;
const { job, traces = [] } = JSON.parse(fs.readFileSync(file, 'utf8'));
const sites = JSON.parse(fs.readFileSync(sitesFile, 'utf8'));
process.on('unhandledRejection', () => {});
process.on('uncaughtException', () => {});
const mod = await import(path.resolve(import.meta.dirname, '../../harness/suites', (job.adapter ?? job.driver) + '.mjs'));
// shuffle
let x = 12345; const rnd = () => ((x = (x * 1103515245 + 12345) & 0x7fffffff) / 0x7fffffff);
for (let i = traces.length - 1; i > 0; i--) { const j = Math.floor(rnd() * (i + 1)); [traces[i], traces[j]] = [traces[j], traces[i]]; }
const rel = (p) => path.relative(path.join(repo, 'packages'), p);
let clean = null;
async function run(ms) {
  const t0 = Date.now();
  let steps = 0, n = 0;
  if (job.kind === 'trace') {
    try { const tr = await mod.record({ seed: 1, tier: 'quick', ...job.options }); const h = JSON.stringify(tr); clean ??= h; return { failed: h === clean ? null : 'recording differs', n: 1, all: true, ms: Date.now() - t0 }; } catch (e) { return { failed: 'record ' + String(e).slice(0, 200) }; }
  }
  let sys;
  try { sys = await mod.prepare(job.options ?? {}); } catch (e) { return { failed: 'prepare ' + String(e).slice(0, 200), steps, n }; }
  for (const tr of traces) {
    if (Date.now() - t0 > ms) break;
    n++;
    let inst;
    try { inst = await sys.create(); } catch (e) { return { failed: 'create ' + e, steps, n }; }
    for (const st of tr) {
      let got; steps++;
      try { got = await inst.step(st.a, st.o); } catch (e) { return { failed: 'exception ' + String(e).slice(0, 200), steps, n }; }
      const f = typeof job.fields === 'object' && job.fields !== null && !Array.isArray(job.fields) ? job.fields[st.a.n] ?? null : job.fields;
      if (got?.harness_exception || !agrees(st.o, got, f)) return { failed: 'differs at ' + JSON.stringify(st.a).slice(0, 150), steps, n };
    }
    if (inst.close) await inst.close();
  }
  return { failed: null, steps, n, all: n === traces.length, ms: Date.now() - t0 };
}
parentPort.on('message', async (m) => {
  if (m.cov) {
    const ids = new Set(); Object.__cov = (i) => { ids.add(i); };
    const by = {}; for (const s of sites) (by[s.file] ??= []).push(s);
    globalThis.__edit = { id: 'cov', of: (p, src) => {
      const l = by[rel(p)]; if (!l) return src;
      const ins = [];
      l.forEach((s) => {
        if (s.stmt) ins.push({ at: s.start, o: -1e9, s: `Object.__cov(${s.id});` });
        else if (s.kind.startsWith('call ')) return;
        else { ins.push({ at: s.start, o: -(s.end - s.start), s: `(Object.__cov(${s.id}),` }); ins.push({ at: s.end, o: 1e6 - (s.end - s.start) * -1 , close: true, s: ')' }); }
      });
      // at one position: closes first (inner ones first), then opens (outer first)
      ins.sort((a, b) => a.at - b.at || (a.close ? 0 : 1) - (b.close ? 0 : 1) || a.o - b.o);
      let out = '', at = 0;
      for (const i of ins) { out += src.slice(at, i.at) + i.s; at = i.at; }
      return out + src.slice(at);
    } };
    const r = await run(m.ms ?? budgetMs);
    globalThis.__edit = undefined;
    parentPort.postMessage({ cov: [...ids], r });
    return;
  }
  const s = sites[m.id];
  globalThis.__edit = { id: 'm' + m.id, of: (p, src) => (rel(p) === s.file ? src.slice(0, s.start) + s.text + src.slice(s.end) : src) };
  const r = await run(m.ms ?? budgetMs);
  globalThis.__edit = undefined;
  parentPort.postMessage({ id: m.id, r });
});
if (job.kind === 'trace') await run(1e9);
parentPort.postMessage({ ready: true });
