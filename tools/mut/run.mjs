// development only: node run.mjs cov | mut [file-regex]
import fs from 'node:fs'; import path from 'node:path';
import { Worker } from 'node:worker_threads';
const D = '/tmp/mut', REPO = process.env.VERIF_REPO ?? '/repo';
const sites = JSON.parse(fs.readFileSync(D + '/sites.json'));
const only = process.env.MUT_JOBS && new RegExp(process.env.MUT_JOBS); // second pass over survivors with these jobs
const jobs = fs.readdirSync(D + '/cache').filter((f) => f.endsWith('.json') && (!only || only.test(f))).map((f) => f.slice(0, -5));
const mk = (job, budgetMs) => new Worker(path.join(import.meta.dirname, 'worker.mjs'), { workerData: { file: `${D}/cache/${job}.json`, repo: REPO, budgetMs, sitesFile: D + '/sites.json' }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
const once = (w, msg, ms) => new Promise((res) => { const t = setTimeout(() => res(null), ms); const f = (m) => { clearTimeout(t); w.off('error', e); res(m); }; const e = () => { clearTimeout(t); res(null); }; w.once('message', f); w.once('error', e); if (msg) w.postMessage(msg); });
const mode = process.argv[2];
if (mode === 'cov') {
  const cov = {}; const q = [...jobs];
  await Promise.all(Array.from({ length: 8 }, async () => { for (let j; (j = q.shift());) { const w = mk(j, 0); await once(w, null, 300000); const r = await once(w, { cov: 1, ms: 25000 }, 120000); w.terminate(); cov[j] = r?.cov ?? []; console.log(j, cov[j].length, JSON.stringify(r?.r)); } }));
  fs.writeFileSync(D + '/cov.json', JSON.stringify(cov));
} else {
  const cov = JSON.parse(fs.readFileSync(D + '/cov.json'));
  const re = new RegExp(process.argv[3] ?? '.'); const budget = Number(process.argv[4] ?? 4000);
  const resF = D + '/res.json'; const res = fs.existsSync(resF) ? JSON.parse(fs.readFileSync(resF)) : {};
  const order = jobs.filter((j) => cov[j]?.length).sort((a, b) => cov[a].length - cov[b].length);
  const sets = Object.fromEntries(order.map((j) => [j, new Set(cov[j])]));
  const [from, to] = (process.env.MUT_LINES ?? '0-1e9').split('-').map(Number);
  const todo = sites.filter((s) => re.test(s.file) && s.line >= from && s.line <= to && (only ? !res[s.id]?.killed : !(s.id in res)));
  const plan = {}; for (const s of todo) { const js = order.filter((j) => sets[j].has(s.id) || (s.kind.startsWith('call ') && sites.some((z) => z.file === s.file && z.fn === s.fn && sets[j].has(z.id)))); for (const j of js) (plan[j] ??= []).push(s.id); if (!js.length && !only) res[s.id] = { uncovered: true }; }
  const tried = {};
  for (const j of order) {
    const q = (plan[j] ?? []).filter((id) => !res[id]?.killed && (tried[id] ?? 0) < (only ? 99 : 10));
    if (!q.length) continue;
    const t0 = Date.now(), n0 = q.length; let k = 0;
    await Promise.all(Array.from({ length: Math.min(8, q.length) }, async () => {
      let w = mk(j, budget); await once(w, null, 300000);
      for (let id; (id = q.shift()) !== undefined;) {
        tried[id] = (tried[id] ?? 0) + 1;
        const r = await once(w, { id }, budget * 3 + 30000);
        if (!r) { res[id] = { killed: j, how: 'hang' }; k++; w.terminate(); w = mk(j, budget); await once(w, null, 300000); continue; }
        if (r.r.failed) { res[id] = { killed: j, how: r.r.failed }; k++; } else { (res[id] ??= { survived: [] }).survived?.push(j); }
      }
      w.terminate();
    }));
    console.log(j, 'tried', n0, 'killed', k, ((Date.now() - t0) / 1000).toFixed(0) + 's');
    fs.writeFileSync(resF, JSON.stringify(res));
  }
  fs.writeFileSync(resF, JSON.stringify(res));
  const of = todo.map((s) => res[s.id] ?? {}); console.log('killed', of.filter((r) => r.killed).length, 'survived', of.filter((r) => r.survived && !r.killed).length, 'uncovered', of.filter((r) => r.uncovered).length);
}
