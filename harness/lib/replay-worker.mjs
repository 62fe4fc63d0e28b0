import { parentPort, workerData } from 'node:worker_threads';
import fs from 'node:fs';
import { agrees } from './compare.mjs';

const { adapter, file, shard, shards, fields, options, maxFail } = workerData;
const mod = await import(adapter);
const sys = await mod.prepare(options ?? {});
const traces = JSON.parse(fs.readFileSync(file, 'utf8'));
const res = { traces: 0, steps: 0, failures: [], samples: [] };
process.on('unhandledRejection', () => {});
for (let i = shard; i < traces.length; i += shards) {
  const tr = traces[i];
  parentPort.postMessage({ at: i });
  let inst;
  try {
    inst = await sys.create();
  } catch (e) {
    res.failures.push({ actions: [], step: -1, expected: tr[0].o, actual: { harness_exception: String((e && e.stack) || e) } });
    break;
  }
  const log = [];
  let failed = false;
  for (let j = 0; j < tr.length; j++) {
    let got;
    try {
      got = await inst.step(tr[j].a, tr[j].o);
    } catch (e) {
      got = { harness_exception: String((e && e.stack) || e) };
    }
    res.steps++;
    log.push(tr[j].a);
    const exp = tr[j].o;
    const f = typeof fields === 'object' && fields !== null && !Array.isArray(fields) ? fields[tr[j].a.n] ?? null : fields;
    if (got?.harness_exception || !agrees(exp, got, f)) {
      res.failures.push({ actions: log, step: j, expected: exp, actual: got });
      failed = true;
      break;
    }
  }
  if (inst.close) await inst.close();
  res.traces++;
  if (res.samples.length < 1 && !failed) res.samples.push(tr.slice(0, 12).map((s) => s.a));
  if (res.failures.length >= (maxFail ?? 3)) break;
}
parentPort.postMessage(res);
