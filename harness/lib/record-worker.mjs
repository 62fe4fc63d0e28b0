import { workerData, parentPort } from 'node:worker_threads';
const mod = await import(workerData.module);
try {
  const traces = await mod.record(workerData.options);
  parentPort.postMessage({ traces, stats: traces.stats });
} catch (e) {
  parentPort.postMessage({ error: e?.stack ?? String(e) });
}
process.exit(0);
