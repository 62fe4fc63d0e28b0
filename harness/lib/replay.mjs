import { Worker } from 'node:worker_threads';
import fs from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { scratch } from './tlc.mjs';
const HERE = path.dirname(fileURLToPath(import.meta.url));
export async function replay(traces, adapter, { fields = null, options = {}, procs = 8, maxFail = 3 } = {}) {
  const dir = scratch('verif-rep-');
  const file = path.join(dir, 'traces.json');
  fs.writeFileSync(file, JSON.stringify(traces));
  const steps = traces.reduce((a, t) => a + t.length, 0);
  const shards = Math.max(1, Math.min(procs, Math.ceil(steps / 1500), traces.length));
  const rs = await Promise.all(
    Array.from({ length: shards }, (_, shard) =>
      new Promise((resolve, reject) => {
        const w = new Worker(path.join(HERE, 'replay-worker.mjs'), {
          workerData: { adapter: path.resolve(HERE, '../suites', adapter + '.mjs'), file, shard, shards, fields, options, maxFail },
        });
        let got = null;
        let at = -1;
        let timer = null;
        const arm = () => {
          clearTimeout(timer);
          timer = setTimeout(() => {
            got = { traces: 0, steps: 0, samples: [], failures: [{ actions: (traces[at] ?? []).map((x) => x.a), step: -1, expected: 'the code answers within 90 s', actual: 'no answer' }] };
            w.terminate();
          }, 90_000);
        };
        arm();
        w.on('message', (m) => {
          arm();
          if ('at' in m) { at = m.at; return; }
          got = m;
          w.terminate();
        });
        w.on('error', reject);
        w.on('exit', () => (clearTimeout(timer), got ? resolve(got) : reject(new Error('replay worker died'))));
      }),
    ),
  );
  fs.rmSync(dir, { recursive: true, force: true });
  return {
    traces: rs.reduce((a, r) => a + r.traces, 0),
    steps: rs.reduce((a, r) => a + r.steps, 0),
    failures: rs.flatMap((r) => r.failures),
    samples: rs.flatMap((r) => r.samples).slice(0, 3),
  };
}
