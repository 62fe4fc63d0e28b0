import { sites } from './sites.mjs';
import fs from 'node:fs'; import path from 'node:path';
const REPO = process.env.VERIF_REPO ?? '/repo';
const skip = /types\.ts$|types\/|\/index\.ts$|logger|debug-recorder|snippet|global\.ts$|shell\.ts|opener-severed|loading-indicator/;
const walk = (d) => fs.readdirSync(d, { withFileTypes: true }).flatMap((e) => (e.isDirectory() ? walk(path.join(d, e.name)) : [path.join(d, e.name)]));
const all = [];
for (const p of ['analytics-connector', 'experiment-core', 'experiment-browser', 'experiment-tag', 'plugin-segment']) for (const f of walk(path.join(REPO, 'packages', p, 'src'))) {
  const rel = path.relative(path.join(REPO, 'packages'), f);
  if (!f.endsWith('.ts') || (skip.test(rel) && rel !== 'experiment-tag/src/index.ts')) continue;
  for (const m of sites(f).out) all.push({ id: all.length, file: rel, ...m });
}
fs.mkdirSync('/tmp/mut', { recursive: true });
fs.writeFileSync('/tmp/mut/sites.json', JSON.stringify(all));
const by = {}; for (const m of all) by[m.file] = (by[m.file] ?? 0) + 1;
console.log(all.length, by);
