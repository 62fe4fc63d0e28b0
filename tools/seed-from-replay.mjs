// node seed-from-replay.mjs DIR REPLAY.json: a self-contained demonstration out of a recorded failure
import fs from 'node:fs'; import path from 'node:path';
const [dir, file] = process.argv.slice(2);
const H = path.resolve(import.meta.dirname, '../harness');
const r = JSON.parse(fs.readFileSync(file));
const done = new Set();
function copy(p) {
  const name = path.basename(p);
  if (done.has(name)) return;
  done.add(name);
  let s = fs.readFileSync(p, 'utf8').replace(/from '(\.[^']+\.mjs)'/g, (_, q) => { const t = path.resolve(path.dirname(p), q); copy(t); return `from './${path.basename(t)}'`; });
  if (name === 'bundle.mjs') s = s.replace("process.env.VERIF_REPO ?? '/repo'", 'process.cwd()');
  fs.writeFileSync(path.join(dir, name), s);
}
for (const f of fs.readdirSync(dir)) if (f.endsWith('.mjs') || f === 'scenario.json' || f === 'demo.sh') fs.rmSync(path.join(dir, f));
copy(path.join(H, 'suites', r.adapter + '.mjs'));
copy(path.join(H, 'lib/compare.mjs'));
fs.writeFileSync(path.join(dir, 'scenario.json'), JSON.stringify({ options: r.options ?? {}, actions: r.actions, expected: r.expected, fields: r.fields ?? null }));
fs.writeFileSync(path.join(dir, 'demo.mjs'), `// goes through one history against the code in the current directory
import fs from 'node:fs';
import { prepare } from './${r.adapter}.mjs';
import { agrees } from './compare.mjs';
process.on('unhandledRejection', () => {});
const { options, actions, expected, fields } = JSON.parse(fs.readFileSync(new URL('./scenario.json', import.meta.url)));
const it = await (await prepare(options)).create();
let got;
for (const [i, a] of actions.entries()) got = await it.step(a, i === actions.length - 1 ? expected : null);
const last = actions.at(-1);
const only = fields && !Array.isArray(fields) && typeof fields === 'object' ? fields[last.n] ?? null : fields;
const ok = agrees(expected, got, only);
console.log(ok ? 'as it should be' : 'FAIL after ' + JSON.stringify(last) + ': ' + JSON.stringify(got) + ' instead of ' + JSON.stringify(expected));
process.exit(ok ? 0 : 1);
`);
fs.writeFileSync(path.join(dir, 'demo.sh'), '#!/bin/bash\nexec timeout 120 node "$(dirname "$0")/demo.mjs"\n', { mode: 0o755 });
