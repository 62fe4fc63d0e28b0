// Writes MANIFEST.json from properties.jsonl and harness/props.mjs
import fs from 'node:fs';
import { props } from '../harness/props.mjs';
const root = new URL('../', import.meta.url);
const all = fs.readFileSync(new URL('properties.jsonl', root), 'utf8').trim().split('\n').map((l) => JSON.parse(l));
const m = {
  version: 1,
  setup_cmd: 'node --version && java -version',
  checks: all.filter((p) => props[p.id]).map((p) => ({
    property: p.id,
    quick_cmd: `node check.mjs ${p.id} --tier quick`,
    thorough_cmd: `node check.mjs ${p.id} --tier thorough`,
    evidence_file: `evidence/${p.id}.json`,
    technique: props[p.id].technique ?? 'TLA+ specification checked with TLC; behaviours of the specification (every transition of the bounded state graph plus random deep behaviours) replayed into the real code with observations compared after every step',
    level: props[p.id].level ?? 'model_checking',
    level_note: props[p.id].note ?? 'Exhaustive within the constants given in DESIGN.md; conformance is by replay, so code paths outside the modelled actions are not covered.',
  })),
  not_applicable: all.filter((p) => !props[p.id]).map((p) => ({ property: p.id, reason: props._na?.[p.id] ?? 'Specification and conformance harness for this property are not built yet.' })),
  notes: 'Run from /verif. Each check bundles the sources of /repo/packages/*/src from the working tree with esbuild into memory; nothing is written to /repo.',
};
fs.writeFileSync(new URL('MANIFEST.json', root), JSON.stringify(m, null, 2) + '\n');
console.log(m.checks.length, 'claimed', m.not_applicable.length, 'not');
