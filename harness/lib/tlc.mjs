// Runs TLC on a generated wrapper around a specification module.
import { spawn } from 'node:child_process';
import fs from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import readline from 'node:readline';
import { fileURLToPath } from 'node:url';

const SPEC = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '../../spec');
const JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar';

const dirs = new Set();
process.on('exit', () => { for (const d of dirs) fs.rmSync(d, { recursive: true, force: true }); });
export function scratch(prefix = 'verif-') {
  const d = fs.mkdtempSync(path.join(os.tmpdir(), prefix));
  dirs.add(d);
  return d;
}

const tla = (v) => {
  if (typeof v === 'string') return v.startsWith('=') ? v.slice(1) : JSON.stringify(v);
  if (typeof v === 'number') return v < 0 ? `(0 - ${-v})` : String(v);
  if (typeof v === 'boolean') return v ? 'TRUE' : 'FALSE';
  if (Array.isArray(v)) return `<<${v.map(tla).join(', ')}>>`;
  if (v instanceof Set) return `{${[...v].map(tla).join(', ')}}`;
  return `[${Object.entries(v).map(([k, x]) => `${k} |-> ${tla(x)}`).join(', ')}]`;
};

// mode: 'edges'  exhaustive BFS, prints every transition of the VIEW graph
//       'check'  exhaustive BFS, parallel, invariants/properties only
//       'sim'    random behaviours, printed as complete histories
//       'trace'  run as given (trace validation); env TRACE names the data file
// A worker thread of TLC that dies leaves TLC waiting for ever: that, like any
// other silence, is noticed and the run repeated.
export async function runTLC(o) {
  for (let i = 0; ; i++) {
    const r = await runOnce(o);
    if (!r.stalled || i === 2) return r;
  }
}
async function runOnce(o) {
  const {
    spec, mode, constants = {}, invariants = [], properties = [], actionConstraints = [], constraints = [],
    depth = 20, num = 100, seed = 1, timeoutS = 600, workers, env = {}, extra = '', onLine, init = 'Init', next = 'Next', postcondition, heap,
  } = o;
  const dir = scratch('verif-tlc-');
  try {
  const defs = [];
  const cfgConst = [];
  for (const [k, v] of Object.entries(constants)) {
    // TLC keeps the value of raw_ (a definition), and would work out a replacement's body at every use
    defs.push(`raw_${k} == ${tla(v)}\nconst_${k} == raw_${k}`);
    cfgConst.push(`  ${k} <- const_${k}`);
  }
  let body = `---- MODULE MC ----\nEXTENDS ${spec}, TLC, Json\n${defs.join('\n')}\n${extra}\n`;
  let cfg = cfgConst.length ? `CONSTANTS\n${cfgConst.join('\n')}\n` : '';
  cfg += 'CHECK_DEADLOCK FALSE\n';
  const args = [];
  if (mode === 'edges') {
    body += `EdgeOut == PrintT("E" \\o ToJson(<<view, act', obs', view'>>))\n`;
    body += `InitOut == (TLCGet("level") = 1) => PrintT("I" \\o ToJson(<<act, obs, view>>))\n`;
    cfg += `INIT ${init}\nNEXT ${next}\nVIEW view\nACTION_CONSTRAINT EdgeOut\nCONSTRAINT InitOut\n`;
    args.push('-workers', '1');
  } else if (mode === 'check') {
    if (o.specification) cfg += `SPECIFICATION ${o.specification}\n`;
    else cfg += `INIT ${init}\nNEXT ${next}\n`;
    if (!o.noView) cfg += 'VIEW view\n';
    args.push('-workers', String(workers ?? 8));
  } else if (mode === 'sim') {
    body += `VARIABLE hist\nSimInit == ${init} /\\ hist = <<[a |-> act, o |-> obs]>>\n`;
    body += `SimNext == IF Len(hist) < ${depth}\n  THEN ${next} /\\ hist' = Append(hist, [a |-> act', o |-> obs'])\n`;
    body += `  ELSE PrintT("H" \\o ToJson(hist)) /\\ hist' = <<>> /\\ UNCHANGED vars\n`;
    body += `SimPick(S) == IF S = {} THEN {} ELSE {RandomElement(S)}\n`;
    if (o.pick) cfg = cfg.startsWith('CONSTANTS') ? cfg.replace('CONSTANTS\n', 'CONSTANTS\n  Pick <- SimPick\n') : `CONSTANTS\n  Pick <- SimPick\n${cfg}`;
    cfg += `INIT SimInit\nNEXT SimNext\n`;
    args.push('-simulate', `num=${num}`, '-depth', String(depth + 1), '-seed', String(seed), '-workers', String(workers ?? 1));
  } else if (mode === 'trace') {
    cfg += o.specification ? `SPECIFICATION ${o.specification}\n` : `INIT ${init}\nNEXT ${next}\n`;
    args.push('-workers', String(workers ?? 1));
  }
  body += '====\n';
  for (const i of invariants) cfg += `INVARIANT ${i}\n`;
  for (const p of properties) cfg += `PROPERTY ${p}\n`;
  for (const c of constraints) cfg += `CONSTRAINT ${c}\n`;
  for (const c of actionConstraints) cfg += `ACTION_CONSTRAINT ${c}\n`;
  if (postcondition) cfg += `POSTCONDITION ${postcondition}\n`;
  fs.writeFileSync(path.join(dir, 'MC.tla'), body);
  fs.writeFileSync(path.join(dir, 'MC.cfg'), cfg);
  if (process.env.VERIF_KEEP) { fs.mkdirSync(process.env.VERIF_KEEP, { recursive: true }); fs.copyFileSync(path.join(dir, 'MC.tla'), path.join(process.env.VERIF_KEEP, 'MC.tla')); fs.copyFileSync(path.join(dir, 'MC.cfg'), path.join(process.env.VERIF_KEEP, 'MC.cfg')); }
  const jargs = [
    `-Xmx${heap ?? '6g'}`, '-Xss128m', '-XX:+UseParallelGC', `-DTLA-Library=${SPEC}`, `-Djava.io.tmpdir=${dir}`, '-cp', JAR, 'tlc2.TLC', '-noGenerateSpecTE', '-metadir', path.join(dir, 'meta'),
    '-config', 'MC.cfg', ...args, 'MC.tla',
  ];
  const t0 = Date.now();
  const p = spawn('java', jargs, { cwd: dir, env: { ...process.env, ...env }, stdio: ['ignore', 'pipe', 'pipe'] });
  const res = { inits: [], edges: [], hists: [], out: [], states: 0, transitions: 0, ok: false, violated: null };
  let timedOut = false;
  const timer = setTimeout(() => { timedOut = true; p.kill('SIGKILL'); }, timeoutS * 1000);
  const rl = readline.createInterface({ input: p.stdout, crlfDelay: Infinity });
  let last = Date.now(), stalled = false;
  const watch = setInterval(() => { if (Date.now() - last > (mode === 'sim' ? 100_000 : timeoutS * 1000)) { stalled = true; p.kill('SIGKILL'); } }, 5000);
  p.stdout.on('data', () => { last = Date.now(); });
  p.stderr.on('data', (d) => { if (/^Exception in thread/m.test(String(d))) { stalled = true; p.kill('SIGKILL'); }
    if (res.out.length < 4000) res.out.push(String(d)); });
  const done = new Promise((r) => p.on('close', r));
  for await (const line of rl) {
    if (line.startsWith('"E[')) { res.edges.push(JSON.parse(JSON.parse(line).slice(1))); continue; }
    if (line.startsWith('"I[')) { res.inits.push(JSON.parse(JSON.parse(line).slice(1))); continue; }
    if (line.startsWith('"H[')) { res.hists.push(JSON.parse(JSON.parse(line).slice(1))); continue; }
    if (onLine && onLine(line)) continue;
    let m;
    if ((m = line.match(/^([\d,]+) states generated, ([\d,]+) distinct states found/))) {
      res.transitions = Number(m[1].replace(/,/g, '')); res.states = Number(m[2].replace(/,/g, ''));
    } else if ((m = line.match(/The number of states generated: ([\d,]+)/))) {
      res.transitions = Number(m[1].replace(/,/g, ''));
    } else if ((m = line.match(/Invariant (\S+) is violated/)) || (m = line.match(/Action property (\S+) .*violated/)) || (m = line.match(/(Temporal properties) were violated/)) || (m = line.match(/(Postcondition \S+) .*(false|violated)/i))) {
      res.violated = res.violated ?? m[1];
    }
    if (res.out.length < 4000) res.out.push(line);
  }
  const code = await done;
  clearTimeout(timer); clearInterval(watch);
  res.stalled = stalled;
  res.code = code;
  res.timedOut = timedOut || stalled;
  res.wallS = (Date.now() - t0) / 1000;
  res.ok = code === 0 && !timedOut;
  return res;
  } finally { fs.rmSync(dir, { recursive: true, force: true }); }
}
