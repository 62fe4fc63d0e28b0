// Bundles the real sources from /repo's working tree (never a prebuilt dist).
import { createRequire } from 'node:module';
import fs from 'node:fs';
import path from 'node:path';
const require = createRequire('/opt/veriftools/node/node_modules/');
const esbuild = require('esbuild');
export const REPO = process.env.VERIF_REPO ?? '/repo';
const P = (p) => path.join(REPO, 'packages', p);
const alias = {
  '@amplitude/analytics-connector': P('analytics-connector/src/index.ts'),
  '@amplitude/experiment-core': P('experiment-core/src/index.ts'),
  '@amplitude/experiment-js-client': P('experiment-browser/src/index.ts'),
  '@amplitude/experiment-plugin-segment': P('plugin-segment/src/index.ts'),
};
const cache = new Map();
export async function bundle(entrySource, { stubs = {}, key } = {}) {
  const edit = globalThis.__edit; // development only: tools/mut
  const k = (edit ? edit.id + ':' : '') + (key ?? entrySource);
  if (!edit && cache.has(k)) return cache.get(k);
  const r = await esbuild.build({
    stdin: { contents: entrySource, resolveDir: P('experiment-tag'), loader: 'ts', sourcefile: 'entry.ts' },
    bundle: true,
    write: false,
    format: 'iife',
    globalName: '__M',
    platform: 'browser',
    target: 'es2020',
    logLevel: 'silent',
    define: { 'process.env.NODE_ENV': '"production"' },
    tsconfigRaw: { compilerOptions: { useDefineForClassFields: false, experimentalDecorators: true } },
    plugins: [
      {
        name: 'verif-alias',
        setup(b) {
          b.onResolve({ filter: /.*/ }, (a) => {
            if (a.path in stubs) return { path: a.path, namespace: 'stub' };
            if (a.path in alias) return { path: alias[a.path] };
            if (a.path.startsWith('/') || a.path.startsWith('.')) return undefined;
            return undefined;
          });
          if (edit) b.onLoad({ filter: /\/packages\/[^/]+\/src\/.*\.ts$/ }, (a) => ({ contents: edit.of(a.path, fs.readFileSync(a.path, 'utf8')), loader: 'ts' }));
          b.onLoad({ filter: /.*/, namespace: 'stub' }, (a) => ({ contents: stubs[a.path], loader: 'js', resolveDir: REPO }));
        },
      },
    ],
  });
  const code = r.outputFiles[0].text;
  if (!edit) cache.set(k, code);
  return code;
}
export const pkg = P;
