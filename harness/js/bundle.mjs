// bundles the TypeScript client of the repository with the stand-in for its web assembly module: node bundle.mjs REPO OUT
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
const require = createRequire('/opt/veriftools/node/package.json');
const esbuild = require('esbuild');
const here = path.dirname(fileURLToPath(import.meta.url));
const [repo, out, entry] = process.argv.slice(2);
await esbuild.build({
  stdin: { contents: `export * from ${JSON.stringify(path.join(repo, 'bindings/emscripten/src/index.ts'))}; export { default } from ${JSON.stringify(path.join(repo, 'bindings/emscripten/src/index.ts'))};
    export { SubscriptionManager } from ${JSON.stringify(path.join(repo, 'bindings/emscripten/src/subscriptionManager.ts'))}; export { EventEmitter } from ${JSON.stringify(path.join(repo, 'bindings/emscripten/src/eventEmitter.ts'))};
    export * as stub from ${JSON.stringify(path.join(here, 'c4w_stub.mjs'))};`, resolveDir: here, loader: 'ts' },
  bundle: true, format: 'esm', platform: 'node', target: 'node22', outfile: out, logLevel: 'error',
  tsconfigRaw: '{}',
  plugins: [{ name: 'stub', setup(b) { b.onResolve({ filter: /c4w\.js$/ }, () => ({ path: path.join(here, 'c4w_stub.mjs') })); b.onResolve({ filter: /^\.\/.*\.js$/ }, a => a.importer.endsWith('.ts') ? { path: path.join(a.resolveDir, a.path.replace(/\.js$/, '.ts')) } : undefined); } }],
});
