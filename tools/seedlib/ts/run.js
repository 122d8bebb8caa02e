const [repo, tmp] = process.argv.slice(2);
const path = require('path');
const esbuild = require('esbuild');
const stub = n => path.join(__dirname, 'stubs.js');
const plugin = { name: 'stubs', setup(b) {
  b.onResolve({ filter: /^[^./]/ }, a => {
    if (a.path === '@stargazezone/marketplace-types') return { path: path.join(repo, 'typescript/packages/marketplace-types/src/index.ts') };
    if (a.kind === 'entry-point' || a.path === 'stand-ins' || path.isAbsolute(a.path)) return null;
    return { path: stub(a.path) };
  });
} };
const entry = p => path.join(repo, 'typescript/packages', p);
async function load(p) {
  const out = path.join(tmp, p.replace(/\W/g, '_') + '.js');
  await esbuild.build({ entryPoints: [entry(p)], bundle: true, platform: 'node', format: 'cjs', outfile: out, plugins: [plugin], logLevel: 'error' });
  return require(out);
}
// the problems the type checker has with a program that uses the package
function types(text) {
  const ts = require('typescript'), fs = require('fs');
  const f = path.join(tmp, 'use.ts');
  fs.writeFileSync(f, text.replace(/PACKAGE/g, entry('marketplace-types/src')));
  const p = ts.createProgram([f], { strict: true, noEmit: true, types: [], target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.Node10 });
  return ts.getPreEmitDiagnostics(p).filter(d => d.file && d.file.fileName === f && ![2307, 5107].includes(d.code)).map(d => ts.flattenDiagnosticMessageText(d.messageText, ' '));
}
require('./demo.js')({ load, types, assert: require('assert'), state: global.__standins = { useQuery: [], conf: {}, log: [] } })
  .then(() => console.log('ok'), e => { console.error(e && e.stack || e); process.exit(1) });
