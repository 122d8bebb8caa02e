// bundles a command of the tool with stand-ins for the packages it imports (nothing is stored, asked or sent for real) and runs it
const [repo, tmp] = process.argv.slice(2);
const path = require('path');
const esbuild = require('esbuild');
const plugin = { name: 'stubs', setup(b) {
  b.onResolve({ filter: /^[^./]/ }, a => {
    if (a.path === '@stargazezone/marketplace-types') return { path: path.join(repo, 'typescript/packages/marketplace-types/src/index.ts') };
    if (a.kind === 'entry-point' || path.isAbsolute(a.path)) return null;
    return { path: path.join(__dirname, { conf: 'conf.js', lodash: 'lodash.js' }[a.path] || 'stubs.js') };
  });
} };
const state = global.__standins = { conf: {}, log: [], asked: [], connected: [], txs: [], balances: {}, answer: () => ({}) };
console.log = (...a) => state.log.push(a.join(' '));
async function run(command, args = {}, flags = {}) {
  const out = path.join(tmp, command.replace(/\W/g, '_') + '.js');
  await esbuild.build({ entryPoints: [path.join(repo, 'typescript/packages/marketplace-cli/src', command + '.ts')], bundle: true, platform: 'node', format: 'cjs', outfile: out, plugins: [plugin], logLevel: 'error' });
  const C = require(out).default;
  const c = new C();
  c.given = { args, flags };
  state.log.length = 0;
  await c.run();
  return state.log.join('\n');
}
require('./demo.js')({ run, assert: require('assert'), state }).then(() => console.error('ok'), e => { console.error(e && e.stack || e); process.exit(1) });
