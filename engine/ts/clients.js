// What the exported classes and functions of a TypeScript package do, for all arguments: every path of each
// callable is evaluated on symbolic arguments (TypeScript syntax tree and checker; nothing is executed).
// usage: node clients.js TYPESCRIPT ROOT OUT [tool [PACKAGE=DIR]]
// ROOT: directory with index.ts; with 'tool' every file below it is read and everything it exports is reported, printing included
const ts = require(process.argv[2]);
const fs = require('fs');
const path = require('path');
const ROOT = process.argv[3];
const TOOL = process.argv[5] === 'tool';
const LINK = (process.argv[6] || '').split('=');

class Unsupported extends Error {}
class Throw { constructor(v) { this.v = v } }
const SK = ts.SyntaxKind;

// ------------------------------------------------------------------ values
// lit {k,v} | sym {k,t} | obj {k,props:Map,open:[terms]} | arr {k,items} | fn {k,node,env,self,name} | nat {k,f}
const lit = v => ({ k: 'lit', v });
const UNDEF = lit(undefined);
const sym = (...t) => ({ k: 'sym', t });
const nat = f => ({ k: 'nat', f });
const isLit = x => x.k === 'lit';
const str = x => isLit(x) && typeof x.v === 'string' ? x.v : isLit(x) && typeof x.v === 'number' ? String(x.v) : null;
function term(x, seen = []) {
  if (seen.includes(x)) return ['cycle'];
  const s = [...seen, x];
  switch (x.k) {
    case 'lit': return x.v === undefined ? ['undef'] : ['lit', x.v];
    case 'sym': return x.t.map(y => y && y.k ? term(y, s) : Array.isArray(y) ? y.map(z => z && z.k ? term(z, s) : z) : y);
    case 'obj': return ['obj', [...x.props].map(([k, v]) => [k, term(v, s)]), (x.open || []).map(z => term(z, s))];
    case 'arr': return ['arr', x.items.map(v => term(v, s))];
    case 'fn': return ['fn', x.name || '', callableOf(x, s)];
    case 'nat': return ['native'];
    case 'cls': return ['class', x.name];
  }
}
const key = x => JSON.stringify(term(x));

// ------------------------------------------------------------------ program
const list = d => fs.readdirSync(d, { withFileTypes: true }).flatMap(f => f.isDirectory() ? (TOOL && f.name !== 'node_modules' ? list(path.join(d, f.name)) : []) :
  /\.tsx?$/.test(f.name) && !f.name.endsWith('.d.ts') ? [path.join(d, f.name)] : []);
const own = list(ROOT);
const files = LINK[1] ? [...own, path.join(LINK[1], 'index.ts')] : own;
const program = ts.createProgram(files, { strict: true, target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS,
  moduleResolution: ts.ModuleResolutionKind.Node10, noEmit: true, types: [], jsx: ts.JsxEmit.React, esModuleInterop: true });
const checker = program.getTypeChecker();
const problems = [];
for (const d of ts.getPreEmitDiagnostics(program)) {
  if ([2307, 2792, 2304, 2580, 2584, 2591, 5101, 5107].includes(d.code) || d.code >= 7000 && d.code < 8000) continue;   // packages that are not installed
  const w = d.file ? path.basename(d.file.fileName) + ':' + (d.file.getLineAndCharacterOfPosition(d.start).line + 1) : '';
  problems.push([w, d.code, ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 200)]);
}

// ------------------------------------------------------------------ types
function tj(t, seen = []) {
  const F = ts.TypeFlags;
  if (t.flags & (F.Any | F.Unknown)) return { any: 1 };
  if (t.flags & F.StringLiteral) return { lit: t.value };
  if (t.flags & F.NumberLiteral) return { lit: t.value };
  if (t.flags & F.BooleanLiteral) return { lit: t.intrinsicName === 'true' };
  if (t.flags & F.Boolean) return { prim: 'boolean' };
  if (t.flags & F.StringLike) return { prim: 'string' };
  if (t.flags & F.NumberLike) return { prim: 'number' };
  if (t.flags & F.BigIntLike) return { prim: 'bigint' };
  if (t.flags & (F.Undefined | F.Void)) return { prim: 'undefined' };
  if (t.flags & F.Null) return { prim: 'null' };
  if (t.isUnion()) {
    const xs = t.types.map(x => tj(x, seen));
    const b = xs.filter(x => 'lit' in x && typeof x.lit === 'boolean');
    const rest = xs.filter(x => !b.includes(x));
    if (b.length === 2) rest.push({ prim: 'boolean' }); else rest.push(...b);
    return rest.length === 1 ? rest[0] : { union: rest };
  }
  if (seen.includes(t) || seen.length > 12) return { rec: checker.typeToString(t) };
  const s = [...seen, t];
  if (checker.isArrayType(t) || checker.isTupleType(t)) return { array: tj(checker.getTypeArguments(t)[0] || checker.getAnyType(), s) };
  const n = t.symbol && t.symbol.name;
  if (n === 'Promise') return { promise: tj(checker.getTypeArguments(t)[0], s) };
  if (t.flags & F.TypeParameter) { const d = t.getDefault && t.getDefault(); return d ? tj(d, s) : { any: 1 } }
  if (t.getCallSignatures().length) return { func: 1 };
  if (t.flags & (F.Object | F.Intersection)) {
    const o = {};
    for (const p of t.getProperties()) {
      const d = p.valueDeclaration || (p.declarations && p.declarations[0]);
      const pt = d ? checker.getTypeOfSymbolAtLocation(p, d) : checker.getTypeOfSymbol(p);
      o[p.name] = [tj(pt, s), !!(p.flags & ts.SymbolFlags.Optional)];
    }
    return { object: o };
  }
  return { other: checker.typeToString(t) };
}

// ------------------------------------------------------------------ path enumeration
let run = null;    // {choices, at, conds: Map, calls, depth}
function decide(kind, x) {
  const t = kind + ' ' + key(x);
  if (run.conds.has(t)) return run.conds.get(t).v;
  const imp = implied(kind, x);
  if (imp !== null) return imp;
  if (run.at === run.choices.length) run.choices.push(true);
  const v = run.choices[run.at++];
  run.conds.set(t, { kind, x: term(x), v });
  if (run.conds.size > 24) throw new Unsupported('too many conditions');
  return v;
}
function implied(kind, x) {
  const h = (k, v) => { const c = run.conds.get(k + ' ' + key(x)); return c && c.v === v };
  if (kind === 'truthy' && (h('nullish', true) || h('undef', true) || h('null', true))) return false;
  if ((kind === 'nullish' || kind === 'undef' || kind === 'null') && h('truthy', true)) return false;
  if (kind === 'nullish' && (h('undef', true) || h('null', true))) return true;
  if (kind === 'nullish' && h('undef', false) && h('null', false)) return false;
  if ((kind === 'undef' || kind === 'null') && h('nullish', false)) return false;
  if (kind === 'undef' && h('null', true)) return false;
  if (kind === 'null' && h('undef', true)) return false;
  if (kind === 'undef' && h('nullish', true) && h('null', false)) return true;
  if (kind === 'null' && h('nullish', true) && h('undef', false)) return true;
  return null;
}
function paths(f) {
  const out = [];
  const saved = run;
  let choices = [];
  for (let n = 0; ; n++) {
    if (n > 512) throw new Unsupported('too many paths');
    run = { choices, at: 0, conds: new Map(), calls: [], depth: saved ? saved.depth + 1 : 0, outer: saved };
    if (run.depth > 3) { run = saved; throw new Unsupported('functions nested too deep') }
    let r;
    try { r = { ret: term(f()) } }
    catch (e) { if (e instanceof Throw) r = { throws: term(e.v) }; else { run = saved; throw e } }
    r.conds = [...run.conds.values()].map(c => [c.kind, c.x, c.v]);
    r.calls = run.calls.map(x => term(x));
    out.push(r);
    choices = run.choices.slice(0, run.at);
    while (choices.length && choices[choices.length - 1] === false) choices.pop();
    if (!choices.length) break;
    choices[choices.length - 1] = false;
  }
  run = saved;
  return out;
}
const truthy = x => isLit(x) ? !!x.v : x.k === 'sym' ? (x.t[0] === 'new' ? true : x.t[0] === 'falsy' ? false : x.t[0] === 'not' ? !truthy(x.t[1]) : decide('truthy', x)) : true;
const nullish = x => isLit(x) ? x.v == null : x.k === 'sym' ? (x.t[0] === 'new' ? false : decide('nullish', x)) : false;
const isUndef = x => isLit(x) ? x.v === undefined : x.k === 'sym' ? decide('undef', x) : false;
const isNull = x => isLit(x) ? x.v === null : x.k === 'sym' ? decide('null', x) : false;

// ------------------------------------------------------------------ environments and modules
class Env {
  constructor(up, self) { this.up = up; this.m = new Map(); this.self = self === undefined ? up && up.self : self; this.cls = up && up.cls }
  find(n) { for (let e = this; e; e = e.up) if (e.m.has(n)) return e; return null }
}
const modules = new Map();
function moduleOf(sf) {
  if (modules.has(sf)) return modules.get(sf);
  const env = new Env(null, UNDEF);
  const m = { env, exports: new Map(), sf };
  modules.set(sf, m);
  hoist(sf.statements, env, m);
  return m;
}
function target(sf, spec) {
  if (LINK[1] && spec === LINK[0]) return program.getSourceFile(path.join(LINK[1], 'index.ts')) || null;
  const base = path.resolve(path.dirname(sf.fileName), spec);
  for (const c of [base + '.ts', base + '.tsx', path.join(base, 'index.ts')]) { const f = program.getSourceFile(c); if (f) return f }
  return null;
}
const lazy = f => ({ lazy: f });
function lookup(n, env) {
  const e = env.find(n);
  if (!e) {
    if (n === 'undefined') return UNDEF;
    if (n === 'NaN' || n === 'Infinity') return sym('global', n);
    return sym('global', n);
  }
  let v = e.m.get(n);
  if (v && v.lazy) { e.m.set(n, sym('cyclic', n)); v = v.lazy(); e.m.set(n, v) }
  return v;
}
const exported = s => (ts.getCombinedModifierFlags(s) & ts.ModifierFlags.Export) !== 0;
function nsObject(m) {
  const o = { k: 'obj', props: new Map(), open: [] };
  for (const [n, f] of m.exports) o.props.set(n, f());
  return o;
}
function hoist(stmts, env, m) {
  for (const s of stmts) {
    if (m && (ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)) && ts.getCombinedModifierFlags(s) & ts.ModifierFlags.Default) {
      const n = s.name ? s.name.text : 'default';
      if (!s.name) env.m.set(n, ts.isClassDeclaration(s) ? { k: 'cls', node: s, env, name: n } : fnOf(s, env, n));
      m.exports.set('default', () => lookup(n, env));
    }
    if (ts.isImportDeclaration(s)) {
      const c = s.importClause;
      const spec = s.moduleSpecifier.text;
      const to = spec.startsWith('.') || spec === LINK[0] ? target(s.getSourceFile(), spec) : null;
      if (!c) continue;
      const get = n => lazy(() => { if (!to) return sym('import', spec, n); const x = moduleOf(to).exports.get(n); return x ? x() : sym('import', spec, n) });
      if (c.name) env.m.set(c.name.text, get('default'));
      if (c.namedBindings && ts.isNamespaceImport(c.namedBindings)) env.m.set(c.namedBindings.name.text, lazy(() => to ? nsObject(moduleOf(to)) : sym('import', spec, '*')));
      else if (c.namedBindings) for (const e of c.namedBindings.elements) env.m.set(e.name.text, get((e.propertyName || e.name).text));
    } else if (ts.isFunctionDeclaration(s) && s.name) {
      env.m.set(s.name.text, fnOf(s, env, s.name.text));
      if (m && exported(s)) m.exports.set(s.name.text, () => lookup(s.name.text, env));
    } else if (ts.isClassDeclaration(s) && s.name) {
      env.m.set(s.name.text, { k: 'cls', node: s, env, name: s.name.text });
      if (m && exported(s)) m.exports.set(s.name.text, () => lookup(s.name.text, env));
    } else if (ts.isVariableStatement(s) && m) {
      for (const d of s.declarationList.declarations) {
        if (!ts.isIdentifier(d.name)) {
          const ns = [];
          const walk = p => p.elements.forEach(e => { if (ts.isBindingElement(e)) ts.isIdentifier(e.name) ? ns.push(e.name.text) : walk(e.name) });
          walk(d.name);
          for (const n of ns) env.m.set(n, lazy(() => { const t = new Env(env); const sv = run; run = run || { choices: [], at: 0, conds: new Map(), calls: [], depth: 0 }; try { bind(d.name, ev(d.initializer, env), t) } finally { run = sv } return t.m.get(n) }));
          if (exported(s)) for (const n of ns) m.exports.set(n, () => lookup(n, env));
          continue;
        }
        env.m.set(d.name.text, lazy(() => { const sv = run; run = run || { choices: [], at: 0, conds: new Map(), calls: [], depth: 0 }; try { return d.initializer ? ev(d.initializer, env) : UNDEF } finally { run = sv } }));
        if (exported(s)) m.exports.set(d.name.text, () => lookup(d.name.text, env));
      }
    } else if (ts.isModuleDeclaration(s) && s.body && ts.isModuleBlock(s.body)) {
      const inner = { env: new Env(env), exports: new Map(), sf: s.getSourceFile() };
      hoist(s.body.statements, inner.env, inner);
      env.m.set(s.name.text, lazy(() => nsObject(inner)));
      if (m && exported(s)) m.exports.set(s.name.text, () => lookup(s.name.text, env));
    } else if (ts.isExportAssignment(s) && m) {
      m.exports.set('default', () => { const sv = run; run = run || { choices: [], at: 0, conds: new Map(), calls: [], depth: 0 }; try { return ev(s.expression, env) } finally { run = sv } });
    } else if (ts.isExportDeclaration(s) && m) {
      const to = s.moduleSpecifier ? target(s.getSourceFile(), s.moduleSpecifier.text) : null;
      if (s.exportClause && ts.isNamedExports(s.exportClause)) for (const e of s.exportClause.elements) {
        const from = (e.propertyName || e.name).text;
        m.exports.set(e.name.text, () => to ? (moduleOf(to).exports.get(from) || (() => UNDEF))() : lookup(from, env));
      } else if (to && s.exportClause) m.exports.set(s.exportClause.name.text, () => nsObject(moduleOf(to)));
      else if (to) for (const [n, f] of moduleOf(to).exports) if (!m.exports.has(n)) m.exports.set(n, f);
    }
  }
}
const fnOf = (node, env, name, self) => ({ k: 'fn', node, env, name, self });

// ------------------------------------------------------------------ classes
function chain(c) {
  const out = [c];
  for (let k = c; ;) {
    const h = (k.node.heritageClauses || []).find(x => x.token === SK.ExtendsKeyword);
    if (!h) return out;
    const b = ev(h.types[0].expression, k.env);
    if (b.k !== 'cls') { out.push(b); return out }
    out.push(b);
    k = b;
  }
}
function construct(c, args, self) {
  self = self || { k: 'obj', props: new Map(), open: [], cls: c, ctor: 1 };
  const base = chain(c)[1];
  const ctor = c.node.members.find(ts.isConstructorDeclaration);
  const init = () => {
    for (const p of c.node.members) if (ts.isPropertyDeclaration(p) && p.initializer && !(ts.getCombinedModifierFlags(p) & ts.ModifierFlags.Static)) {
      const e = new Env(c.env, self); e.cls = c;
      self.props.set(p.name.getText(), ev(p.initializer, e, p.name.getText()));
    }
  };
  const sup = as => { if (base && base.k === 'cls') construct(base, as, self); init() };
  if (!ctor) { if (base) sup(args); else init(); return self }
  const env = new Env(c.env, self); env.cls = c; env.sup = sup;
  if (!base) init();
  bindParams(ctor.parameters, args, env);
  ctor.parameters.forEach((p, i) => { if (p.modifiers && p.modifiers.length) self.props.set(p.name.text, lookup(p.name.text, env)) });
  block(ctor.body.statements, env);
  return self;
}
function method(o, n) {
  for (const c of chain(o.cls)) {
    if (c.k !== 'cls') break;
    const m = c.node.members.find(x => (ts.isMethodDeclaration(x) || ts.isGetAccessorDeclaration(x)) && x.name.getText() === n);
    if (m) { const e = new Env(c.env, o); e.cls = c; const f = fnOf(m, e, n, o); return ts.isGetAccessorDeclaration(m) ? apply(f, [], o) : f }
  }
  return null;
}

// ------------------------------------------------------------------ functions
function bindParams(ps, args, env) {
  ps.forEach((p, i) => {
    if (p.dotDotDotToken) return bind(p.name, { k: 'arr', items: args.slice(i) }, env);
    bind(p.name, dflt(args[i] === undefined ? UNDEF : args[i], p.initializer, env), env);
  });
}
function dflt(v, init, env) {
  if (!init) return v;
  if (isLit(v)) return v.v === undefined ? ev(init, env) : v;
  if (v.k === 'sym') return isUndef(v) ? ev(init, env) : v;
  return v;
}
function bind(name, v, env) {
  if (ts.isIdentifier(name)) { env.m.set(name.text, v); return }
  if (ts.isObjectBindingPattern(name)) {
    const taken = [];
    for (const e of name.elements) {
      if (e.dotDotDotToken) {
        const o = { k: 'obj', props: new Map(), open: [] };
        if (v.k === 'obj') for (const [k, x] of v.props) { if (!taken.includes(k)) o.props.set(k, x) } else o.open.push(sym('rest', v, taken));
        if (v.k === 'obj') o.open.push(...v.open);
        bind(e.name, o, env); continue;
      }
      const pn = e.propertyName || e.name;
      const k = ts.isIdentifier(pn) || ts.isStringLiteral(pn) ? pn.text : str(ev(pn.expression, env));
      taken.push(k);
      bind(e.name, dflt(get(v, k), e.initializer, env), env);
    }
    return;
  }
  name.elements.forEach((e, i) => { if (ts.isBindingElement(e)) bind(e.name, dflt(get(v, String(i)), e.initializer, env), env) });
}
let depth = 0;
function apply(f, args, self) {
  if (f.k === 'nat') return f.f(args, self);
  if (f.k === 'fn') {
    if (!f.node.body) throw new Unsupported('no body');
    if (++depth > 40) { depth = 0; throw new Unsupported('recursion') }
    try {
      const env = new Env(f.env, ts.isArrowFunction(f.node) ? undefined : f.self || self || UNDEF);
      bindParams(f.node.parameters, args, env);
      const late = v => TOOL && f.node.modifiers && f.node.modifiers.some(m => m.kind === SK.AsyncKeyword) && !(v.k === 'sym' && v.t[0] === 'async') ? started(v) : v;
      if (!ts.isBlock(f.node.body)) return late(ev(f.node.body, env));
      const r = block(f.node.body.statements, env);
      return late(r && r.ret ? r.ret : UNDEF);
    } finally { depth-- }
  }
  throw new Unsupported('call of ' + f.k);
}
// a tool: the value of a promise once it is there; what is awaited is reported after the call it comes from
function started(v) {
  const n = lit(run.calls.length);
  run.calls.push(sym('started', n));
  return sym('async', v, n);
}
function settled(v) {
  if (!TOOL || v.k !== 'sym') return v;
  if (v.t[0] === 'async') { run.calls.push(sym('settled', v.t[2])); return settled(v.t[1]) }
  if (v.t[0] === 'call') run.calls.push(sym('await', v));
  return v;
}
// as a value that leaves the package: its own paths
function callableOf(f, seen) {
  if (f.open) return ['again'];
  f.open = true;
  try { return describe(f) } finally { f.open = false }
}
function describe(f) {
  const sig = f.node.kind && checker.getSignatureFromDeclaration(f.node);
  const ps = f.node.parameters.map((p, i) => sym('param', (run ? run.depth + 1 : 0), i));
  return {
    params: f.node.parameters.map(p => { const t = checker.getTypeAtLocation(p); return [tj(t), !!(p.questionToken || p.initializer), p.name.getText().replace(/\s+/g, ' ').slice(0, 60)] }),
    ret: sig ? tj(checker.getReturnTypeOfSignature(sig)) : null,
    at: path.basename(f.node.getSourceFile().fileName) + ':' + (f.node.getSourceFile().getLineAndCharacterOfPosition(f.node.getStart()).line + 1),
    paths: paths(() => settled(apply(f, ps.map((p, i) => f.node.parameters[i].dotDotDotToken ? sym('param', 0, i) : p), f.self))),
  };
}

// ------------------------------------------------------------------ statements: undefined | {ret} | {brk}
function block(stmts, env) {
  hoist(stmts.filter(s => ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s)), env, null);
  for (const s of stmts) { const r = stmt(s, env); if (r) return r }
}
let tries = 0;   // within how many try blocks
function stmt(s, env) {
  if (ts.isVariableStatement(s)) { decls(s.declarationList, env); return }
  if (ts.isExpressionStatement(s)) { ev(s.expression, env); return }
  if (ts.isReturnStatement(s)) return { ret: s.expression ? ev(s.expression, env) : UNDEF };
  if (ts.isIfStatement(s)) {
    if (truthy(ev(s.expression, env))) return stmt(s.thenStatement, env);
    return s.elseStatement ? stmt(s.elseStatement, env) : undefined;
  }
  if (ts.isBlock(s)) return block(s.statements, new Env(env));
  if (ts.isThrowStatement(s)) throw new Throw(ev(s.expression, env));
  if (ts.isForOfStatement(s) || ts.isForInStatement(s)) {
    const l = ev(s.expression, env);
    if (l.k === 'sym') return generic(s, l, env);
  }
  if (ts.isForOfStatement(s)) {
    const xs = items(ev(s.expression, env));
    for (const x of xs) {
      const e = new Env(env);
      if (ts.isVariableDeclarationList(s.initializer)) bind(s.initializer.declarations[0].name, x, e); else assign(s.initializer, x, e);
      const r = stmt(s.statement, e);
      if (r && r.ret) return r;
      if (r && r.brk === 'break') break;
    }
    return;
  }
  if (ts.isForInStatement(s)) {
    const o = ev(s.expression, env);
    if (o.k !== 'obj' || o.open.length) throw new Unsupported('for in');
    for (const k of [...o.props.keys()]) {
      const e = new Env(env);
      if (ts.isVariableDeclarationList(s.initializer)) bind(s.initializer.declarations[0].name, lit(k), e); else assign(s.initializer, lit(k), e);
      const r = stmt(s.statement, e);
      if (r && r.ret) return r;
      if (r && r.brk === 'break') break;
    }
    return;
  }
  if (ts.isBreakStatement(s)) return { brk: 'break' };
  if (ts.isContinueStatement(s)) return { brk: 'continue' };
  if (ts.isSwitchStatement(s)) {
    const v = ev(s.expression, env);
    const e = new Env(env);
    let on = false;
    const go = from => { for (const c of s.caseBlock.clauses.slice(from)) { for (const x of c.statements) { const r = stmt(x, e); if (r) return r.brk === 'break' ? 'done' : r } } return 'done' };
    for (let i = 0; i < s.caseBlock.clauses.length; i++) {
      const c = s.caseBlock.clauses[i];
      if (ts.isCaseClause(c) && truthy(equal(v, ev(c.expression, e), true))) { const r = go(i); return r === 'done' ? undefined : r }
    }
    const d = s.caseBlock.clauses.findIndex(ts.isDefaultClause);
    if (d >= 0) { const r = go(d); return r === 'done' ? undefined : r }
    return;
  }
  if (ts.isForStatement(s) || ts.isWhileStatement(s) || ts.isDoStatement(s)) {
    const e = new Env(env);
    if (ts.isForStatement(s) && s.initializer) { if (ts.isVariableDeclarationList(s.initializer)) decls(s.initializer, e); else ev(s.initializer, e) }
    for (let n = 0, first = ts.isDoStatement(s); ; n++, first = false) {
      if (n > 200) throw new Unsupported('long loop');
      const c = ts.isForStatement(s) ? s.condition : s.expression;
      if (!first && c) { const v = ev(c, e); if (v.k === 'sym') throw new Unsupported('loop on unknown condition'); if (!truthy(v)) return }
      const r = stmt(s.statement, new Env(e));
      if (r && r.ret) return r;
      if (r && r.brk === 'break') return;
      if (ts.isForStatement(s) && s.incrementor) ev(s.incrementor, e);
    }
  }
  if (ts.isTryStatement(s)) {
    let r;
    const outer = tries;
    try { if (s.catchClause) tries = outer + 1; r = block(s.tryBlock.statements, new Env(env)); tries = outer }
    catch (x) {
      tries = outer;
      if (!(x instanceof Throw) || !s.catchClause) throw x;
      const e = new Env(env);
      if (s.catchClause.variableDeclaration) bind(s.catchClause.variableDeclaration.name, x.v, e);
      r = block(s.catchClause.block.statements, e);
    }
    if (s.finallyBlock) { const f = block(s.finallyBlock.statements, new Env(env)); if (f) return f }
    return r;
  }
  if (ts.isEmptyStatement(s) || ts.isFunctionDeclaration(s) || ts.isClassDeclaration(s) || ts.isInterfaceDeclaration(s) || ts.isTypeAliasDeclaration(s)) return;
  throw new Unsupported(SK[s.kind]);
}
// a loop over an unknown list: one iteration for any element, with what earlier iterations assigned unknown
function generic(s, l, env) {
  const each = sym(ts.isForOfStatement(s) ? 'elem' : 'key', l);
  if (!decide('some', l)) return;
  const e = new Env(env);
  const carried = [];
  const visit = n => {
    const w = ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment ? n.left : ts.isPrefixUnaryExpression(n) || ts.isPostfixUnaryExpression(n) ? n.operand : null;
    if (w && ts.isIdentifier(w)) { const o = env.find(w.text); if (o) carried.push([o, w.text]) }
    ts.forEachChild(n, visit);
  };
  visit(s.statement);
  for (const [o, n] of carried) o.m.set(n, sym('carried', n, l));
  if (ts.isVariableDeclarationList(s.initializer)) bind(s.initializer.declarations[0].name, each, e); else assign(s.initializer, each, e);
  if (TOOL) run.calls.push(sym('loop', l));
  const r = stmt(s.statement, e);
  if (TOOL) run.calls.push(sym(!r || r.brk === 'continue' ? 'next' : 'leave', l));
  for (const [o, n] of carried) o.m.set(n, sym('carried', n, l));
  if (r && r.ret) return r;
}
function decls(l, env) { for (const d of l.declarations) bind(d.name, d.initializer ? ev(d.initializer, env, ts.isIdentifier(d.name) ? d.name.text : '') : UNDEF, env) }
function items(v) {
  if (v.k === 'arr') return v.items;
  throw new Unsupported('iteration over ' + key(v).slice(0, 80));
}
function assign(l, v, env) {
  l = ts.skipOuterExpressions(l);
  if (ts.isIdentifier(l)) { const e = env.find(l.text); if (!e) throw new Unsupported('assignment to global'); e.m.set(l.text, v); return }
  if (ts.isPropertyAccessExpression(l) || ts.isElementAccessExpression(l)) {
    const o = ev(l.expression, env);
    const ix = ts.isPropertyAccessExpression(l) ? null : ev(l.argumentExpression, env);
    const k = ix ? str(ix) : l.name.text;
    if (o.k === 'obj' && k !== null) { o.props.delete(k); o.props.set(k, v); return }
    if (o.k === 'sym') { run.calls.push(sym('assign', o, k === null ? ix : k, v)); return }
    throw new Unsupported('assignment');
  }
  throw new Unsupported('assignment pattern');
}

// ------------------------------------------------------------------ properties
function get(o, k) {
  if (o.k === 'obj') {
    if (o.props.has(k)) return o.props.get(k);
    if (o.cls) { const m = method(o, k); if (m) return m; if (chain(o.cls).some(c => c.k !== 'cls')) return sym('inherited', k) }
    if (o.open.length) return o.open.length === 1 ? get(o.open[0], k) : sym('get', sym('spread', ...o.open), k);
    return builtin(o, k) || UNDEF;
  }
  if (o.k === 'arr') {
    if (/^\d+$/.test(k)) return o.items[+k] || UNDEF;
    if (k === 'length') return lit(o.items.length);
    return builtin(o, k) || UNDEF;
  }
  if (o.k === 'lit') {
    if (o.v == null) throw new Throw(sym('new', 'TypeError', [lit(k)]));
    if (typeof o.v === 'string' && k === 'length') return lit(o.v.length);
    return builtin(o, k) || UNDEF;
  }
  if (o.k === 'fn' || o.k === 'nat') return builtin(o, k) || sym('get', sym('function'), k);
  if (o.k === 'cls') {
    const p = o.node.members.find(x => x.name && x.name.getText() === k && (ts.getCombinedModifierFlags(x) & ts.ModifierFlags.Static));
    if (p && ts.isPropertyDeclaration(p)) return p.initializer ? ev(p.initializer, new Env(o.env, o)) : UNDEF;
    if (p) return fnOf(p, new Env(o.env, o), k, o);
    return UNDEF;
  }
  if (o.t[0] === 'rest' ) return o.t[2].includes(k) ? UNDEF : get(o.t[1], k);
  return sym('get', o, k);
}
function builtin(o, k) {
  if (o.k === 'fn' || o.k === 'nat') {
    if (k === 'bind') return nat(a => o.k === 'fn' ? { ...o, self: ts.isArrowFunction(o.node) ? o.self : a[0], open: false } : o);
    if (k === 'call') return nat(a => apply(o, a.slice(1), a[0]));
    if (k === 'apply') return nat(a => apply(o, a[1] ? items(a[1]) : [], a[0]));
  }
  if (o.k === 'arr') {
    const A = xs => ({ k: 'arr', items: xs });
    switch (k) {
      case 'map': return nat(a => A(o.items.map((x, i) => apply(a[0], [x, lit(i), o]))));
      case 'forEach': return nat(a => { o.items.forEach((x, i) => apply(a[0], [x, lit(i), o])); return UNDEF });
      case 'filter': return nat(a => A(o.items.filter((x, i) => truthy(isBoolean(a[0]) ? x : apply(a[0], [x, lit(i), o])))));
      case 'reduce': return nat(a => { let xs = o.items, acc = a[1]; if (acc === undefined) { acc = xs[0]; xs = xs.slice(1) } xs.forEach((x, i) => { acc = apply(a[0], [acc, x, lit(i), o]) }); return acc });
      case 'concat': return nat(a => A([...o.items, ...a.flatMap(x => x.k === 'arr' ? x.items : [x])]));
      case 'includes': return nat(a => lit(o.items.some(x => truthy(equal(x, a[0], true)))));
      case 'push': return nat(a => { o.items.push(...a); return lit(o.items.length) });
      case 'slice': return nat(a => A(o.items.slice(...a.map(x => x.v))));
      case 'join': return nat(a => o.items.every(x => str(x) !== null) ? lit(o.items.map(str).join(a[0] ? str(a[0]) : ',')) : sym('join', o, a[0] || lit(',')));
    }
  }
  if (o.k === 'lit' && typeof o.v === 'string') {
    if (typeof ''[k] === 'function') return nat(a => a.every(x => isLit(x) && !(x.v instanceof Object)) && k !== 'replace' ? back(o.v[k](...a.map(x => x.v))) : sym('call', sym('get', o, k), a));
  }
  if (o.k === 'obj' && (k === 'hasOwnProperty')) return nat(a => lit(o.props.has(str(a[0]))));
  return null;
}
const isBoolean = f => f && f.k === 'sym' && f.t[0] === 'global' && f.t[1] === 'Boolean';
const back = v => Array.isArray(v) ? { k: 'arr', items: v.map(back) } : lit(v);
// functions of the language that are evaluated when the arguments are known
function known(f, a) {
  if (f.k !== 'sym' || f.t[0] !== 'get' || f.t[1].k !== 'sym' || f.t[1].t[0] !== 'global') return null;
  const n = f.t[1].t[1] + '.' + f.t[2];
  const O = x => x && x.k === 'obj' && !x.open.length && !x.ctor;
  const A = xs => ({ k: 'arr', items: xs });
  switch (n) {
    case 'Object.entries': return O(a[0]) ? A([...a[0].props].map(([k, v]) => A([lit(k), v]))) : null;
    case 'Object.keys': return O(a[0]) ? A([...a[0].props.keys()].map(k => lit(k))) : null;
    case 'Object.values': return O(a[0]) ? A([...a[0].props.values()]) : null;
    case 'Object.freeze': return a[0];
    case 'Object.fromEntries': {
      if (a[0].k !== 'arr') return null;
      const o = { k: 'obj', props: new Map(), open: [] };
      for (const e of a[0].items) o.props.set(str(get(e, '0')), get(e, '1'));
      return o;
    }
    case 'Object.assign': { if (a[0].k !== 'obj') return null; for (const x of a.slice(1)) spread(a[0], x); return a[0] }
    case 'Promise.resolve': return a[0] || UNDEF;
    case 'Promise.all': return TOOL && a[0] && a[0].k === 'arr' ? A(a[0].items.map(settled)) : null;
    case 'Array.isArray': return a[0].k === 'sym' ? null : lit(a[0].k === 'arr');
  }
  return null;
}
function spread(o, x) {
  if (x.k === 'obj') { for (const [k, v] of x.props) { o.props.delete(k); o.props.set(k, v) } o.open.push(...x.open); return }
  if (x.k === 'arr') { x.items.forEach((v, i) => o.props.set(String(i), v)); return }
  if (x.k === 'lit') return;
  if (x.k === 'sym') {
    // what is spread later wins over what was written before
    for (const k of [...o.props.keys()]) o.props.set(k, sym('over', x, k, o.props.get(k)));
    o.open.push(x);
  }
}
const quiet = f => f.k === 'sym' && /^\["(get|global)",.*"(console|JSON|Object|String|Number|Boolean|Math|Date|Array|Error)"/.test(JSON.stringify(term(f)));

const prints = f => /^\["get",\["global","(console|process)"/.test(JSON.stringify(term(f)));

// ------------------------------------------------------------------ expressions
function args(as, env) {
  const out = [];
  for (const a of as) if (ts.isSpreadElement(a)) { const v = ev(a.expression, env); if (v.k === 'arr') out.push(...v.items); else throw new Unsupported('spread argument') } else out.push(ev(a, env));
  return out;
}
function equal(a, b, strict) {
  for (const [x, y] of [[a, b], [b, a]]) if (isLit(y) && y.v == null) return lit(strict ? (y.v === undefined ? isUndef(x) : isNull(x)) : nullish(x));
  if (isLit(a) && isLit(b)) return lit(strict ? a.v === b.v : a.v == b.v);
  if ((a.k === 'sym' || b.k === 'sym')) return key(a) === key(b) ? lit(true) : sym('eq', ...[a, b].sort((x, y) => key(x) < key(y) ? -1 : 1));
  return lit(a === b);
}
function call(f, as, self, node) {
  if (f.k === 'fn' || f.k === 'nat') return apply(f, as, self);
  if (f.k === 'sym') {
    const r = known(f, as);
    if (r) return r;
    const t = sym('call', f, as);
    if (!quiet(f) || TOOL && prints(f)) { run.calls.push(t); if (tries && decide('rejects', t)) throw new Throw(sym('error', t)) }
    return t;
  }
  if (isLit(f) && f.v == null) throw new Throw(sym('new', 'TypeError', []));
  throw new Unsupported('call of ' + f.k + ' at ' + (node ? node.getText().slice(0, 60) : ''));
}
class Short { }
function ev(n, env, name) {
  if (ts.isOptionalChain(n) && !ts.isOptionalChain(n.parent)) {
    try { return ev1(n, env, name) } catch (e) { if (e instanceof Short) return UNDEF; throw e }
  }
  return ev1(n, env, name);
}
function ev1(n, env, name) {
  switch (n.kind) {
    case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.SatisfiesExpression: case SK.TypeAssertionExpression:
      return ev(n.expression, env, name);
    case SK.AwaitExpression: return settled(ev(n.expression, env, name));
    case SK.NumericLiteral: return lit(Number(n.text.replace(/_/g, '')));
    case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return lit(n.text);
    case SK.TrueKeyword: return lit(true);
    case SK.FalseKeyword: return lit(false);
    case SK.NullKeyword: return lit(null);
    case SK.ThisKeyword: return env.self || UNDEF;
    case SK.VoidExpression: ev(n.expression, env); return UNDEF;
    case SK.RegularExpressionLiteral: return sym('regex', n.text);
    case SK.Identifier: return lookup(n.text, env);
    case SK.ArrowFunction: case SK.FunctionExpression: return fnOf(n, env, name || (n.name && n.name.text) || '');
    case SK.ClassExpression: return { k: 'cls', node: n, env, name: name || '' };
    case SK.ArrayLiteralExpression: {
      const xs = [];
      for (const e of n.elements) if (ts.isSpreadElement(e)) { const v = ev(e.expression, env); if (v.k === 'arr') xs.push(...v.items); else xs.push(sym('spread', v)) } else xs.push(ev(e, env));
      return { k: 'arr', items: xs };
    }
    case SK.ObjectLiteralExpression: {
      const o = { k: 'obj', props: new Map(), open: [] };
      for (const p of n.properties) {
        if (ts.isSpreadAssignment(p)) { spread(o, ev(p.expression, env)); continue }
        let k;
        if (ts.isComputedPropertyName(p.name)) { 
              const kv = ev(p.name.expression, env); k = str(kv);
              if (k === null && TOOL && ts.isPropertyAssignment(p)) { o.open.push(sym('entry', kv, ev(p.initializer, env))); continue }
              if (k === null) throw new Unsupported('computed property');
            } else k = p.name.text;
        let v;
        if (ts.isShorthandPropertyAssignment(p)) v = lookup(k, env);
        else if (ts.isPropertyAssignment(p)) v = ev(p.initializer, env, k);
        else if (ts.isMethodDeclaration(p)) v = fnOf(p, env, k, o);
        else throw new Unsupported('accessor');
        o.props.delete(k); o.props.set(k, v);
      }
      return o;
    }
    case SK.PropertyAccessExpression: case SK.ElementAccessExpression: {
      if (n.expression.kind === SK.SuperKeyword) { const b = chain(env.cls)[1]; return method({ cls: b }, n.name.text) || UNDEF }
      const o = ts.isOptionalChain(n) ? ev1(n.expression, env) : ev(n.expression, env);
      if (n.questionDotToken && nullish(o)) throw new Short();
      const k = ts.isPropertyAccessExpression(n) ? n.name.text : str(ev(n.argumentExpression, env));
      if (k === null) return sym('index', o, ev(n.argumentExpression, env));
      return get(o, k);
    }
    case SK.CallExpression: {
      if (n.expression.kind === SK.SuperKeyword) {
        let e = env; while (e && !e.sup) e = e.up;
        e.sup(args(n.arguments, env)); return UNDEF;
      }
      let self = UNDEF, f;
      const c = ts.skipOuterExpressions(n.expression);
      if ((ts.isPropertyAccessExpression(c) || ts.isElementAccessExpression(c)) && c.expression.kind !== SK.SuperKeyword) {
        self = ts.isOptionalChain(c) ? ev1(c.expression, env) : ev(c.expression, env);
        if (c.questionDotToken && nullish(self)) throw new Short();
        const k = ts.isPropertyAccessExpression(c) ? c.name.text : str(ev(c.argumentExpression, env));
        f = k === null ? sym('index', self, ev(c.argumentExpression, env)) : get(self, k);
      } else f = ts.isOptionalChain(n) && ts.isOptionalChain(c) ? ev1(c, env) : ev(c, env);
      if (c.expression && c.expression.kind === SK.SuperKeyword) self = env.self;
      if (n.questionDotToken && nullish(f)) throw new Short();
      return call(f, args(n.arguments, env), self, n);
    }
    case SK.NewExpression: {
      const f = ev(n.expression, env);
      const as = args(n.arguments || [], env);
      if (f.k === 'cls') return construct(f, as);
      const t = sym('new', f, as);
      if (TOOL && tries && f.k === 'sym' && f.t[0] === 'global' && f.t[1] === 'URL' && decide('rejects', t)) throw new Throw(sym('error', t));
      return t;
    }
    case SK.ConditionalExpression: return truthy(ev(n.condition, env)) ? ev(n.whenTrue, env, name) : ev(n.whenFalse, env, name);
    case SK.TemplateExpression: {
      const xs = [lit(n.head.text)];
      for (const s of n.templateSpans) xs.push(ev(s.expression, env), lit(s.literal.text));
      if (xs.every(x => isLit(x))) return lit(xs.map(x => String(x.v)).join(''));
      return sym('template', xs);
    }
    case SK.TypeOfExpression: { const v = ev(n.expression, env); return v.k === 'fn' ? lit('function') : isLit(v) ? lit(typeof v.v) : v.k === 'sym' ? sym('typeof', v) : lit('object') }
    case SK.DeleteExpression: {
      const x = ts.skipOuterExpressions(n.expression);
      const o = ev(x.expression, env);
      const k = ts.isPropertyAccessExpression(x) ? x.name.text : str(ev(x.argumentExpression, env));
      if (TOOL && o.k === 'sym') { run.calls.push(sym('delete', o, k === null ? ev(x.argumentExpression, env) : k)); return lit(true) }
      if (o.k !== 'obj' || k === null) throw new Unsupported('delete');
      o.props.delete(k);
      return lit(true);
    }
    case SK.PrefixUnaryExpression: {
      if (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) return step(n, env)[1];
      const v = ev(n.operand, env);
      if (n.operator === SK.ExclamationToken) return isLit(v) || v.k !== 'sym' ? lit(!truthy(v)) : v.t[0] === 'eq' ? sym('not', v) : lit(!truthy(v));
      if (isLit(v)) return lit(n.operator === SK.MinusToken ? -v.v : n.operator === SK.PlusToken ? +v.v : ~v.v);
      return sym('unary', ts.tokenToString(n.operator), v);
    }
    case SK.PostfixUnaryExpression: return step(n, env)[0];
    case SK.BinaryExpression: return binary(n, env, name);
    case SK.MetaProperty: return sym('meta');
  }
  throw new Unsupported(SK[n.kind]);
}
function step(n, env) {
  const v = ev(n.operand, env);
  const w = isLit(v) ? lit(n.operator === SK.PlusPlusToken ? v.v + 1 : v.v - 1) : sym('bin', n.operator === SK.PlusPlusToken ? '+' : '-', v, lit(1));
  assign(n.operand, w, env);
  return [v, w];
}
function binary(n, env, name) {
  const op = n.operatorToken.kind;
  const A = () => ev(n.left, env), B = () => ev(n.right, env, name);
  switch (op) {
    case SK.EqualsToken: { const v = B(); if (ts.isObjectLiteralExpression(n.left) || ts.isArrayLiteralExpression(n.left)) throw new Unsupported('assignment pattern'); assign(n.left, v, env); return v }
    case SK.QuestionQuestionEqualsToken: { const a = A(); if (!nullish(a)) return a; const v = B(); assign(n.left, v, env); return v }
    case SK.AmpersandAmpersandToken: { const a = A(); return truthy(a) ? B() : a.k === 'sym' && a.t[0] !== 'not' && a.t[0] !== 'eq' ? sym('falsy', a) : lit(false) }
    case SK.BarBarToken: { const a = A(); return truthy(a) ? a : B() }
    case SK.QuestionQuestionToken: { const a = A(); return nullish(a) ? B() : a }
    case SK.CommaToken: A(); return B();
  }
  const a = A(), b = B();
  switch (op) {
    case SK.EqualsEqualsEqualsToken: case SK.EqualsEqualsToken: {
      const x = typeofUndef(a, b);
      return x ? lit(isUndef(x)) : equal(a, b, op === SK.EqualsEqualsEqualsToken);
    }
    case SK.ExclamationEqualsEqualsToken: case SK.ExclamationEqualsToken: {
      const x = typeofUndef(a, b);
      if (x) return lit(!isUndef(x));
      const e = equal(a, b, op === SK.ExclamationEqualsEqualsToken);
      return isLit(e) ? lit(!e.v) : sym('not', e);
    }
    case SK.InKeyword: if (b.k === 'obj' && str(a) !== null && !b.open.length) return lit(b.props.has(str(a))); break;
  }
  if (isLit(a) && isLit(b)) switch (op) {
    case SK.PlusToken: return lit(a.v + b.v);
    case SK.MinusToken: return lit(a.v - b.v);
    case SK.AsteriskToken: return lit(a.v * b.v);
    case SK.SlashToken: return lit(a.v / b.v);
    case SK.LessThanToken: return lit(a.v < b.v);
    case SK.GreaterThanToken: return lit(a.v > b.v);
    case SK.LessThanEqualsToken: return lit(a.v <= b.v);
    case SK.GreaterThanEqualsToken: return lit(a.v >= b.v);
  }
  if (op >= SK.FirstAssignment && op <= SK.LastAssignment) {
    const v = op === SK.PlusEqualsToken && isLit(a) && isLit(b) ? lit(a.v + b.v) : sym('bin', ts.tokenToString(op).slice(0, -1), a, b);
    assign(n.left, v, env);
    return v;
  }
  return sym('bin', ts.tokenToString(op), a, b);
}
function typeofUndef(a, b) {
  for (const [x, y] of [[a, b], [b, a]]) if (isLit(x) && x.v === 'undefined' && y.k === 'sym' && y.t[0] === 'typeof') return y.t[1];
  return null;
}

// ------------------------------------------------------------------ report
function guarded(f) { try { return f() } catch (e) { if (e instanceof Unsupported) return { unsupported: e.message }; throw e } }
function classReport(c) {
  const ctor = chain(c).map(k => k.k === 'cls' && k.node.members.find(ts.isConstructorDeclaration)).find(x => x);
  const as = ctor ? ctor.parameters.map((p, i) => sym('ctor', i)) : [];
  const names = new Set();
  run = { choices: [], at: 0, conds: new Map(), calls: [], depth: 0 };
  const o = construct(c, as);
  const made = run.calls.map(x => term(x));
  run = null;
  for (const k of chain(c)) if (k.k === 'cls') for (const m of k.node.members) {
    const fl = ts.getCombinedModifierFlags(m);
    if (m.name && !(fl & (ts.ModifierFlags.Static | ts.ModifierFlags.Private | ts.ModifierFlags.Protected)) && !ts.isPrivateIdentifier(m.name)) names.add(m.name.getText());
  }
  const members = {};
  for (const n of names) {
    members[n] = guarded(() => {
      run = { choices: [], at: 0, conds: new Map(), calls: [], depth: 0 };
      const v = get(o, n);
      run = null;
      return v.k === 'fn' ? { fn: describe(v) } : { value: term(v) };
    });
    run = null;
  }
  return { class: c.name, ctor: ctor ? ctor.parameters.map(p => p.name.getText()) : [], made, members };
}
function report(v, d = 0) {
  if (v.k === 'cls') return guarded(() => classReport(v));
  if (v.k === 'fn') return guarded(() => ({ fn: describe(v) }));
  if (v.k === 'obj' && d < 4) { const o = {}; for (const [k, x] of v.props) o[k] = report(x, d + 1); return { members: o } }
  return guarded(() => ({ value: term(v) }));
}
const index = program.getSourceFile(path.join(ROOT, 'index.ts'));
const out = { problems, exports: {}, types: {} };
if (index) for (const [n, f] of moduleOf(index).exports) { const r = report(f()); run = null; out.exports[n] = r }
if (TOOL) {
  out.modules = {};
  for (const f of own) {
    const o = out.modules[path.relative(ROOT, f)] = {};
    for (const [n, g] of moduleOf(program.getSourceFile(f)).exports) { o[n] = guarded(() => report(g())); run = null }
  }
}
for (const sf of program.getSourceFiles()) if (path.dirname(sf.fileName) === path.resolve(ROOT)) {
  const ms = checker.getSymbolAtLocation(sf);
  const o = {};
  for (const s of ms ? checker.getExportsOfModule(ms) : []) if (s.flags & (ts.SymbolFlags.Interface | ts.SymbolFlags.TypeAlias)) o[s.name] = tj(checker.getDeclaredTypeOfSymbol(s));
  out.types[path.basename(sf.fileName)] = o;
}
fs.writeFileSync(process.argv[4], JSON.stringify(out));
