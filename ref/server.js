'use strict';
// Reference co-process: newline-delimited JSON requests on stdin, one JSON
// reply per line on stdout.  Every handler is a pure function of the request.
const NM = '/opt/veriftools/node/node_modules/';
const req = (m) => require(NM + m);
const lazy = (f) => { let v, d = false; return () => { if (!d) { v = f(); d = true; } return v; }; };
const acorn = lazy(() => req('acorn'));
const acornJsx = lazy(() => acorn().Parser.extend(req('acorn-jsx')()));
const babel = lazy(() => req('@babel/parser'));
const ts = lazy(() => req('typescript'));

// ---- positions: UTF-16 offset -> UTF-8 byte offset, and line/rune column ----
class Pos {
  constructor(code) {
    const n = code.length;
    this.byte = new Uint32Array(n + 1);
    this.line = new Uint32Array(n + 1);
    this.col = new Uint32Array(n + 1);
    let b = 0, line = 1, col = 0;
    for (let i = 0; i < n; ) {
      const c = code.codePointAt(i);
      const w = c > 0xffff ? 2 : 1;
      for (let k = 0; k < w; k++) { this.byte[i + k] = b; this.line[i + k] = line; this.col[i + k] = col; }
      b += c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
      i += w;
      // mole counts LF, CR and CRLF as line breaks, and columns in characters
      if (c === 10 || (c === 13 && code.charCodeAt(i) !== 10)) { line++; col = 0; } else col++;
    }
    this.byte[n] = b; this.line[n] = line; this.col[n] = col;
  }
}

const short = (v) => { let s; try { s = JSON.stringify(v, (k, x) => typeof x === 'bigint' ? x + 'n' : x); } catch (e) { s = String(v); } if (s === undefined) s = 'undefined'; return s.length > 160 ? s.slice(0, 160) + '…' : s; };
const isNode = (v) => v && typeof v === 'object' && !Array.isArray(v) && typeof v.type === 'string';
const empty = (v) => v === undefined || v === null || v === false || v === '' || (Array.isArray(v) && v.length === 0);

// compare a reference ESTree node with mole's; returns null or {path, want, got}
function cmpNode(r, m, path, o) {
  if (r === undefined) r = null;
  if (m === undefined) m = null;
  if (r === null || m === null) return r === m ? null : { path, want: r, got: m };
  if (Array.isArray(r)) {
    if (!Array.isArray(m)) return { path, want: r, got: m };
    if (r.length !== m.length) return { path: path + '.length', want: r.length, got: m.length };
    for (let i = 0; i < r.length; i++) { const d = cmpNode(r[i], m[i], path + '[' + i + ']', o); if (d) return d; }
    return null;
  }
  if (typeof r !== 'object') {
    return Object.is(r, m) || r === m ? null : { path, want: r, got: m };
  }
  if (typeof m !== 'object' || Array.isArray(m)) return { path, want: r, got: m };
  if (isNode(r)) {
    if (r.type !== m.type) return { path: path + '.type', want: r.type, got: m.type };
    const p = o.pos;
    if (o.positions) {
      if (p.byte[r.start] !== m.start) return { path: path + '.start(' + r.type + ')', want: p.byte[r.start], got: m.start };
      if (p.byte[r.end] !== m.end) return { path: path + '.end(' + r.type + ')', want: p.byte[r.end], got: m.end };
      if (m.loc) {
        const l = m.loc;
        if (l.start.line !== p.line[r.start] || l.start.column !== p.col[r.start]) return { path: path + '.loc.start(' + r.type + ')', want: p.line[r.start] + ':' + p.col[r.start], got: l.start.line + ':' + l.start.column };
        if (l.end.line !== p.line[r.end] || l.end.column !== p.col[r.end]) return { path: path + '.loc.end(' + r.type + ')', want: p.line[r.end] + ':' + p.col[r.end], got: l.end.line + ':' + l.end.column };
      }
    }
  }
  for (const k of Object.keys(r)) {
    if (k === 'start' || k === 'end' || k === 'loc' || k === 'range' || k === 'sourceType') continue;
    if (r.type === 'Literal') {
      if (r.regex) {
        if (k === 'value' || k === 'raw') continue;
        if (k === 'regex') {
          const d = cmpNode(r.regex, m.regexp, path + '.regexp', o); if (d) return d; continue;
        }
      }
      if (r.bigint !== undefined && r.bigint !== null && k === 'value') continue;
      if (k === 'value' && typeof r.value === 'number' && o.skipNum) continue;
      if (k === 'value' && typeof r.value === 'number' && typeof r.raw === 'string' && !Object.is(r.value, m.value)) {
        // acorn accumulates digits of 0x/0o/0b literals inexactly; the language value is Number(raw)
        const txt = r.raw.replace(/_/g, '');
        const v = /^0[0-7]+$/.test(txt) ? Number('0o' + txt.slice(1)) : Number(txt);
        if (Object.is(v, m.value)) continue;
      }
      if (k === 'value' && r.value === Infinity && m.value === 0) continue; // JSON has no Infinity, mole writes 0
    }
    // representation choices of mole's ESTree output
    if (k === 'raw' && (r.value === null || typeof r.value === 'boolean') && r.type === 'Literal') continue;
    if (k === 'expression' && r.type === 'FunctionDeclaration') continue;
    if (k === 'directive') { // mole reports the cooked value of a directive
      if (m.directive !== r.expression.value) return { path: path + '.directive', want: r.expression.value, got: m.directive };
      continue;
    }
    if (r.type === 'TemplateElement' && k === 'value') {
      // mole keeps CR in raw, and writes an unavailable cooked value as ""
      const raw = String(m.value && m.value.raw).replace(/\r\n?/g, '\n');
      if (raw !== r.value.raw) return { path: path + '.value.raw', want: r.value.raw, got: m.value && m.value.raw };
      if ((r.value.cooked === null ? '' : r.value.cooked) !== m.value.cooked) return { path: path + '.value.cooked', want: r.value.cooked, got: m.value.cooked };
      continue;
    }
    if (r.type === 'JSXOpeningFragment' && k === 'selfClosing') continue;
    if (r.type === 'JSXOpeningFragment' && k === 'attributes') { if (m[k] && m[k].length) return { path: path + '.attributes', want: [], got: m[k] }; continue; }
    if (o.skip && o.skip(r, k, m)) continue;
    const d = cmpNode(r[k], m[k], path + '.' + k, o);
    if (d) return d;
  }
  for (const k of Object.keys(m)) {
    if (k in r) continue;
    if (k === 'start' || k === 'end' || k === 'loc' || k === 'sourceType' || k === 'regexp') continue;
    if ((k === 'exportKind' || k === 'importKind') && m[k] === 'value') continue;
    if (m.type === 'AwaitExpression' && (k === 'operator' && m[k] === 'await' || k === 'prefix')) continue;
    if (o.extra && o.extra(r, k, m)) continue;
    if (!empty(m[k])) return { path: path + '.' + k + '(extra on ' + m.type + ')', want: undefined, got: m[k] };
  }
  return null;
}

function acornParse(q) {
  const P = q.jsx ? acornJsx() : acorn();
  const opt = { ecmaVersion: q.ecma || 2022, sourceType: q.module ? 'module' : 'script', allowHashBang: q.hashbang !== false };
  if (q.module) opt.allowAwaitOutsideFunction = true;
  if (q.ranges) opt.ranges = true;
  const comments = q.comments ? (opt.onComment = []) : null;
  const tokens = q.tokens ? (opt.onToken = []) : null;
  const ast = P.parse(q.code, opt);
  return { ast, comments, tokens };
}

const H = {};
H.ping = () => ({ ok: true });
H.acorn = (q) => {
  let r;
  try { r = acornParse(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    return { ok: false, msg: e.message, pos: e.pos };
  }
  if (!q.mole) return { ok: true };
  const d = cmpNode(r.ast, q.mole, '', { pos: new Pos(q.code), positions: q.positions !== false });
  return d ? { ok: true, diff: { path: d.path, want: short(d.want), got: short(d.got) } } : { ok: true };
};

// babel's tree in ESTree form reduced to what any two correct parsers agree on
const SHAPE_ALIAS = { ParenthesizedExpression: '' };
function shape(n, out) {
  if (Array.isArray(n)) { for (const x of n) shape(x, out); return; }
  if (!n || typeof n !== 'object') return;
  if (typeof n.type === 'string' && typeof n.start === 'number') {
    if (n.type !== 'File' && n.type !== 'Program') out.add(n.type + ':' + n.start + ':' + n.end);
  }
  for (const k of Object.keys(n)) {
    if (k === 'loc' || k === 'range' || k === 'tokens' || k === 'comments' || k === 'errors' || k === 'extra' || /Comments$/.test(k)) continue;
    const v = n[k];
    if (v && typeof v === 'object') shape(v, out);
  }
}
// do acorn and babel build the same tree?  (guards against a reference's own bugs)
function refsAgree(q, ast) {
  const plugins = ['estree'];
  if (q.jsx) plugins.push('jsx');
  let b;
  try { b = babel().parse(q.code, { sourceType: q.module ? 'module' : 'script', plugins, allowAwaitOutsideFunction: !!q.module, createParenthesizedExpressions: false, attachComment: false }); } catch (e) { return false; }
  const x = new Set(), y = new Set();
  shape(ast.body, x); shape(b.program.body, y);
  let n = 0;
  for (const k of x) if (!y.has(k) && !/^(TemplateElement|JSX)/.test(k)) n++;
  for (const k of y) if (!x.has(k) && !/^(TemplateElement|JSX)/.test(k)) n++;
  return n === 0;
}

function babelAccepts(q) {
  const plugins = [];
  if (q.jsx) plugins.push('jsx');
  if (q.ts) plugins.push('typescript');
  try {
    babel().parse(q.code, { sourceType: q.module ? 'module' : 'script', plugins, allowAwaitOutsideFunction: !!q.module, errorRecovery: false, createParenthesizedExpressions: false });
    return { ok: true };
  } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    return { ok: false, msg: e.message };
  }
}

// Compare mole's verdict (q.mole: its ESTree, or null when it rejected) with
// the references.  verdict: same | diff | overaccept | overreject | bothreject | unsure
H.es = (q) => {
  let r = null, msg = '';
  try { r = acornParse(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    msg = e.message;
  }
  if (r && q.mole) {
    const d = cmpNode(r.ast, q.mole, '', { pos: new Pos(q.code), positions: !!q.positions });
    if (d && !refsAgree(q, r.ast)) return { verdict: 'unsure', msg: 'references disagree: ' + d.path };
    return d ? { verdict: 'diff', path: d.path, want: short(d.want), got: short(d.got) } : { verdict: 'same' };
  }
  if (!r && !q.mole) return { verdict: 'bothreject', msg };
  const b = babelAccepts(q);
  if (r) return b.ok ? { verdict: 'overreject' } : { verdict: 'unsure', msg: b.msg };
  return b.ok || /experimental syntax/.test(b.msg) ? { verdict: 'unsure', msg } : { verdict: 'overaccept', msg };
};

// ---- TypeScript: babel's and mole's trees in one normal form ----
const ID = (n) => n;
const BABEL_TS = {
  TSClassImplements: (n) => ({ ...n, type: 'TSTypeReference', typeName: n.expression, expression: null }),
  TSInterfaceHeritage: (n) => ({ ...n, type: 'TSExpressionWithTypeArguments' }),
  TSEnumDeclaration: (n) => ({ ...n, members: n.body.members, body: null }),
  TSModuleBlock: (n) => ({ ...n, type: 'BlockStatement' }),
  TSModuleDeclaration: (n) => ({ ...n, kind: null }),
  TSImportType: (n) => ({ ...n, argument: n.source, source: null }),
  TSAbstractMethodDefinition: (n) => ({ ...n, type: 'MethodDefinition', abstract: true }),
  TSAbstractPropertyDefinition: (n) => ({ ...n, type: 'PropertyDefinition', abstract: true }),
  TSEmptyBodyFunctionExpression: (n) => ({ ...n, type: 'FunctionExpression' }),
  TSInferType: (n) => ({ ...n, typeParameter: n.typeParameter.name }),
  TSDeclareFunction: (n) => ({ ...n, declare: null }),
  Program: (n) => ({ ...n, sourceType: null, interpreter: null }),
};
const MOLE_TS = {
  TSTypeAliasDeclaration: (n) => ({ ...n, typeAnnotation: n.typeAnnotation && n.typeAnnotation.typeAnnotation }),
  TSMappedType: (n) => ({ ...n, typeParameter: null, key: n.typeParameter && n.typeParameter.name, constraint: n.typeParameter && n.typeParameter.constraint }),
  TSMethodSignature: (n) => ({ ...n, value: null, params: n.value.params, returnType: n.value.returnType, typeParameters: n.value.typeParameters }),
  TSParenthesizedType: (n) => n.typeAnnotation,
  TSModuleDeclaration: (n) => {
    while (n.body && n.body.type === 'TSModuleDeclaration') {
      const b = n.body;
      n = { ...n, id: { type: 'TSQualifiedName', start: n.id.start, end: b.id.end, left: n.id, right: b.id }, body: b.body };
    }
    return n;
  },
  Program: (n) => ({ ...n, sourceType: null }),
};
const RENAME = { typeArguments: 'typeParameters', superTypeArguments: 'superTypeParameters' };
function normTs(n, tab) {
  if (Array.isArray(n)) return n.map((x) => normTs(x, tab));
  if (!n || typeof n !== 'object') return n;
  for (let f; typeof n.type === 'string' && (f = tab[n.type]); ) { const t = n.type; n = f(n); if (!n || n.type === t) break; }
  if (!n) return n;
  const r = {};
  for (const k of Object.keys(n)) {
    if (k === 'loc') { if (tab === MOLE_TS) r.loc = n.loc; continue; }
    if (k === 'range' || k === 'extra' || k === 'errors' || k === 'comments' || k === 'tokens' || k === 'options' || k === 'attributes' || k === 'isExport') continue;
    if ((k === 'importKind' || k === 'exportKind') && n[k] === 'value') continue;
    const v = normTs(n[k], tab);
    if (empty(v) && !(n.type === 'Literal' && k === 'value')) continue;
    r[RENAME[k] || k] = v;
  }
  return r;
}
function babelTs(q) {
  const plugins = ['estree', ['typescript', { dts: !!q.dts }]];
  if (q.jsx) plugins.push('jsx');
  return babel().parse(q.code, { sourceType: q.module ? 'module' : 'script', plugins, allowAwaitOutsideFunction: !!q.module, createParenthesizedExpressions: false, attachComment: false }).program;
}
function tscAccepts(q) {
  const T = ts();
  const f = T.createSourceFile('a.ts', q.code, { languageVersion: T.ScriptTarget.Latest, impliedNodeFormat: undefined }, false, q.jsx ? T.ScriptKind.TSX : T.ScriptKind.TS);
  return f.parseDiagnostics.length === 0;
}
H.ts = (q) => {
  let r = null, msg = '';
  try { r = babelTs(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    msg = e.message;
  }
  if (r && q.mole) {
    const d = cmpNode(normTs(r, BABEL_TS), normTs(q.mole, MOLE_TS), '', { pos: new Pos(q.code), positions: !!q.positions });
    return d ? { verdict: 'diff', path: d.path, want: short(d.want), got: short(d.got) } : { verdict: 'same' };
  }
  if (!r && !q.mole) return { verdict: 'bothreject', msg };
  const t = tscAccepts(q);
  if (r) return t ? { verdict: 'overreject' } : { verdict: 'unsure', msg: 'tsc rejects' };
  return { verdict: t ? 'unsure' : 'overaccept', msg };
};

// tsjs: is the program the same in JavaScript and in TypeScript?
H.tsjs = (q) => {
  let js, t;
  try { js = babel().parse(q.code, { sourceType: q.module ? 'module' : 'script', plugins: ['estree'].concat(q.jsx ? ['jsx'] : []), allowAwaitOutsideFunction: !!q.module, createParenthesizedExpressions: false, attachComment: false }).program; t = babelTs(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    return { same: false, msg: e.message };
  }
  const str = (n) => JSON.stringify(normTs(n, BABEL_TS), (k, v) => typeof v === 'bigint' ? v + 'n' : v instanceof RegExp ? String(v) : v);
  if (str(js) !== str(t)) return { same: false, msg: 'trees differ' };
  if (!tscAccepts(q)) return { same: false, msg: 'tsc rejects' };
  return { same: true };
};

const eslintScope = lazy(() => req('eslint-scope'));

// Resolve every reference of a program: [start, end, declarations | null].
// The names of functions declared in blocks of scripts (Annex B) are left out.
H.scope = (q) => {
  let r;
  try { r = acornParse(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    return { ok: false, msg: e.message };
  }
  const pos = new Pos(q.code);
  const m = eslintScope().analyze(r.ast, { ecmaVersion: 2024, sourceType: q.module ? 'module' : 'script' });
  const skip = new Set();
  if (!q.module) for (const s of m.scopes) if (s.type !== 'function' && s.type !== 'global') for (const v of s.variables) if (v.defs.some((d) => d.type === 'FunctionName' && d.node.type === 'FunctionDeclaration')) skip.add(v.name);
  // mole documents one scope for params and body, for a switch with its test, and for a catch param with its body:
  // a name declared in the latter part and used in the former is left out.
  const merged = [];
  const byBlock = new Map(m.scopes.map((s) => [s.block, s]));
  const names = (s, in_) => new Set(s.variables.filter((v) => v.identifiers.some((d) => d.start >= in_.start && d.end <= in_.end)).map((v) => v.name));
  for (const s of m.scopes) {
    const b = s.block;
    if (s.type === 'function' && b.params && b.params.length) merged.push([b.params[0].start, b.body.start, names(s, b.body)]);
    else if (s.type === 'switch') merged.push([b.discriminant.start, b.discriminant.end, names(s, b)]);
    else if (s.type === 'catch' && b.param && byBlock.has(b.body)) merged.push([b.param.start, b.param.end, names(byBlock.get(b.body), b.body)]);
  }
  const refs = [];
  for (const s of m.scopes) for (const f of s.references) {
    const i = f.identifier;
    if (merged.some(([a, b, n]) => i.start >= a && i.end <= b && n.has(i.name))) continue;
    if (skip.has(i.name) || i.type !== 'Identifier' || (f.resolved && !f.resolved.identifiers.length)) continue;
    refs.push({ at: [pos.byte[i.start], pos.byte[i.end]], name: i.name, decl: f.resolved ? f.resolved.identifiers.map((d) => pos.byte[d.start]) : null });
  }
  return { ok: true, refs };
};

// deps: for each function, the top-level statements whose bindings it reaches by its own references, those of the
// functions it contains, and those of the functions that it refers to by name.
H.deps = (q) => {
  let r;
  try { r = acornParse(q); } catch (e) {
    if (!(e instanceof SyntaxError)) throw e;
    return { ok: false, msg: e.message };
  }
  const pos = new Pos(q.code);
  const m = eslintScope().analyze(r.ast, { ecmaVersion: 2024, sourceType: 'module' });
  const top = r.ast.body;
  const isFn = (n) => n && /^(FunctionDeclaration|FunctionExpression|ArrowFunctionExpression)$/.test(n.type);
  const fns = new Map();
  for (const s of m.scopes) if (s.type === 'function') fns.set(s.block, { caps: new Set(), next: new Set() });
  for (const s of m.scopes) for (const f of s.references) {
    if (!f.resolved || !f.resolved.defs.length) continue;
    const crossed = [];
    for (let c = s; c && c !== f.resolved.scope; c = c.upper) if (c.type === 'function') crossed.push(c.block);
    const def = f.resolved.defs[0];
    for (const b of crossed) {
      const e = fns.get(b);
      for (const t of top) if (def.node.start >= t.start && def.node.end <= t.end && (f.resolved.scope.type === 'module' || def.type === 'ClassName' && def.node === t)) e.caps.add(t);
      const t = def.type === 'FunctionName' ? def.node : def.type === 'Variable' && def.node.id.type === 'Identifier' ? def.node.init : null;
      if (isFn(t) && fns.has(t)) e.next.add(t);
    }
  }
  for (const s of m.scopes) if (s.type === 'function') for (let c = s.upper; c; c = c.upper) if (c.type === 'function') fns.get(c.block).next.add(s.block);
  const deps = {};
  for (const [b] of fns) {
    const seen = new Set(), out = new Set(), todo = [b];
    while (todo.length) {
      const x = todo.pop();
      if (seen.has(x)) continue;
      seen.add(x);
      for (const c of fns.get(x).caps) out.add(pos.byte[c.start]);
      todo.push(...fns.get(x).next);
    }
    deps[pos.byte[b.start]] = [...out];
  }
  return { ok: true, deps };
};

// run evaluates an expression or statements over variables in V8, recording the calls of f.
H.run = (q) => {
  const names = Object.keys(q.vars);
  const trace = [];
  const f = (n) => { trace.push(n); };
  const enc = (v) => v == null ? null
    : typeof v === 'number' ? { $n: Object.is(v, -0) ? '-0' : v === Infinity ? '+Inf' : v === -Infinity ? '-Inf' : String(v) }
    : Array.isArray(v) ? Array.from(v, enc)
    : typeof v === 'object' ? Object.fromEntries(Object.entries(v).map(([k, x]) => [k, enc(x)])) : v;
  try {
    const fn = new Function('f', 'zz', ...names, q.stmts ? 'var w;' + q.js : 'return ' + q.js);
    const v = fn(f, undefined, ...names.map((n) => q.vars[n]));
    return { v: enc(v), trace };
  } catch (e) { return { err: String(e) }; }
};

// wasm compiles a text with mole's WebAssembly build.
let wasmUp = false, wasmModule;
H.wasm = (q) => {
  if (!wasmUp) {
    const fs = require('fs');
    if (!wasmModule) {
      globalThis.fs = { constants: { O_WRONLY: -1, O_RDWR: -1, O_CREAT: -1, O_TRUNC: -1, O_APPEND: -1, O_EXCL: -1, O_DIRECTORY: -1 }, writeSync: (fd, b) => b.length, write: (fd, b, o, n, p, cb) => cb(null, n) };
      require(process.env.MOLECHECK_WASM_EXEC);
      wasmModule = new WebAssembly.Module(fs.readFileSync(process.env.MOLECHECK_WASM));
    }
    const go = new globalThis.Go();
    go.exit = () => { wasmUp = false; };
    go.run(new WebAssembly.Instance(wasmModule, go.importObject)).catch(() => {});
    wasmUp = true;
  }
  try {
    const r = globalThis.compile(q.code);
    if (!wasmUp) return { died: 'exited' };
    return { tree: r[0], err: r[1] };
  } catch (e) { wasmUp = false; return { died: String(e) }; }
};

module.exports = { H, cmpNode, Pos, acornParse, babel, ts, short };
if (require.main === module) {
  let buf = '';
  process.stdin.setEncoding('utf8');
  process.stdin.on('data', (s) => {
    buf += s;
    let i, out = '';
    while ((i = buf.indexOf('\n')) >= 0) {
      const line = buf.slice(0, i); buf = buf.slice(i + 1);
      let rep;
      try { const q = JSON.parse(line); rep = H[q.op](q); } catch (e) { rep = { fatal: String(e && e.stack || e) }; }
      out += JSON.stringify(rep) + '\n';
    }
    if (out) process.stdout.write(out);
  });
  process.stdin.on('end', () => process.exit(0));
}
