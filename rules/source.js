'use strict';
// Virtual projects for the openapi-generator rules: small source texts, parsed by the TypeScript compiler
// and handed to the package's own functions as the syntax trees SWC produces. The package is interpreted,
// never run; names and texts that begin with $ are literal atoms (any name, any text).
const { T, P, scenario, flatEvents } = require('./lib');
const { GW, L, N, plain, key, isOpen, get, cv, isTerm, PKG } = require('./shapes');
const { splitE } = require('../engine/models');
const { ts } = P;
const SK = ts.SyntaxKind;
const atom = (s) => (/^\$[A-Za-z]/.test(s) ? L(s.slice(1)) : s);

// ---------- syntax: TypeScript compiler -> SWC
function convert(sf, span) {
  const S = (n) => span(n.getStart(sf), n.getEnd());
  const id = (n) => ({ type: 'Identifier', span: S(n), value: atom(n.text), optional: false });
  const list = (xs) => xs.map((x) => (ts.isSpreadElement(x) ? { spread: S(x), expression: ex(x.expression) } : ts.isOmittedExpression(x) ? null : { spread: null, expression: ex(x) }));
  const name = (n) => {
    if (ts.isIdentifier(n)) return id(n);
    if (ts.isStringLiteral(n) || ts.isNoSubstitutionTemplateLiteral(n)) return { type: 'StringLiteral', span: S(n), value: atom(n.text) };
    if (ts.isNumericLiteral(n)) return { type: 'NumericLiteral', span: S(n), value: Number(n.text) };
    if (ts.isComputedPropertyName(n)) return { type: 'Computed', span: S(n), expression: ex(n.expression) };
    throw new Error('name ' + SK[n.kind]);
  };
  function prop(n) {
    if (ts.isPropertyAssignment(n)) return { type: 'KeyValueProperty', key: name(n.name), value: ex(n.initializer) };
    if (ts.isShorthandPropertyAssignment(n)) return id(n.name);
    if (ts.isSpreadAssignment(n)) return { type: 'SpreadElement', spread: S(n), arguments: ex(n.expression) };
    if (ts.isMethodDeclaration(n)) return { type: 'MethodProperty', key: name(n.name), params: [], body: { type: 'BlockStatement', span: S(n), stmts: [] } };
    if (ts.isGetAccessor(n)) return { type: 'GetterProperty', span: S(n), key: name(n.name) };
    throw new Error('property ' + SK[n.kind]);
  }
  const un = { [SK.MinusToken]: '-', [SK.PlusToken]: '+', [SK.ExclamationToken]: '!', [SK.TildeToken]: '~' };
  function ex(n) {
    const span = S(n);
    if (ts.isIdentifier(n)) return id(n);
    if (ts.isStringLiteral(n)) return { type: 'StringLiteral', span, value: atom(n.text), raw: n.getText(sf) };
    if (ts.isNumericLiteral(n)) return { type: 'NumericLiteral', span, value: Number(n.text), raw: n.getText(sf) };
    if (ts.isBigIntLiteral(n)) return { type: 'BigIntLiteral', span, raw: n.getText(sf) };
    if (n.kind === SK.TrueKeyword || n.kind === SK.FalseKeyword) return { type: 'BooleanLiteral', span, value: n.kind === SK.TrueKeyword };
    if (n.kind === SK.NullKeyword) return { type: 'NullLiteral', span };
    if (ts.isNoSubstitutionTemplateLiteral(n)) return { type: 'TemplateLiteral', span, expressions: [], quasis: [{ type: 'TemplateElement', span, tail: true, cooked: atom(n.text), raw: n.text }] };
    if (ts.isTemplateExpression(n)) return { type: 'TemplateLiteral', span, expressions: n.templateSpans.map((s) => ex(s.expression)), quasis: [n.head, ...n.templateSpans.map((s) => s.literal)].map((q, i) => ({ type: 'TemplateElement', span, tail: i === n.templateSpans.length, cooked: q.text, raw: q.text })) };
    if (ts.isObjectLiteralExpression(n)) return { type: 'ObjectExpression', span, properties: n.properties.map(prop) };
    if (ts.isArrayLiteralExpression(n)) return { type: 'ArrayExpression', span, elements: list([...n.elements]) };
    if (ts.isCallExpression(n)) {
      if (n.expression.kind === SK.Identifier && n.expression.text === '$num') return { type: 'NumericLiteral', span, value: N(n.arguments[0].text) };
      return { type: 'CallExpression', span, callee: n.expression.kind === SK.ImportKeyword ? { type: 'Import', span: S(n.expression) } : n.expression.kind === SK.SuperKeyword ? { type: 'Super', span: S(n.expression) } : ex(n.expression), arguments: list([...n.arguments]), typeArguments: null };
    }
    if (ts.isNewExpression(n)) return { type: 'NewExpression', span, callee: ex(n.expression), arguments: list([...(n.arguments || [])]), typeArguments: null };
    if (ts.isPropertyAccessExpression(n) && !n.questionDotToken) return { type: 'MemberExpression', span, object: ex(n.expression), property: id(n.name) };
    if (ts.isPropertyAccessExpression(n)) return { type: 'OptionalChainingExpression', span };
    if (ts.isElementAccessExpression(n)) return { type: 'MemberExpression', span, object: ex(n.expression), property: { type: 'Computed', span: S(n.argumentExpression), expression: ex(n.argumentExpression) } };
    if (ts.isAsExpression(n)) return n.type.getText(sf) === 'const' ? { type: 'TsConstAssertion', span, expression: ex(n.expression) } : { type: 'TsAsExpression', span, expression: ex(n.expression), typeAnnotation: null };
    if (ts.isTypeAssertionExpression(n)) return n.type.getText(sf) === 'const' ? { type: 'TsConstAssertion', span, expression: ex(n.expression) } : { type: 'TsTypeAssertion', span, expression: ex(n.expression), typeAnnotation: null };
    if (ts.isNonNullExpression(n)) return { type: 'TsNonNullExpression', span, expression: ex(n.expression) };
    if (ts.isParenthesizedExpression(n)) return { type: 'ParenthesisExpression', span, expression: ex(n.expression) };
    if (ts.isPrefixUnaryExpression(n)) return { type: 'UnaryExpression', span, operator: un[n.operator], argument: ex(n.operand) };
    if (ts.isTypeOfExpression(n)) return { type: 'UnaryExpression', span, operator: 'typeof', argument: ex(n.expression) };
    if (ts.isBinaryExpression(n)) return { type: 'BinaryExpression', span, operator: n.operatorToken.getText(sf), left: ex(n.left), right: ex(n.right) };
    if (ts.isConditionalExpression(n)) return { type: 'ConditionalExpression', span, test: ex(n.condition), consequent: ex(n.whenTrue), alternate: ex(n.whenFalse) };
    if (ts.isArrowFunction(n)) return { type: 'ArrowFunctionExpression', span, params: n.parameters.map((p) => ({ type: 'Identifier', span: S(p), value: p.name.getText(sf), optional: false })), body: ts.isBlock(n.body) ? { type: 'BlockStatement', span: S(n.body), stmts: n.body.statements.map(stmt) } : ex(n.body), async: false, generator: false };
    if (ts.isFunctionExpression(n)) return { type: 'FunctionExpression', span, identifier: null, params: [], body: { type: 'BlockStatement', span, stmts: n.body.statements.map(stmt) } };
    if (ts.isClassExpression(n)) return { type: 'ClassExpression', span };
    if (ts.isRegularExpressionLiteral(n)) return { type: 'RegExpLiteral', span };
    if (n.kind === SK.ThisKeyword) return { type: 'ThisExpression', span };
    if (n.kind === SK.SuperKeyword) return { type: 'Super', span };
    if (ts.isAwaitExpression(n)) return { type: 'AwaitExpression', span, argument: ex(n.expression) };
    throw new Error('expression ' + SK[n.kind]);
  }
  function varDecl(n, declare, sp) { return { type: 'VariableDeclaration', span: sp, kind: n.flags & ts.NodeFlags.Const ? 'const' : 'let', declare: !!declare, declarations: n.declarations.map((d) => ({ type: 'VariableDeclarator', span: S(d), id: ts.isIdentifier(d.name) ? id(d.name) : { type: 'ObjectPattern', span: S(d.name), properties: [] }, init: d.initializer ? ex(d.initializer) : null, definite: false })) }; }
  function stmt(n) {
    const span = S(n);
    const has = (k) => (n.modifiers || []).some((m) => m.kind === k);
    const exported = (d) => (has(SK.ExportKeyword) ? { type: 'ExportDeclaration', span, declaration: d } : d);
    if (ts.isImportDeclaration(n)) {
      const c = n.importClause; const sp = [];
      if (c && c.name) sp.push({ type: 'ImportDefaultSpecifier', span: S(c), local: id(c.name) });
      if (c && c.namedBindings && ts.isNamespaceImport(c.namedBindings)) sp.push({ type: 'ImportNamespaceSpecifier', span: S(c), local: id(c.namedBindings.name) });
      if (c && c.namedBindings && ts.isNamedImports(c.namedBindings)) for (const e of c.namedBindings.elements) sp.push({ type: 'ImportSpecifier', span: S(e), local: id(e.name), imported: e.propertyName ? id(e.propertyName) : null, isTypeOnly: false });
      return { type: 'ImportDeclaration', span, specifiers: sp, source: { type: 'StringLiteral', span: S(n.moduleSpecifier), value: n.moduleSpecifier.text }, typeOnly: !!(c && c.isTypeOnly) };
    }
    if (ts.isExportDeclaration(n)) {
      const source = n.moduleSpecifier ? { type: 'StringLiteral', span: S(n.moduleSpecifier), value: n.moduleSpecifier.text } : null;
      if (!n.exportClause) return { type: 'ExportAllDeclaration', span, source };
      if (ts.isNamespaceExport(n.exportClause)) return { type: 'ExportNamedDeclaration', span, specifiers: [{ type: 'ExportNamespaceSpecifier', span, name: id(n.exportClause.name) }], source };
      return { type: 'ExportNamedDeclaration', span, specifiers: n.exportClause.elements.map((e) => ({ type: 'ExportSpecifier', span: S(e), orig: id(e.propertyName || e.name), exported: e.propertyName ? id(e.name) : null, isTypeOnly: false })), source, typeOnly: false };
    }
    if (ts.isExportAssignment(n)) return { type: 'ExportDefaultExpression', span, expression: ex(n.expression) };
    if (ts.isVariableStatement(n)) return exported(varDecl(n.declarationList, has(SK.DeclareKeyword), span));
    if (ts.isEnumDeclaration(n)) return exported({ type: 'TsEnumDeclaration', span, declare: has(SK.DeclareKeyword), isConst: has(SK.ConstKeyword), id: id(n.name), members: n.members.map((m) => ({ type: 'TsEnumMember', span: S(m), id: name(m.name), init: m.initializer ? ex(m.initializer) : null })) });
    if (ts.isFunctionDeclaration(n)) return exported({ type: 'FunctionDeclaration', span, identifier: id(n.name), params: [], body: n.body && { type: 'BlockStatement', span, stmts: n.body.statements.map(stmt) } });
    if (ts.isReturnStatement(n)) return { type: 'ReturnStatement', span, argument: n.expression ? ex(n.expression) : null };
    if (ts.isClassDeclaration(n)) return exported({ type: 'ClassDeclaration', span, identifier: id(n.name) });
    if (ts.isInterfaceDeclaration(n)) return exported({ type: 'TsInterfaceDeclaration', span, id: id(n.name) });
    if (ts.isTypeAliasDeclaration(n)) return exported({ type: 'TsTypeAliasDeclaration', span, id: id(n.name) });
    if (n.kind === SK.EmptyStatement) return { type: 'EmptyStatement', span };
    if (ts.isExpressionStatement(n)) return { type: 'ExpressionStatement', span, expression: ex(n.expression) };
    if (ts.isIfStatement(n)) return { type: 'IfStatement', span };
    throw new Error('statement ' + SK[n.kind]);
  }
  return sf.statements.map(stmt);
}
const parsed = new Map();
function parse(text) {
  let sf = parsed.get(text);
  if (!sf) { sf = ts.createSourceFile('virtual.ts', text, ts.ScriptTarget.ESNext, true, ts.ScriptKind.TS); if (sf.parseDiagnostics.length) throw new Error('virtual source: ' + sf.parseDiagnostics[0].messageText + ' in ' + text); parsed.set(text, sf); }
  return sf;
}
// {body, span} with every position 0, or real positions in bytes counted from base
function tree(text, base) {
  const sf = parse(text);
  const off = base === undefined ? () => 0 : (o) => base + Buffer.byteLength(text.slice(0, o), 'utf8');
  const body = convert(sf, (a, b) => ({ start: off(a), end: off(b), ctxt: 0 }));
  const first = sf.statements[0];
  return { type: 'Module', span: { start: off(first ? first.getStart(sf) : 0), end: off(text.length), ctxt: 0 }, body, interpreter: null };
}
const norm = (p) => { const out = []; for (const s of p.split('/')) { if (s === '' || s === '.') continue; if (s === '..') out.pop(); else out.push(s); } return '/' + out.join('/'); };

// ---------- a project of given files
// files: path -> text; o.real: real texts and positions (comments); o.packages: name -> {json, dir}; o.broken: paths that do not parse
class VP extends GW {
  constructor(ctx, files, o) {
    o = o || {};
    super(ctx, Object.assign({ exists: (t) => (t.k === 'const' ? this.files.has(t.v) : undefined) }, o, { interp: Object.assign({ recDepth: 40, rec: 'abort', unroll: 400, extFirst: true }, o.interp || {}) }));
    this.files = new Map(Object.entries(files).map(([k, v]) => [norm(k), v]));
    this.o = o;
  }
  textOf(path) { return this.o.real ? this.files.get(path) : path; }
  find(base, spec) {
    const tryFile = (p) => [p, p + '.ts', p + '.js', p + '/index.ts', p + '/index.js'].find((x) => this.files.has(x) || (this.o.modules && this.o.modules[x]));
    if (spec.startsWith('.') || spec.startsWith('/')) return tryFile(norm(spec.startsWith('/') ? spec : base + '/' + spec));
    for (const [n, pk] of Object.entries(this.o.packages || {})) { if (spec === n + '/package.json') return pk.dir + '/package.json'; if (spec.startsWith(n + '/')) return tryFile(norm(pk.dir + '/' + spec.slice(n.length + 1))); }
    return undefined;
  }
  err(st, msg, more) { return this.I.alloc('obj', [{ t: 'kv', key: T.K('message'), v: T.K(msg) }, ...Object.entries(more || {}).map(([k, v]) => ({ t: 'kv', key: T.K(k), v: T.K(v) }))], st, { error: true }); }
  contents(path) {
    if (this.files.has(path)) return this.textOf(path);
    for (const pk of Object.values(this.o.packages || {})) if (path === pk.dir + '/package.json') return JSON.stringify(pk.json);
    if (this.o.json && this.o.json[path] !== undefined) return JSON.stringify(this.o.json[path]);
    return undefined;
  }
  ext(I, st, fn, self, args, node) {
    const m = fn.m && fn.m.replace(/^node:/, ''); const p = fn.p || '';
    if (this.o.hook) { const r = this.o.hook(I, st, fn, self, args, node); if (r) return r; }
    const c = (i) => { const x = args[i] && T.simp(args[i], st.conds); return x && x.k === 'const' ? x.v : undefined; };
    const raise = (msg, more) => [{ st, ex: this.err(st, msg, more) }];
    if (m === '@swc/core' && /(^|\.)parseSync$/.test(p)) {
      const src = c(0);
      if (src === undefined) return undefined;
      // every text is parsed from position 1 on
      if (src === '') return [{ st, v: this.heap(st, { type: 'Module', span: { start: 1, end: 1, ctxt: 0 }, body: [], interpreter: null }) }];
      if (this.o.real) {
        const path = [...this.files].find(([, v]) => v === src);
        if (!path || (this.o.broken || []).includes(path[0])) return raise('Syntax Error');
        st.event({ t: 'parse', path: path[0] });
        return [{ st, v: this.heap(st, tree(src, 1)) }];
      }
      if (!this.files.has(src) || (this.o.broken || []).includes(src)) return raise('Syntax Error');
      st.event({ t: 'parse', path: src });
      return [{ st, v: this.heap(st, tree(this.files.get(src))) }];
    }
    if (m === 'resolve' && /(^|\.)sync$/.test(p)) {
      const spec = c(0); const bd = I.getProp(st, args[1], 'basedir'); const base = bd.k === 'const' ? bd.v : undefined;
      if (spec === undefined || base === undefined) return undefined;
      const r = this.find(base, spec);
      return r ? [{ st, v: T.K(r) }] : raise(`Cannot find module '${spec}' from '${base}'`, { code: 'MODULE_NOT_FOUND' });
    }
    if (m === 'util' && /(^|\.)promisify$/.test(p)) return [{ st, v: I.native('promisified', (s, _t, a, n) => this.promised(s, this.ext(I, s, args[0], undefined, a, n), T.show(args[0]) + ' ' + a.map((x) => T.show(x)).join())) }];
    if ((m === 'fs' || m === 'fs/promises') && /(^|\.)(readFile|readFileSync|stat|statSync|access|accessSync)$/.test(p)) {
      const path = c(0);
      if (path === undefined) return undefined;
      const what = /access/.test(p) ? 'access' : /stat/.test(p) ? 'stat' : 'read';
      const x = this.contents(path);
      if (what === 'read') st.event({ t: 'read', path });
      const outs = x === undefined ? raise(`ENOENT: no such file or directory, open '${path}'`, { code: 'ENOENT' }) : [{ st, v: what === 'access' ? T.undef : what === 'stat' ? this.heap(st, { size: 1 }) : T.K(x) }];
      return m === 'fs/promises' || /promises\./.test(p) ? this.promised(st, outs) : outs;
    }
    if (m === 'fs' && p === 'existsSync' && c(0) !== undefined) return [{ st, v: this.contents(c(0)) !== undefined ? T.true_ : T.false_ }];
    if (m === 'path' && args.every((a) => T.simp(a, st.conds).k === 'const')) {
      const f = p.replace(/^.*\./, ''); const pp = require('path').posix; const vs = args.map((a) => T.simp(a, st.conds).v);
      if (['dirname', 'extname', 'join', 'basename', 'normalize', 'isAbsolute'].includes(f)) return [{ st, v: T.K(pp[f](...vs)) }];
      if (f === 'resolve') return [{ st, v: T.K(pp.resolve('/work', ...vs)) }];
      if (f === 'relative') return [{ st, v: T.K(pp.relative(...vs)) }];
    }
    if (m === 'comment-parser' && /(^|\.)parse$/.test(p)) {
      const x = c(0);
      if (x === '') return [{ st, v: this.heap(st, []) }];
      if (x !== undefined && this.o.blocks) { st.event({ t: 'comment', text: x }); return [{ st, v: this.heap(st, this.o.blocks(x)) }]; }
      return undefined;
    }
    if (m === 'cmd-ts') { const f = p.replace(/^.*\./, ''); if (f === 'command') return [{ st, v: args[0] }]; return [{ st, v: T.op('cmd-ts', T.K(f), ...args) }]; }
    if (m === 'global') {
      if (/^console\./.test(p)) { st.event({ t: 'out', to: /^console\.(log|info|debug|dir|table)$/.test(p) ? 'stdout' : 'stderr', args: args.slice(), node }); return [{ st, v: T.undef }]; }
      if (/^process\.(stdout|stderr)\.write$/.test(p)) { st.event({ t: 'out', to: /stdout/.test(p) ? 'stdout' : 'stderr', args: args.slice(), node }); return [{ st, v: T.true_ }]; }
      if (p === 'process.exit' || p === 'process.abort') { st.event({ t: 'exit', code: args[0] || T.undef, node }); return [{ st, ex: T.op('process exit', args[0] || T.undef) }]; }


      if (p === 'import()') { const x = c(0); if (x !== undefined && this.o.modules && this.o.modules[x]) return this.promised(st, [{ st, v: this.o.modules[x](this, st) }]); return this.promised(st, raise(`Cannot find module '${x}'`)); }
    }
    return super.ext(I, st, fn, self, args, node);
  }
  promised(st, outs, what) {
    if (!outs) throw new Error('promise of ' + what);
    return outs.flatMap((o) => this.mkPromise(o));
  }
  mkPromise(o) {
    const P2 = T.ext('global', o.ex ? 'Promise.reject' : 'Promise.resolve');
    return this.I.callValue(P2, undefined, [o.ex || o.v], o.st, null);
  }
  // data allocated during interpretation (not an input)
  heap(st, v) {
    if (v === undefined || v === null || typeof v !== 'object') return T.K(v);
    if (isTerm(v)) return v;
    if (Array.isArray(v)) return this.I.alloc('arr', v.map((x) => ({ t: 'one', v: this.heap(st, x) })), st);
    const es = v instanceof Map ? [...v] : Object.entries(v);
    return this.I.alloc('obj', es.filter(([, x]) => x !== undefined).map(([k, x]) => ({ t: 'kv', key: isTerm(k) ? k : T.K(k), v: this.heap(st, x) })), st);
  }
  top(file, name) { // a module-level constant or function that is not exported
    const sf = P.sourceFile(PKG, file);
    let found;
    const visit = (n) => { if (found) return; if ((ts.isVariableDeclaration(n) || ts.isFunctionDeclaration(n)) && n.name && n.name.getText() === name) { found = n; return; } if (ts.isSourceFile(n) || ts.isVariableStatement(n) || ts.isVariableDeclarationList(n)) ts.forEachChild(n, visit); };
    if (sf) visit(sf);
    return found ? this.I.declValue({ name, declarations: [found], flags: 0 }, found) : undefined;
  }
  // [{st, project}] or [{st, left}] / [{st, ex}]
  project(entry, o) {
    o = o || {};
    const cls = this.I.exportValue(PKG, 'index.ts', 'Project');
    if (!cls || cls.k !== 'cls') { this.ctx.check(false, `Project is not exported by ${PKG}`, PKG, 'anchor:Project'); return []; }
    const outs = [];
    for (const r of this.I.construct((o.st || this.st).clone(), cls, o.args || [this.mk({})].concat(o.known ? [o.known] : []), null)) {
      if (r.ex) { outs.push(r); continue; }
      for (const c of this.I.callMethod(r.st, r.v, T.K('parseEntryPoint'), [T.K(norm(entry))], null)) {
        if (c.ex) { outs.push(c); continue; }
        for (const a of this.I.awaitValue(c.st, c.v, null)) outs.push(...this.either(a));
      }
    }
    return outs;
  }
  // the command line's handler, wherever the command is built
  handler() {
    const sf = P.sourceFile(PKG, 'cli.ts');
    let call;
    const visit = (n) => { if (!call && ts.isCallExpression(n) && n.arguments.length && ts.isIdentifier(n.expression)) { const s = this.I.checker.getSymbolAtLocation(n.expression); const d = s && s.declarations && s.declarations[0]; if (d && ts.isImportSpecifier(d) && /cmd-ts/.test(d.parent.parent.parent.moduleSpecifier.getText()) && (d.propertyName || d.name).text === 'command') call = n; } ts.forEachChild(n, visit); };
    if (sf) visit(sf);
    if (!call) { this.ctx.check(false, 'the command line of the generator builds no command', 'packages/openapi-generator/src/cli.ts', 'anchor:command'); return undefined; }
    for (const o of this.I.ev(call.arguments[0], this.st, this.I.newScope(null))) if (!o.ex) { const h = this.I.getProp(o.st, o.v, T.K('handler')); if (o.st !== this.st) this.st = o.st; this.command = o.v; return h; }
    return undefined;
  }
  // the names the handler gets the options under: long name -> {key, short, value: the type of the values}
  options() {
    const out = new Map();
    const args = this.command && this.I.getProp(this.st, this.command, T.K('args'));
    for (const e of (args && this.st.ents.get(args)) || []) {
      if (e.t !== 'kv' || e.key.k !== 'const' || !(e.v.k === 'op' && e.v.op === 'cmd-ts' && e.v.a[1])) continue;
      const of = (k) => { const v = this.I.getProp(this.st, e.v.a[1], T.K(k)); return v && v.k === 'const' ? v.v : undefined; };
      out.set(e.v.a[0].v === 'positional' ? '' : of('long'), { key: e.key.v, kind: e.v.a[0].v, short: of('short'), type: this.I.getProp(this.st, e.v.a[1], T.K('type')) });
    }
    return out;
  }
  // runs of the generator: [{st, doc, code, failed, out, err, json}]; doc: printed JSON, code: exit status
  generate(entry, args) {
    const h = this.handler();
    if (!h) return [];
    const runs = [];
    const opts = this.options();
    const given = {};
    const under = (long, k) => (opts.has(long) ? opts.get(long).key : k);
    const LONG = { name: 'name', version: 'version', description: 'description', codecFile: 'codec-file' };
    given[under('', 'input')] = norm(entry);
    for (const [k, long] of Object.entries(LONG)) given[under(long, k)] = args && args[k] !== undefined ? args[k] : T.undef;
    const a = this.mk({});
    const es = this.st.ents.get(a);
    for (const [k, v] of Object.entries(given)) es.push({ t: 'kv', key: T.K(k), v: isTerm(v) ? v : T.K(v) });
    for (const r of this.I.callValue(h, undefined, [a], this.st.clone(), null)) for (const w of r.ex ? [r] : this.I.awaitValue(r.st, r.v, null)) runs.push(this.judged(w));
    return runs;
  }
  judged(w) {
    const evs = flatEvents(w.st.events(null));
    const at = evs.findIndex((e) => e.t === 'exit');
    const seen = at < 0 ? evs : evs.slice(0, at + 1);
    const outs = seen.filter((e) => e.t === 'out');
    const out = outs.filter((e) => e.to === 'stdout'); const err = outs.filter((e) => e.to === 'stderr');
    const r = { st: w.st, evs: seen, out, err, code: at >= 0 ? evs[at].code : undefined, thrown: at < 0 ? w.ex : undefined };
    const t = out.length === 1 && out[0].args.length === 1 ? T.simp(out[0].args[0], w.st.conds) : undefined;
    if (t && t.k === 'op' && t.op === 'json') r.doc = ofJson(t.a[0]);
    return r;
  }
  // splits an Either: {st, v} right, {st, left}
  either(o) {
    if (o.ex) return [o];
    return splitE(this.I, o.st, o.v).map((e) => (e.left ? { st: e.st, left: this.I.getProp(e.st, e.e, 'left') } : { st: e.st, v: this.I.getProp(e.st, e.e, 'right') }));
  }
}
// ---------- documents out of JSON terms
function ofJson(t) {
  if (!t || t.k !== 'op') return { V: t };
  if (t.op === 'jc' || t.op === 'jv') return { V: t.a[0] };
  if (t.op === 'jarr') return { A: t.a.map(ofJson) };
  if (t.op === 'jobj') { const m = new Map(); for (let i = 0; i < t.a.length; i += 2) m.set(t.a[i], ofJson(t.a[i + 1])); return { O: m }; }
  return { V: t };
}
module.exports = { VP, convert, tree, parse, norm, ofJson, atom };
