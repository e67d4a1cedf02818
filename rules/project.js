'use strict';
// Rules over whole runs of the generator on small projects (rules/source.js).
const { T, P, scenario } = require('./lib');
const { L, plain, key, isOpen, get, cv, isTerm } = require('./shapes');
const { VP } = require('./source');
const at = (f) => 'packages/openapi-generator/src/' + f;
const IMPORTS = `import * as t from 'io-ts';\nimport * as h from '@api-ts/io-ts-http';\n`;
// an entry file whose only route answers 200 with `use` (o: other parts of the route)
const entry = (pre, use, o) => {
  o = o || {};
  return `${IMPORTS}${pre}\nexport const api = h.apiSpec({ op: { ${(o.method || 'get').toLowerCase()}: h.httpRoute({ path: ${o.path || "'/path'"}, method: '${o.method || 'GET'}', request: ${o.request || 'h.httpRequest({})'}, response: { 200: ${use || 't.string'} } }) } });`;
};
const lib = (text) => IMPORTS + text;
// literal atoms in a schema of the document, through the components it refers to
function marks(doc, d, seen, out) {
  out = out || new Set(); seen = seen || new Set();
  if (!d) return out;
  const note = (t) => T.mentions(t, (x) => { if (T.isLit(x)) out.add(x.n.split(':').slice(2).join(':')); return false; });
  if (d.V) { note(d.V); return out; }
  if (d.A) { for (const x of d.A) marks(doc, x, seen, out); return out; }
  for (const [k, v] of d.O) {
    if (k.k === 'const' && k.v === '$ref') {
      const n = v.V && refName(v.V);
      if (n === undefined) { out.add('an unresolved reference'); continue; }
      if (seen.has(n)) continue;
      seen.add(n);
      const c = get(doc, 'components', 'schemas', n);
      if (!c) { out.add('a dangling reference to ' + T.show(n)); continue; }
      marks(doc, c, seen, out);
    } else { if (!(k.k === 'const')) note(k); marks(doc, v, seen, out); }
  }
  return out;
}
// the component a $ref names, as a term
function refName(t) {
  const pre = '#/components/schemas/';
  if (t.k === 'const') return typeof t.v === 'string' && t.v.startsWith(pre) ? T.K(t.v.slice(pre.length)) : undefined;
  if (t.k === 'op' && t.op === 'concat' && t.a[0].k === 'const' && String(t.a[0].v).startsWith(pre)) {
    const first = t.a[0].v.slice(pre.length);
    const rest = (first ? [T.K(first)] : []).concat(t.a.slice(1));
    return rest.length === 1 ? rest[0] : T.concat(rest);
  }
  return undefined;
}
const operation = (doc, path, method) => get(doc, 'paths', path || '/path', method || 'get');
const response = (doc, code, path, method) => get(operation(doc, path, method), 'responses', code || '200', 'content', 'application/json', 'schema');
const said = (r) => r.err.map((e) => e.args.map((a) => T.show(a)).join(' ')).join(' / ').slice(0, 260);
// every run of the generator on the files, one by one; f(r) judges a run that printed a document
function runs(ctx, files, f, o) {
  o = o || {};
  const W = new VP(ctx, files, o);
  const rs = W.generate(o.entry || '/p/index.ts', o.args);
  for (const r of rs) { ctx.paths++; r.W = W; f(r); }
  ctx.use(W.I);
  if (!rs.length) ctx.undetermined('no run of the generator for ' + Object.keys(files).join());
}
// a run gives a document (true), fails as it should (false), or is not decided (undefined)
const failed = (r) => !!(r.thrown || (r.code && !r.doc));
function outcome(ctx, r, name) {
  if (r.doc && !r.code && !r.thrown) { if (isOpen(r.doc)) { ctx.check(undefined, `${name}: the document is not resolved: ${key(r.doc).slice(0, 200)}`); return undefined; } return 'doc'; }
  if (r.out.length === 0 && (r.code || r.thrown)) return 'error';
  ctx.check(undefined, `${name}: the run is not resolved`);
  return undefined;
}

// ---------- G14: names
// values: what a name stands for, with a literal of its own; uses: where a name is used
const VALUES = { codec: (m) => `t.literal('$${m}')`, object: (m) => `{ key: t.literal('$${m}') }`, text: (m) => `'$${m}'`, list: (m) => `[t.literal('$${m}'), t.number]`, func: (m) => `() => t.literal('$${m}')` };
const USES = {
  response: ['codec', (x) => x], property: ['codec', (x) => `t.type({ p: ${x} })`], 'optional property': ['codec', (x) => `t.type({ p: h.optional(${x}) })`], item: ['codec', (x) => `t.array(${x})`], alternative: ['codec', (x) => `t.union([t.number, ${x}])`], member: ['codec', (x) => `t.intersection([t.type({ q: t.string }), t.type({ p: ${x} })])`], 'record value': ['codec', (x) => `t.record(t.string, ${x})`],
  spread: ['object', (x) => `t.type({ ...${x} })`], 'spread next to others': ['object', (x) => `t.type({ a: t.string, ...${x}, b: t.number })`], props: ['object', (x) => `t.type(${x})`], 'partial props': ['object', (x) => `t.partial(${x})`],
  'computed key': ['text', (x) => `t.type({ [${x}]: t.string })`], literal: ['text', (x) => `t.literal(${x})`], 'template literal': ['text', (x) => `t.literal(\`pre \${${x}} post\`)`],
  'spread list': ['list', (x) => `t.union([t.string, ...${x}])`], list: ['list', (x) => `t.union(${x})`], call: ['func', (x) => `t.type({ p: ${x}() })`],
};
// bindings: how a name comes into scope; v(m): a value with literal m. want: the literal the name stands for, or 'error'
const BINDINGS = {
  'local': (v) => ({ pre: `const X = ${v('m1')};`, want: 'm1' }),
  'local, declared later': (v) => ({ pre: '', post: `const X = ${v('m1')};`, want: 'm1' }),
  'local exported': (v) => ({ pre: `export const X = ${v('m1')}; const Y = ${v('m2')};`, want: 'm1' }),
  'local, another file exports the name too': (v) => ({ pre: `import { Y } from './b'; const X = ${v('m1')}; export const used = t.type({ y: t.string });`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m3')};` }, want: 'm1' }),
  'import': (v) => ({ pre: `import { X } from './b'; const Y = ${v('m2')};`, files: { b: `export const Y = ${v('m3')}; export const X = ${v('m1')};` }, want: 'm1' }),
  'import from one of two files': (v) => ({ pre: `import { Y } from './b'; import { X } from './c';`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m3')};`, c: `export const Y = ${v('m4')}; export const X = ${v('m1')};` }, want: 'm1' }),
  'renaming import': (v) => ({ pre: `import { Y as X } from './b';`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m1')};` }, want: 'm1' }),
  'renaming import next to a local of the original name': (v) => ({ pre: `import { Y as X } from './b'; const Y = ${v('m2')};`, files: { b: `export const Y = ${v('m1')};` }, want: 'm1' }),
  'renaming imports that swap two names': (v) => ({ pre: `import { X as Y, Y as X } from './b';`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m1')};` }, want: 'm1' }),
  'renaming imports of one name from two files': (v) => ({ pre: `import { Q as Y } from './b'; import { Q as X } from './c';`, files: { b: `export const Q = ${v('m2')};`, c: `export const Q = ${v('m1')};` }, want: 'm1' }),
  'export list': (v) => ({ pre: `import { X } from './b';`, files: { b: `const X = ${v('m1')}; const Y = ${v('m2')}; export { Y, X };` }, want: 'm1' }),
  'renaming export': (v) => ({ pre: `import { X } from './b';`, files: { b: `const Y = ${v('m1')}; export { Y as X };` }, want: 'm1' }),
  'renaming export next to a private declaration of the new name': (v) => ({ pre: `import { X } from './b';`, files: { b: `const X = ${v('m2')}; const Y = ${v('m1')}; export { Y as X };` }, want: 'm1' }),
  're-export': (v) => ({ pre: `import { X } from './b';`, files: { b: `export { X } from './c';`, c: `export const Y = ${v('m2')}; export const X = ${v('m1')};` }, want: 'm1' }),
  'renaming re-export': (v) => ({ pre: `import { X } from './b';`, files: { b: `export { Y as X } from './c';`, c: `export const X = ${v('m2')}; export const Y = ${v('m1')};` }, want: 'm1' }),
  'import and export again': (v) => ({ pre: `import { X } from './b';`, files: { b: `import { X } from './c'; export { X };`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'renaming import and renaming export': (v) => ({ pre: `import { X } from './b';`, files: { b: `import { Z as Y } from './c'; export { Y as X };`, c: `export const X = ${v('m2')}; export const Y = ${v('m3')}; export const Z = ${v('m1')};` }, want: 'm1' }),
  'star export': (v) => ({ pre: `import { X } from './b';`, files: { b: `export * from './c';`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'one of two star exports': (v) => ({ pre: `import { X } from './b';`, files: { b: `export * from './c'; export * from './d';`, c: `export const Y = ${v('m2')}; const X = ${v('m3')};`, d: `export const X = ${v('m1')};` }, want: 'm1' }),
  'star export of a star export': (v) => ({ pre: `import { X } from './b';`, files: { b: `export * from './c';`, c: `export * from './d';`, d: `export const X = ${v('m1')};` }, want: 'm1' }),
  'own export next to a star export of the name': (v) => ({ pre: `import { X } from './b';`, files: { b: `export * from './c'; export const X = ${v('m1')};`, c: `export const X = ${v('m2')};` }, want: 'm1' }),
  'star export next to a private declaration of the name': (v) => ({ pre: `import { X } from './b';`, files: { b: `export * from './c'; const X = ${v('m2')}; export const Z = X;`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'default export': (v) => ({ pre: `import X from './b';`, files: { b: `export const X = ${v('m2')}; const Y = ${v('m1')}; export default Y;` }, want: 'm1' }),
  'default import by name': (v) => ({ pre: `import { default as X } from './b';`, files: { b: `const Y = ${v('m1')}; export default Y;` }, want: 'm1' }),
  'index file': (v) => ({ pre: `import { X } from './d';`, files: { 'd/index': `export const X = ${v('m1')};` }, want: 'm1' }),
  'other directory': (v) => ({ pre: `import { X } from './d/e';`, files: { 'd/e': `export { X } from '../b';`, b: `export const X = ${v('m1')};` }, want: 'm1' }),
  'same file name in two directories': (v) => ({ pre: `import { X } from './d/e';`, files: { 'd/e': `export { X } from './b';`, b: `export const X = ${v('m2')};`, 'd/b': `export const X = ${v('m1')};` }, want: 'm1' }),
  'namespace': (v) => ({ pre: `import * as b from './b'; const X = ${v('m2')};`, use: 'b.X', files: { b: `export const X = ${v('m1')};` }, want: 'm1' }),
  'one of two namespaces': (v) => ({ pre: `import * as b from './b'; import * as c from './c';`, use: 'c.X', files: { b: `export const X = ${v('m2')};`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'namespace of a file with a renaming export': (v) => ({ pre: `import * as b from './b';`, use: 'b.X', files: { b: `const Y = ${v('m1')}; export { Y as X };` }, want: 'm1' }),
  'namespace of a re-exporting file': (v) => ({ pre: `import * as b from './b';`, use: 'b.X', files: { b: `export { X } from './c';`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'namespace of a star-exporting file': (v) => ({ pre: `import * as b from './b';`, use: 'b.X', files: { b: `export * from './c';`, c: `export const X = ${v('m1')};` }, want: 'm1' }),
  'member of a local object': (v) => ({ pre: `const O = { Y: ${v('m2')}, X: ${v('m1')} }; const X = ${v('m3')};`, use: 'O.X', want: 'm1' }),
  'member of an imported object': (v) => ({ pre: `import { O } from './b';`, use: 'O.X', files: { b: `export const O = { Y: ${v('m2')}, X: ${v('m1')} }; export const X = ${v('m3')};` }, want: 'm1' }),
  'member of a renamed imported object': (v) => ({ pre: `import { O as Q } from './b';`, use: 'Q.X', files: { b: `export const Q = { X: ${v('m2')} }; export const O = { Y: ${v('m3')}, X: ${v('m1')} };` }, want: 'm1' }),
  'another name for a local': (v) => ({ pre: `const Y = ${v('m1')}; const X = Y;`, want: 'm1' }),
  'another name for an import': (v) => ({ pre: `import { Y } from './b'; const X = Y;`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m1')};` }, want: 'm1' }),
  'another name in the other file': (v) => ({ pre: `import { X } from './b'; const Y = ${v('m2')};`, files: { b: `const Y = ${v('m1')}; export const X = Y;` }, want: 'm1' }),
  'another name for an import of the other file': (v) => ({ pre: `import { X } from './b'; const Y = ${v('m2')};`, files: { b: `import { Z as Y } from './c'; export const X = Y;`, c: `export const Y = ${v('m3')}; export const X = ${v('m4')}; export const Z = ${v('m1')};` }, want: 'm1' }),
  'package': (v) => ({ pre: `import { X } from 'pkg';`, files: { '/q/node_modules/pkg/src/index': `export const X = ${v('m1')};` }, want: 'm1' }),
  'renaming import from a package': (v) => ({ pre: `import { Y as X } from 'pkg';`, files: { '/q/node_modules/pkg/src/index': `export const X = ${v('m2')}; export const Y = ${v('m1')};` }, want: 'm1' }),
  'package that re-exports': (v) => ({ pre: `import { X } from 'pkg';`, files: { '/q/node_modules/pkg/src/index': `export * from './inner';`, '/q/node_modules/pkg/src/inner': `export const X = ${v('m1')};` }, want: 'm1' }),
  'unknown': (v) => ({ pre: `const Y = ${v('m2')};`, want: 'error' }),
  'unknown, but another file exports it': (v) => ({ pre: `import { Y } from './b';`, files: { b: `export const X = ${v('m2')}; export const Y = ${v('m3')};` }, want: 'error' }),
  'import that is not exported': (v) => ({ pre: `import { X } from './b';`, files: { b: `const X = ${v('m2')}; export const Y = ${v('m3')};` }, want: 'error' }),
  'import that is not declared': (v) => ({ pre: `import { X } from './b';`, files: { b: `export const Y = ${v('m3')};` }, want: 'error' }),
  'original name of a renaming import': (v) => ({ pre: `import { X as Y } from './b';`, files: { b: `export const X = ${v('m2')};` }, want: 'error' }),
  'original name of a renaming export': (v) => ({ pre: `import { X } from './b';`, files: { b: `const X = ${v('m2')}; export { X as Y };` }, want: 'error' }),
  'unknown member of a namespace': (v) => ({ pre: `import * as b from './b'; const X = ${v('m2')};`, use: 'b.X', files: { b: `export const Y = ${v('m3')};` }, want: 'error' }),
  'private member of a namespace': (v) => ({ pre: `import * as b from './b';`, use: 'b.X', files: { b: `const X = ${v('m3')}; export const Y = ${v('m2')};` }, want: 'error' }),
  'unknown member of an object': (v) => ({ pre: `const O = { Y: ${v('m2')} }; const X = ${v('m3')};`, use: 'O.X', want: 'error' }),
  'member of an unknown object': (v) => ({ pre: `const X = ${v('m2')};`, use: 'O.X', want: 'error' }),
};
// parts of a spec a name can stand for
const route = (m) => `h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: t.literal('$${m}') } })`;
const PARTS = {
  path: ['text', (x) => entry('', undefined, { path: x })], 'request': [(m) => `h.httpRequest({ query: { q: t.literal('$${m}') } })`, (x) => entry('', undefined, { request: x })], 'section of a request': [(m) => `{ q: t.literal('$${m}') }`, (x) => entry('', undefined, { request: `h.httpRequest({ query: ${x} })` })],
  'codec of a section': [(m) => `t.type({ q: t.literal('$${m}') })`, (x) => entry('', undefined, { request: `h.httpRequest({ query: ${x} })` })], 'body': [(m) => `t.type({ q: t.literal('$${m}') })`, (x) => entry('', undefined, { method: 'POST', request: `h.httpRequest({ body: ${x} })` })], 'member of a request': [(m) => `h.httpRequest({ query: { q: t.literal('$${m}') } })`, (x) => entry('', undefined, { request: `t.intersection([${x}, h.httpRequest({})])` })], 'alternative of a request': [(m) => `h.httpRequest({ query: { q: t.literal('$${m}') } })`, (x) => entry('', undefined, { request: `t.union([${x}, h.httpRequest({ query: { r: t.string } })])` })],
  responses: [(m) => `{ 200: t.literal('$${m}') }`, (x) => spec(`{ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: ${x} }) } }`)], 'spread responses': [(m) => `{ 200: t.literal('$${m}') }`, (x) => spec(`{ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { ...${x} } }) } }`)],
  route: [route, (x) => spec(`{ op: { get: ${x} } }`)], methods: [(m) => `{ get: ${route(m)} }`, (x) => spec(`{ op: ${x} }`)], operations: [(m) => `{ op: { get: ${route(m)} } }`, (x) => spec(x)], 'spread operations': [(m) => `{ op: { get: ${route(m)} } }`, (x) => spec(`{ ...${x} }`)], 'spread spec': [(m) => `h.apiSpec({ op: { get: ${route(m)} } })`, (x) => spec(`{ ...${x}, other: { put: h.httpRoute({ path: '/other', method: 'PUT', request: h.httpRequest({}), response: { 200: t.string } }) } }`)],
};
const spec = (x) => `${IMPORTS}\nexport const api = h.apiSpec(${x});`;
const fileMap = (b, text) => {
  const files = { '/p/index.ts': text.replace('\nexport const api', '\n' + b.pre.replace(/\$/g, '$$$$') + '\nexport const api') + '\n' + (b.post || '') };
  for (const [n, t] of Object.entries(b.files || {})) files[(n.startsWith('/') ? n : '/p/' + n) + '.ts'] = lib(t);
  return files;
};
const PACKAGES = { pkg: { dir: '/q/node_modules/pkg', json: { name: 'pkg', source: 'src/index.ts' } } };
// names that are another name for a name, and members of objects, are not followed everywhere: the
// generator fails, or leaves the place open
const soft = (bn, un) => /^another name/.test(bn) || (un === 'call' && /^member of/.test(bn)) || (/^member of/.test(bn) && un in PARTS)
  || (/namespace/.test(bn) && un === 'operations') || (/package/.test(bn) && /of a request$/.test(un));
function G14(ctx) {
  ctx.limit = 60e3;
  const where = at('resolveInit.ts');
  const one = (name, bn, un, b, text) => scenario(ctx, name, () => runs(ctx, fileMap(b, text), (r) => {
    const o = outcome(ctx, r, name);
    if (!o) return;
    const show = () => key(get(r.doc, 'paths') || { V: T.undef }).slice(0, 200);
    if (b.want === 'error') { ctx.check(o === 'error', `${name}: the generator prints ${o === 'doc' ? show() : ''} instead of failing`, where, 'unknown name: ' + bn + ' / ' + un); return; }
    if (o === 'error') { ctx.check(soft(bn, un), `${name}: the generator fails: ${r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: ' + bn + ' / ' + un); return; }
    const m = [...marks(r.doc, get(r.doc, 'paths'))].filter((x) => /^m\d|reference/.test(x)).sort();
    ctx.check(m.length === 1 && m[0] === b.want || (!m.length && soft(bn, un)), `${name}: it stands for ${m.join(', ') || 'nothing'} instead of ${b.want}: ${show()}`, where, 'resolves: ' + bn + ' / ' + un);
  }, { packages: PACKAGES }));
  for (const [bn, binding] of Object.entries(BINDINGS)) {
    for (const [un, [kind, use]] of Object.entries(USES)) { const b = binding(VALUES[kind]); one(`${un} of a name bound by ${bn}`, bn, un, b, entry('', use(b.use || 'X'))); }
    for (const [un, [kind, text]] of Object.entries(PARTS)) { const b = binding(VALUES[kind] || kind); one(`${un} of a name bound by ${bn}`, bn, un, b, text(b.use || 'X')); }
  }
}
module.exports = { G14, entry, lib, marks, refName, runs, outcome, response, operation, said, failed, IMPORTS, at, PACKAGES };
