'use strict';
// Rules over whole runs of the generator: which routes a document has (G18), and where its title, version,
// description, servers and custom codecs come from (G17).
const { T, scenario } = require('./lib');
const { key, get, isOpen } = require('./shapes');
const { lib, marks, runs, outcome, operation, said, IMPORTS, at } = require('./project');

// ---------- G18: routes
// a route of its own: text and what is wanted of it
let uniq = 0;
function route(o) {
  o = o || {};
  const n = ++uniq; const m = o.method || 'GET';
  return { n, path: `/r${n}`, method: m, text: `h.httpRoute({ path: ${o.path ? o.path(`/r${n}`) : `'/r${n}'`}, method: ${o.verb ? o.verb(m) : `'${m}'`}, request: h.httpRequest({ query: { q: t.literal('$q${n}') } }), response: ${o.response ? o.response(`t.literal('$s${n}')`) : `{ 200: t.literal('$s${n}') }`} })`, pre: o.pre ? o.pre(`/r${n}`, m, `t.literal('$s${n}')`) : '' };
}
const verb = (r) => r.method.toLowerCase();
// ways to give a value x (text) at a place: [text, declarations, files]; 'may': may be rejected
const GIVEN = {
  inline: (x) => [x],
  'a constant': (x) => ['V', `const V = ${x};`],
  'a constant declared later': (x) => ['V', '', {}, `const V = ${x};`],
  'an exported constant': (x) => ['V', `export const V = ${x};`],
  'another name of a constant': (x) => ['W', `const V = ${x}; const W = V;`],
  'an import': (x) => ['V', `import { V } from './v';`, { v: lib(`export const U = 1; export const V = ${x};`) }],
  'a renaming import': (x) => ['W', `import { V as W } from './v';`, { v: lib(`export const W = {}; export const V = ${x};`) }],
  'a default import': (x) => ['V', `import V from './v';`, { v: lib(`const U = ${x}; export default U;`) }],
  'a re-export': (x) => ['V', `import { V } from './w';`, { w: `export { U as V } from './v';`, v: lib(`export const V = {}; export const U = ${x};`) }],
  'a star re-export': (x) => ['V', `import { V } from './w';`, { w: `export * from './v';`, v: lib(`export const V = ${x};`) }],
  'a member of a namespace': (x) => ['v.V', `import * as v from './v';`, { v: lib(`export const U = {}; export const V = ${x};`) }],
};
const RGIVEN = Object.assign({}, GIVEN, {
  'an assertion (may be rejected)': (x) => [`(${x} as const)`.replace(/^\(|\)$/g, '')],
  'a call of a function (may be rejected)': (x) => ['V()', `const V = () => ${x};`],
  'a member of an object (may be rejected)': (x) => ['O.V', `const O = { U: h.httpRoute({ path: '/wrong', method: 'GET', request: h.httpRequest({}), response: {} }), V: ${x} };`],
  'a choice (may be rejected)': (x) => [`true ? ${x} : ${x}`],
});
const groupOf = (...rs) => `{ ${rs.map((r) => `${verb(r)}: ${r.text}`).join(', ')} }`;
const specOf = (...gs) => `{ ${gs.map((g, i) => `op${i}: ${g}`).join(', ')} }`;
function operations(doc) {
  const out = []; const paths = get(doc, 'paths');
  for (const [p, o] of (paths && paths.O) || []) for (const [m, op] of (o.O || [])) out.push({ path: p.k === 'const' ? p.v : T.show(p), method: m.k === 'const' ? m.v : T.show(m), op });
  return out;
}
function judge(ctx, name, files, want, may, key0) {
  const where = at('apiSpec.ts');
  runs(ctx, files, (r) => {
    const o = outcome(ctx, r, name);
    if (!o) return;
    if (o !== 'doc') { ctx.check(!!may, `${name}: the generator fails: ${r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: ' + key0); return; }
    const got = operations(r.doc);
    const ms = (d) => [...marks(r.doc, d)].sort().join();
    for (const w of want) {
      const hit = got.filter((g) => g.path === w.path && g.method === verb(w));
      if (!ctx.check(hit.length === 1, `${name}: the route ${w.method} ${w.path} is not in the document, which has ${got.map((g) => g.method + ' ' + g.path).join(', ') || 'none'}`, where, 'missing: ' + key0)) continue;
      const op = hit[0].op;
      ctx.check(ms(get(op, 'parameters')).split(',').includes('q' + w.n), `${name}: ${w.method} ${w.path} has not its own parameters`, where, 'parameters: ' + key0);
      for (const [code, m] of w.responses || [['200', 's' + w.n]]) {
        const s = get(op, 'responses', code, 'content', 'application/json', 'schema');
        ctx.check(s !== undefined && ms(s) === m, `${name}: the response ${code} of ${w.method} ${w.path} is ${s ? key(s).slice(0, 120) : 'missing'}`, where, 'response: ' + key0);
      }
      const codes = [...(get(op, 'responses') || { O: new Map() }).O.keys()].map((k) => (k.k === 'const' ? String(k.v) : T.show(k)));
      ctx.check(codes.length === (w.responses || [1]).length, `${name}: ${w.method} ${w.path} has the responses ${codes.join()}`, where, 'responses: ' + key0);
    }
    const extra = got.filter((g) => !want.some((w) => w.path === g.path && verb(w) === g.method));
    ctx.check(extra.length === 0, `${name}: the document has ${extra.map((g) => g.method + ' ' + g.path).join(', ')}, which is not declared`, where, 'extra: ' + key0);
  });
}
const filesOf = (src, files) => Object.assign({ '/p/index.ts': src }, Object.fromEntries(Object.entries(files || {}).map(([k, v]) => [`/p/${k}.ts`, v])));
const source = (pre, specs, post) => `${IMPORTS}${pre}\n${specs.map((s, i) => `export const api${i} = h.apiSpec(${s});`).join('\n')}\n${post || ''}`;
function G18(ctx) {
  ctx.limit = 60e3;
  const may = (f) => /may be rejected/.test(f);
  const deep = ctx.tier === 'thorough';
  const go = (name, want, build, kind, m) => scenario(ctx, name, () => { const [src, files] = build(); judge(ctx, name, filesOf(src, files), want, m, kind); });
  // one value given in every way at every place, between others
  for (const form of Object.keys(RGIVEN)) {
    const a = route(), x = route({ method: 'PUT' }), b = route({ method: 'PATCH' }), c = route({ method: 'DELETE' });
    go(`a route that is ${form}`, [a, x, b, c], () => { const [v, pre, files, post] = RGIVEN[form](x.text); return [source(pre || '', [specOf(groupOf(a), `{ patch: ${b.text}, put: ${v}, delete: ${c.text} }`)], post), files]; }, 'route: ' + form, may(form));
  }
  for (const form of Object.keys(GIVEN)) {
    { const a = route(), x = route({ method: 'PUT' }), y = route(), b = route({ method: 'PATCH' });
      go(`methods that are ${form}`, [a, x, y, b], () => { const [v, pre, files, post] = GIVEN[form](groupOf(x, y)); return [source(pre || '', [specOf(groupOf(a), v, groupOf(b))], post), files]; }, 'methods: ' + form); }
    { const a = route(), x = route({ method: 'PUT' }), y = route();
      go(`a spec that is ${form}`, [a, x, y], () => { const [v, pre, files, post] = GIVEN[form](specOf(groupOf(x, y), groupOf(a))); return [source(pre || '', [v], post), files]; }, 'spec: ' + form, form === 'a member of a namespace'); }
    for (const [how, wrap] of Object.entries({ 'an object': (s) => s, 'another spec': (s) => `h.apiSpec(${s})` })) {
      if (form === 'inline' && how === 'an object') { const a = route(), x = route(); go('an inline spread', [a, x], () => [source('', [`{ op: ${groupOf(a)}, ...${specOf(groupOf(x)).replace('op0', 'opx')} }`])], 'spread: inline'); continue; }
      const a = route(), x = route({ method: 'PUT' }), y = route(), b = route({ method: 'PATCH' });
      go(`a spread of ${how} that is ${form}`, [a, x, y, b], () => { const [v, pre, files, post] = GIVEN[form](wrap(specOf(groupOf(x), groupOf(y)))); return [source(pre || '', [`{ first: ${groupOf(a)}, ...${v}, last: ${groupOf(b)} }`], post), files]; }, 'spread: ' + form);
    }
  }
  // spreads in spreads, several spreads, several specs
  { const rs = [1, 2, 3, 4].map((i) => route()); go('spreads in spreads', rs, () => [source(`import { inner } from './v'; const outer = { a: ${groupOf(rs[0])}, ...inner, b: ${groupOf(rs[1])} };`, [`{ ...outer }`]), { v: lib(`import { innermost } from './w'; export const inner = { ...innermost, c: ${groupOf(rs[2])} };`), w: lib(`export const innermost = { d: ${groupOf(rs[3])} };`) }], 'nested spreads'); }
  { const rs = [1, 2, 3, 4].map((i) => route()); go('spreads of specs of specs', rs, () => [source(`import { inner } from './v'; const outer = h.apiSpec({ a: ${groupOf(rs[0])}, ...inner, b: ${groupOf(rs[1])} });`, [`{ ...outer }`]), { v: lib(`import { innermost } from './w'; export const inner = h.apiSpec({ ...innermost, c: ${groupOf(rs[2])} });`), w: lib(`export const innermost = h.apiSpec({ d: ${groupOf(rs[3])} });`) }], 'nested spreads'); }
  { const rs = [1, 2, 3].map((i) => route()); go('several spreads', rs, () => [source(rs.map((r, i) => `import { s as s${i} } from './v${i}';`).join('\n'), [`{ ...s0, ...s1, ...s2 }`]), Object.fromEntries(rs.map((r, i) => ['v' + i, lib(`export const s = { op: ${groupOf(r)} };`)]))], 'spreads'); }
  { const rs = [1, 2, 3].map((i) => route()); go('several specs', rs, () => [source('', rs.map((r) => specOf(groupOf(r))))], 'specs'); }
  { const rs = [1, 2, 3].map((i) => route()); go('several specs with a failing name elsewhere', rs, () => [source('const other = nowhere; const more = t.type({ a: t.string });', rs.map((r) => specOf(groupOf(r))))], 'specs'); }
  { const rs = [1, 2].map((i) => route()); go('specs that are not exported', rs, () => [`${IMPORTS}const a = h.apiSpec(${specOf(groupOf(rs[0]))});\nlet b = h.apiSpec(${specOf(groupOf(rs[1]))});`], 'specs'); }
  for (const [how, imp, call] of [['by name', `import { apiSpec } from '@api-ts/io-ts-http';`, 'apiSpec'], ['by another name', `import { apiSpec as spec } from '@api-ts/io-ts-http';`, 'spec'], ['of another namespace', `import * as http from '@api-ts/io-ts-http';`, 'http.apiSpec']]) { const a = route(), b = route(); go(`apiSpec imported ${how}`, [a, b], () => [`${imp}\n${IMPORTS}export const one = ${call}(${specOf(groupOf(a))});\nexport const two = h.apiSpec(${specOf(groupOf(b))});`], 'import of apiSpec'); }
  // what is no spec of the entry file is not in the document
  { const a = route(), b = route(); go('routes that belong to no spec', [a], () => [source(`import { other } from './v'; export const unused = ${b.text}; export const group = ${groupOf(route())};`, [specOf(groupOf(a))]), { v: lib(`export const other = h.apiSpec(${specOf(groupOf(route()))});`) }], 'no spec'); }
  { const a = route(); go('a function of the same name of another module', [a], () => [`import { apiSpec } from './v';\n${IMPORTS}export const other = apiSpec(${specOf(groupOf(route()))});\nexport const api = h.apiSpec(${specOf(groupOf(a))});`, { v: lib('export const apiSpec = (x) => x;') }], 'no spec'); }
  { const a = route(); go('another function of the module', [a], () => [source(`const other = h.other(${specOf(groupOf(route()))}); const more = other.apiSpec(${specOf(groupOf(route()))});`, [specOf(groupOf(a))])], 'no spec'); }
  for (const [how, imp, call] of [['by name', `import { other } from '@api-ts/io-ts-http';`, 'other'], ['by another name', `import { other as more } from '@api-ts/io-ts-http';`, 'more'], ['as apiSpec', `import { other as apiSpec } from '@api-ts/io-ts-http';`, 'apiSpec'], ['of another module', `import { other as apiSpec } from 'other';`, 'apiSpec'], ['of a namespace of another module', `import * as o from 'other';`, 'o.apiSpec'], ['of a namespace', '', 'h.other'], ['of a local object', 'const o = { apiSpec: (x) => x };', 'o.apiSpec'], ['of a member', '', 'h.other.apiSpec'], ['local', 'const apiSpec = (x) => x;', 'apiSpec']]) { const a = route(); go(`another function imported ${how}`, [a], () => [`${imp}\n${IMPORTS}const other = ${call}(${specOf(groupOf(route()))});\nexport const api = h.apiSpec(${specOf(groupOf(a))});`], 'no spec: ' + how); }
  // names of operations and methods say nothing
  for (const n of ['get', 'path', "'api.v1.thing'", '__proto_', 'constructor1', '1']) { const a = route(), b = route(); go(`an operation called ${n}`, [a, b], () => [source('', [`{ other: ${groupOf(a)}, ${n}: ${groupOf(b)} }`])], 'name of the operation'); }
  { const all = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH'].map((m) => route({ method: m })); go('every method in one operation', all, () => [source('', [specOf(groupOf(...all))])], 'methods'); }
  for (const m of ['GET', 'POST', 'PUT', 'DELETE', 'PATCH']) { const r = route({ method: m }); const s = route({ method: m }); s.path = r.path + '/x'; s.text = s.text.replace(/path: '[^']*'/, `path: '${s.path}'`); go(`${m} at two paths`, [r, s], () => [source('', [specOf(groupOf(r), groupOf(s))])], 'methods'); }
  { const a = route({ method: 'GET' }), b = route({ method: 'POST' }); b.path = a.path; b.text = b.text.replace(/path: '[^']*'/, `path: '${a.path}'`); go('two methods of one path in two operations', [a, b], () => [source('', [specOf(groupOf(a), groupOf(b))])], 'methods'); }
  // paths and methods written in every way
  const TEXTS = { 'a constant': (x) => ['V', `const V = '${x}';`], 'another name of a constant (may be rejected)': (x) => ['W', `const V = '${x}'; const W = V;`], 'an import': (x) => ['V', `import { V } from './v';`, { v: `export const U = 'wrong'; export const V = '${x}';` }], 'a renaming import': (x) => ['W', `import { V as W } from './v';`, { v: `export const W = 'wrong'; export const V = '${x}';` }], 'a template': (x) => [`\`${x}\``], 'a template with a constant': (x) => [`\`${x.slice(0, 1)}\${V}\``, `const V = '${x.slice(1)}';`], 'an assertion': (x) => [`'${x}' as const`], 'a constant assertion': (x) => ['V', `const V = '${x}' as const;`], 'a member of an object': (x) => ['O.v', `const O = { u: 'wrong', v: '${x}' };`], 'a member of a namespace': (x) => ['ns.V', `import * as ns from './v';`, { v: `export const U = 'wrong'; export const V = '${x}';` }], 'a member of an enum': (x) => ['En.V', `enum En { U = 'wrong', V = '${x}' }`], 'a sum (may be rejected)': (x) => [`'${x.slice(0, 1)}' + '${x.slice(1)}'`], 'a call (may be rejected)': (x) => [`V('${x}')`, 'const V = (x) => x;'] };
  for (const [form, f] of Object.entries(TEXTS)) for (const what of ['path', 'method']) {
    const r0 = route({ method: 'PUT' }); const a = route();
    const [v, pre, files] = f(what === 'path' ? r0.path : 'PUT');
    const txt = r0.text.replace(what === 'path' ? `path: '${r0.path}'` : `method: 'PUT'`, `${what}: ${v}`);
    go(`a ${what} that is ${form}`, [r0, a], () => [source(pre || '', [`{ op0: { put: ${txt} }, op1: ${groupOf(a)} }`]), files], `${what}: ${form}`, may(form) || (what === 'method' && /member of an enum/.test(form)));
  }
  // responses written in every way, with several statuses
  const two = (n) => [['200', 's' + n], ['404', 'e' + n], ['500', 'f' + n]];
  const body = (n) => `200: t.literal('$s${n}'), 404: t.literal('$e${n}'), 500: t.type({ x: t.literal('$f${n}') })`;
  const RESP = { inline: (n) => [`{ ${body(n)} }`], 'in another order': (n) => [`{ ${body(n).split(/, (?=\d)/).reverse().join(', ')} }`], 'a constant': (n) => ['V', `const V = { ${body(n)} };`], 'an import': (n) => ['V', `import { V } from './v';`, { v: lib(`export const U = {}; export const V = { ${body(n)} };`) }], 'a spread': (n) => [`{ ...V, 500: t.type({ x: t.literal('$f${n}') }) }`, `const V = { ${body(n).replace(/, 500.*/, '')} };`], 'a spread of an import': (n) => [`{ 200: t.literal('$s${n}'), ...V }`, `import { V } from './v';`, { v: lib(`export const V = { ${body(n).replace(/^200[^,]*, /, '')} };`) }], 'a spread that is overridden': (n) => [`{ ...V, 404: t.literal('$e${n}') }`, `const V = { ${body(n).replace('$e', '$wrong')} };`], 'an assignment': (n) => [`Object.assign({}, V, { 500: t.type({ x: t.literal('$f${n}') }) })`, `const V = { ${body(n).replace(/, 500.*/, '')} };`], 'quoted statuses': (n) => [`{ ${body(n).replace(/(\d+):/g, "'$1':")} }`], 'computed statuses': (n) => [`{ ${body(n).replace('404:', '[NF]:')} }`, 'const NF = 404;'], 'a constant assertion': (n) => [`{ ${body(n)} } as const`], 'named codecs': (n) => [`{ 200: A, 404: B, 500: t.type({ x: C }) }`, `const A = t.literal('$s${n}'); const B = t.literal('$e${n}'); const C = t.literal('$f${n}');`] };
  for (const [form, f] of Object.entries(RESP)) {
    const r = route(); const [v, pre, files] = f(r.n); r.responses = two(r.n); const a = route();
    r.text = r.text.replace(/response: \{.*\} \}\)$/, `response: ${v} })`);
    go(`responses that are ${form}`, [r, a], () => [source(pre || '', [specOf(groupOf(r), groupOf(a))]), files], 'responses: ' + form);
  }
  // routes of several files whose names are the same
  { const rs = [1, 2, 3].map(() => route()); go('routes of one name in several files', rs, () => [source(`import { R } from './v0'; import { R as R1 } from './v1'; import * as v2 from './v2';`, [`{ a: { get: R }, b: { get: R1 }, c: { get: v2.R } }`]), Object.fromEntries(rs.map((r, i) => ['v' + i, lib(`const C = t.literal('$s${r.n}'); export const R = ${r.text.replace(/t\.literal\('\$s\d+'\)/, 'C')};`)]))], 'equal names'); }
  // whole files of equal names
  const named = (r, imp, spec) => `${imp || ''} const C = t.literal('$s${r.n}'); const L = t.literal('$q${r.n}'); const RS = { 200: C }; const QS = { q: L }; const Q = h.httpRequest({ query: QS }); const P = '${r.path}'; const M = '${r.method}';\nexport const R = h.httpRoute({ path: P, method: M, request: Q, response: RS }); export const G = { ${verb(r)}: R }; export const S = { op: G };${spec ? ' export const A = h.apiSpec(S);' : ''}`;
  const WAYS = { route: ['R as R2', (r) => `{ own: G, x: { ${verb(r)}: R2 } }`], group: ['G as G2', () => '{ own: G, x: G2 }'], spread: ['S as S2', () => '{ own: G, ...S2 }'], 'spread first': ['S as S2', () => '{ ...S2, own: G }'], 'spread of a spec': ['A as A2', () => '{ own: G, ...A2 }'], spec: ['S as S2', () => ['S2', 'S']], 'spec after the own': ['S as S2', () => ['S', 'S2']] };
  for (const [wn, [imp, spec]] of Object.entries(WAYS)) for (const chain of [false, true]) {
    const e = route({ method: 'POST' }), r = route({ method: 'PUT' });
    go(`files of equal names (${wn}${chain ? ', through a third' : ''})`, [e, r], () => {
      const inner = named(r, '', true); const other = route({ method: 'DELETE' });
      const files = chain ? { v: lib(`${named(other, `import { ${imp.replace(/ as .*/, '')} as Theirs } from './w';`)} export { Theirs as Handed };`), w: lib(inner) } : { v: lib(inner) };
      return [source(`import { ${chain ? imp.replace(/^\w+/, 'Handed') : imp} } from './v'; ${named(e)}`, [].concat(spec(r))), files];
    }, 'equal names: ' + wn);
  }
  // parts of a file that mix its own names and imported ones
  for (const mixed of ['group', 'spec', 'route', 'responses', 'request', 'section']) {
    const e = route({ method: 'POST' }), r = route({ method: 'PUT' }), o = route({ method: 'PATCH' });
    go(`a file whose ${mixed} has names of its own and of another file`, [e, r].concat(mixed === 'spec' || mixed === 'group' ? [o] : []), () => {
      const v = { group: [`import { R as RW } from './w'; ${named(r)} export const X = { op: { ${verb(r)}: R, ${verb(o)}: RW } };`, o], spec: [`import { G as GW } from './w'; ${named(r)} export const X = { op: G, more: GW };`, o],
        route: [`import { RS as RSW, QS as QSW } from './w'; const P = '${r.path}'; const M = 'PUT'; export const X = { op: { put: h.httpRoute({ path: P, method: M, request: h.httpRequest({ query: QSW }), response: RSW }) } };`, r],
        responses: [`import { C as CW } from './w'; const L = t.literal('$q${r.n}'); const RS = { 200: CW }; export const X = { op: { put: h.httpRoute({ path: '${r.path}', method: 'PUT', request: h.httpRequest({ query: { q: L } }), response: RS }) } };`, r],
        request: [`import { Q as QW } from './w'; const C = t.literal('$s${r.n}'); const RS = { 200: C }; export const X = { op: { put: h.httpRoute({ path: '${r.path}', method: 'PUT', request: QW, response: RS }) } };`, r],
        section: [`import { L as LW } from './w'; const C = t.literal('$s${r.n}'); export const X = { op: { put: h.httpRoute({ path: '${r.path}', method: 'PUT', request: h.httpRequest({ query: { q: LW } }), response: { 200: C } }) } };`, r] }[mixed];
      return [source(`import { X } from './v'; ${named(e)}`, ['{ own: G, ...X }']), { v: lib(v[0]), w: lib(named(v[1]).replace(/\bconst (C|L|RS|QS|Q) =/g, 'export const $1 =')) }];
    }, 'equal names: ' + mixed);
  }
  if (deep) for (const f1 of Object.keys(GIVEN)) for (const f2 of Object.keys(GIVEN)) {
    const a = route(), x = route({ method: 'PUT' }), y = route();
    const rn = (s, k) => s.replace(/\bV\b/g, 'V' + k).replace(/\bW\b/g, 'W' + k).replace(/\bU\b/g, 'U' + k).replace(/'\.\/v'/g, `'./v${k}'`).replace(/'\.\/w'/g, `'./w${k}'`).replace(/\bv\./g, `v${k}.`).replace(/\* as v\b/g, `* as v${k}`);
    const wrap = (form, k, text) => { const [v, pre, files, post] = GIVEN[form]('@@'); const sub = (s) => rn(s, k).replace('@@', text); return { v: sub(v), pre: sub(pre || ''), post: sub(post || ''), files: Object.fromEntries(Object.entries(files || {}).map(([n, s]) => [n + k, sub(s)])) }; };
    const r1 = wrap(f1, 1, x.text); const gr = `{ put: ${r1.v} }`;
    if (f2 !== 'inline' && f1 !== 'inline' && /import|re-export|namespace/.test(f2)) { // the route is known in the file of the methods
      const g2 = wrap(f2, 2, gr); const files = Object.assign({}, g2.files, r1.files);
      for (const k of Object.keys(g2.files)) if (g2.files[k].includes(gr)) files[k] = `${r1.pre}\n${g2.files[k]}\n${r1.post}`;
      go(`methods that are ${f2} of a route that is ${f1}`, [a, x, y], () => [source(g2.pre, [specOf(groupOf(a), g2.v, groupOf(y))], g2.post), files], 'both');
    } else { const g2 = wrap(f2, 2, gr); go(`methods that are ${f2} of a route that is ${f1}`, [a, x, y], () => [source(`${r1.pre}\n${g2.pre}`, [specOf(groupOf(a), g2.v, groupOf(y))], `${r1.post}\n${g2.post}`), Object.assign({}, r1.files, g2.files)], 'both'); }
  }
}

// ---------- G17: where the head of the document, its servers and its custom codecs come from
const C = require('./cli');
const { blocks } = require('./comments');
const LIT = (n) => T.sym('lit:string:' + n);
const OPTIONS = { name: ['name', 'n'], version: ['version', 'v'], description: ['description', 'd'], 'codec-file': ['codec-file', 'c'] };
// a module of custom codecs; leaves of the table are schemas, or '()' for the codec that describes arrays of its argument
const codecModule = (table) => (W, st) => W.heap(st, { default: W.I.native('codecs', (s1, _t, a) => {
  const right = (s, v) => W.I.callMethod(s, a[0], T.K('right'), [v], null);
  const leaf = (x) => W.I.native('custom codec', (s, _s, b) => (x === '()' ? right(s, W.heap(s, { type: 'array', items: b[1] })) : typeof x === 'string' ? right(s, W.heap(s, { type: 'string', enum: [LIT(x)] })) : right(s, W.heap(s, x))));
  const go = (t) => W.heap(s1, Object.fromEntries(Object.entries(t).map(([k, v]) => [k, typeof v === 'object' && !v.type ? go(v) : leaf(v)])));
  return [{ st: s1, v: go(table) }];
}) });
const pkgs = (o) => Object.fromEntries(Object.entries(o).map(([n, file]) => [n, { dir: '/q/node_modules/' + n, json: Object.assign({ name: n }, file && { customCodecFile: file }) }]));
function G17(ctx) {
  ctx.limit = 60e3;
  const where = at('cli.ts');
  const deep = ctx.tier === 'thorough';
  const fails = (r) => (r.thrown ? T.show(r.thrown) : said(r));
  const run = (name, files, o, f, kind) => scenario(ctx, name, () => runs(ctx, files, (r) => {
    const oc = outcome(ctx, r, name);
    if (!oc) return;
    if (f === 'error') { ctx.check(oc === 'error', `${name}: the generator prints a document`, where, 'accepted: ' + kind); return; }
    if (!ctx.check(oc === 'doc', `${name}: the generator fails: ${oc === 'doc' ? '' : fails(r)}`, where, 'fails: ' + kind)) return;
    f(r);
  }, o));
  // the command line
  scenario(ctx, 'the options of the command', () => {
    const { VP } = require('./source');
    const W = new VP(ctx, { '/p/index.ts': '' }, {});
    if (!W.handler()) return;
    const opts = W.options();
    ctx.check(opts.has('') && opts.get('').kind === 'positional', 'the command takes no file', where, 'anchor:positional');
    for (const [long, short] of Object.values(OPTIONS)) {
      const o = opts.get(long);
      if (!ctx.check(!!o, `the command has no option --${long}`, where, 'option: ' + long)) continue;
      ctx.check(o.short === short, `the option --${long} is called -${o.short} for short instead of -${short}`, where, 'short: ' + long);
      ctx.check(o.kind === 'option' ? true : undefined, `--${long} is a ${o.kind}`, where, 'option: ' + long);
      const t = T.show(o.type);
      ctx.check(/optional/.test(t) && /#string/.test(t) ? true : undefined, `the option --${long} is ${t}`, where, 'type: ' + long);
    }
    const shorts = [...opts.values()].map((o) => o.short).filter((x) => x !== undefined);
    ctx.check(new Set(shorts).size === shorts.length, `two options have the same short name (${shorts.join()})`, where, 'shorts');
    ctx.use(W.I);
  });
  // title, version and description
  const src = source('', [specOf(groupOf(route()))]);
  const info = (r, k) => { const g = get(r.doc, 'info', k); return g && g.V; };
  const head = (name, files, json, args, want, kind) => run(name, files, { json, args, entry: Object.keys(files)[0] }, (r) => {
    for (const [k, w] of Object.entries(want)) {
      const v = info(r, k);
      if (v && w && w.k === 'has') { ctx.check(T.mentions(v, (x) => x === w.t || (x.k === 'const' && typeof x.v === 'string' && w.t.k === 'const' && x.v.includes(w.t.v))), `${name}: the ${k} is ${T.show(v)}, which does not tell ${T.show(w.t)}`, where, `${k}: ${kind}`); continue; }
      ctx.check(v !== undefined && (w === undefined ? v.k === 'const' && typeof v.v === 'string' && v.v !== '' : v === w), `${name}: the ${k} is ${v ? T.show(v) : 'missing'} instead of ${w ? T.show(w) : 'a default'}`, where, `${k}: ${kind}`);
    }
  }, 'head');
  const subsets = (xs) => xs.reduce((acc, x) => acc.concat(acc.map((s) => s.concat(x))), [[]]);
  const KEYS = ['name', 'version', 'description'];
  const titleOf = { name: 'title', version: 'version', description: 'description' };
  for (const given of subsets(KEYS)) for (const declared of [undefined, ...subsets(KEYS)]) {
    const args = Object.fromEntries(given.map((k) => [k, LIT('option ' + k)]));
    const json = declared ? { '/p/package.json': Object.fromEntries([['private', true], ['title', 'wrong'], ['main', 'wrong'], ...declared.map((k) => [k, 'package ' + k])]) } : {};
    const want = {};
    for (const k of KEYS) want[titleOf[k]] = given.includes(k) ? args[k] : declared && declared.includes(k) ? T.K('package ' + k) : undefined;
    if (want.description === undefined) { want.description = { k: 'has', t: want.title || T.K('openapi-generator') }; }
    head(`options ${given.join() || 'none'}, package.json ${declared ? declared.join() || 'without fields' : 'missing'}`, { '/p/index.ts': src }, json, args, want, `${given.length ? 'options' : ''}${declared ? ' package' : ''}`);
  }
  for (const k of KEYS) {
    head(`an empty --${k}`, { '/p/index.ts': src }, { '/p/package.json': { name: 'package name', version: 'package version', description: 'package description' } }, { [k]: '' }, { [titleOf[k]]: T.K('') }, 'empty option');
    head(`an empty ${k} in package.json`, { '/p/index.ts': src }, { '/p/package.json': { name: 'package name', version: 'package version', description: 'package description', [k]: '' } }, {}, { [titleOf[k]]: T.K('') }, 'empty field');
  }
  // the package.json nearest to the file, and no other
  const dirs = ['/p', '/p/a', '/p/a/b', '/p/a/b/c', '/p/other'];
  for (const present of subsets(dirs)) for (const dir of ['/p', '/p/a', '/p/a/b']) {
    if (!present.length || (!deep && present.length > 3)) continue;
    for (const k of [undefined, 'version', 'name', 'description']) {
      if (k && (present.length > 2 || (!deep && dir === '/p'))) continue;
      const json = Object.fromEntries(present.map((d) => [`${d}/package.json`, { name: 'name of ' + d, version: 'version of ' + d, description: 'description of ' + d }]));
      const near = present.filter((d) => d === dir || dir.startsWith(d + '/')).sort((x, y) => y.length - x.length)[0];
      if (k && near) delete json[near + '/package.json'][k];
      const want = near ? { title: T.K('name of ' + near), version: T.K('version of ' + near), description: T.K('description of ' + near) } : { title: undefined, version: undefined };
      if (k && near) { want[titleOf[k]] = k === 'description' ? { k: 'has', t: want.title } : undefined; }
      if (k && near) { const far = (w) => w && w.k === 'const' && !w.v.includes(near); if (Object.values(want).some(far)) continue; }
      head(`a file of ${dir} with package.json in ${present.join()}${k ? `, the nearest without ${k}` : ''}`, { [`${dir}/index.ts`]: src }, json, {}, want, 'nearest');
      if (k && near && k !== 'description') run(`the ${k} of a package.json further off (${dir}; ${present.join()})`, { [`${dir}/index.ts`]: src }, { json, entry: `${dir}/index.ts` }, (r) => { const v = info(r, titleOf[k]); ctx.check(v && v.k === 'const' && !/ of \//.test(v.v), `a file of ${dir} with package.json in ${present.join()}, the nearest without ${k}: the ${k} is ${v ? T.show(v) : 'missing'}`, where, 'nearest: further off'); }, 'head');
    }
  }
  // servers: one for every spec with a url, in the order of the specs
  const comment = { none: [''], url: ['/**\n * @url https://@@\n */', { url: 'https://@@', description: '' }], 'url and description': ['/**\n * The server @@\n *\n * @url https://@@\n */', { url: 'https://@@', description: 'The server @@' }], 'on one line': ['/** @url https://@@ */', { url: 'https://@@', description: '' }], 'text only': ['/**\n * Text of @@\n */'], 'other tags': ['/**\n * Text @@\n *\n * @version 1.2.3\n * @server https://wrong\n */'], 'other tags and url': ['/**\n * Text @@\n *\n * @version 1.2.3\n * @url https://@@\n */', { url: 'https://@@', description: 'Text @@' }], 'a plain comment': ['/* @url https://wrong */'], 'a line comment': ['// @url https://wrong'] };
  const servers = (name, list) => {
    const rs = list.map(() => route());
    const text = `${IMPORTS}${list.map(([c, form], i) => { const x = `h.apiSpec(${specOf(groupOf(rs[i]))})`; return `${comment[c][0].replace(/@@/g, 's' + i)}\n${form === 'plain' ? `const api${i} = ${x};` : form === 'between' ? `export const api${i} = ${x};\n/**\n * @url https://wrong\n */\nconst between${i} = t.string;\n` : `export const api${i} = ${x};`}`; }).join('\n')}\n`;
    run(name, { '/p/index.ts': text, '/p/other.ts': lib('/**\n * @url https://wrong\n */\nexport const api = h.apiSpec({});') }, { real: true, blocks }, (r) => {
      const want = list.map(([c], i) => comment[c][1] && { url: comment[c][1].url.replace('@@', 's' + i), description: comment[c][1].description.replace('@@', 's' + i) }).filter((x) => x);
      const got = get(r.doc, 'servers');
      if (!want.length) { ctx.check(got === undefined || (got.A && !got.A.length), `${name}: the document has the servers ${got ? key(got).slice(0, 160) : ''}`, where, 'servers: none'); return; }
      if (!ctx.check(!!got && !!got.A && got.A.length === want.length, `${name}: the document has ${got && got.A ? got.A.length : 0} servers instead of ${want.length}: ${got ? key(got).slice(0, 160) : ''}`, where, 'servers: number')) return;
      want.forEach((w, i) => { for (const k of ['url', 'description']) { const v = get(got.A[i], k); const x = v && v.V; if (x && x.k !== 'const') { ctx.check(undefined, `${name}: the ${k} is ${T.show(x)}`); continue; } ctx.check((x ? x.v : '') === w[k], `${name}: the ${k} of server ${i} is ${JSON.stringify(x && x.v)} instead of ${JSON.stringify(w[k])}`, where, 'servers: ' + k); } });
      const op = operation(r.doc, rs[0].path, 'get'); ctx.check(!!op, `${name}: the first spec has no route`, where, 'servers: routes');
    }, 'servers');
  };
  const cs = Object.keys(comment);
  for (const c of cs) for (const f of ['exported', 'plain']) servers(`a spec (${f}) with ${c}`, [[c, f]]);
  for (const c of cs) for (const d of cs) if (deep || c === 'url and description' || d === 'url and description' || c === d) servers(`a spec with ${c} and one with ${d}`, [[c, 'between'], [d, 'exported']]);
  servers('three servers', [['url', 'plain'], ['url and description', 'between'], ['on one line', 'exported']]);
  servers('servers next to a spec without one', [['url', 'exported'], ['none', 'plain'], ['url and description', 'exported'], ['text only', 'exported']]);
  // custom codecs
  const IMP = { named: [`import { Odd } from 'odd';`, 'Odd'], renamed: [`import { Odd as Even } from 'odd';`, 'Even'], namespace: [`import * as o from 'odd';`, 'o.Odd'] };
  const uses = { response: (x) => C.CODEC_PLACES['response'] || undefined };
  const entryOf = (pre, use, o) => require('./project').entry(pre, use, o);
  const described = (r, d, m, what, kind) => { const ms = [...marks(r.doc, d)].filter((x) => /^c /.test(x) || /reference/.test(x)); ctx.check(ms.length === 1 && ms[0] === m, `${what} is described by ${ms.join() || 'nothing'} instead of ${m}: ${d ? key(d).slice(0, 140) : 'missing'}`, where, kind); };
  const ok = (r) => get(operation(r.doc), 'responses', '200', 'content', 'application/json', 'schema');
  const FILES = {
    'the option': [{ codecFile: '/c/codecs.js' }, {}, { '/c/codecs.js': 'c a' }],
    'the option, relative': [{ codecFile: 'conf/codecs.js' }, {}, { '/work/conf/codecs.js': 'c a', '/p/conf/codecs.js': 'c b' }],
    'package.json': [{}, { '/p/package.json': { 'openapi-generator': { 'codec-file': 'codecs.js' } } }, { '/p/codecs.js': 'c a', '/work/codecs.js': 'c b' }],
    'package.json, in a directory': [{}, { '/p/package.json': { 'openapi-generator': { 'codec-file': './conf/codecs.js' } } }, { '/p/conf/codecs.js': 'c a', '/work/conf/codecs.js': 'c b' }],
    'package.json, above it': [{}, { '/p/package.json': { 'openapi-generator': { 'codec-file': '../codecs.js' } } }, { '/codecs.js': 'c a', '/p/codecs.js': 'c b' }],
    'the package.json above the file': [{}, { '/package.json': {}, '/p/package.json': { 'openapi-generator': { 'codec-file': 'codecs.js' } } }, { '/p/codecs.js': 'c a', '/p/a/codecs.js': 'c b', '/p/a/b/codecs.js': 'c d', '/work/codecs.js': 'c e' }, '/p/a/b'],
    'the nearest package.json': [{}, { '/p/package.json': { 'openapi-generator': { 'codec-file': 'codecs.js' } }, '/p/a/package.json': { 'openapi-generator': { 'codec-file': 'conf/codecs.js' } } }, { '/p/a/conf/codecs.js': 'c a', '/p/codecs.js': 'c b', '/p/conf/codecs.js': 'c d' }, '/p/a/b'],
    'the option and package.json': [{ codecFile: '/c/codecs.js' }, { '/p/package.json': { 'openapi-generator': { 'codec-file': 'codecs.js' } } }, { '/c/codecs.js': 'c a', '/p/codecs.js': 'c b' }],
    'package.json with other settings': [{}, { '/p/package.json': { 'codec-file': 'wrong.js', 'openapi-generator': { other: 'wrong.js', 'codec-file': 'codecs.js' } } }, { '/p/codecs.js': 'c a', '/p/wrong.js': 'c b' }],
  };
  const mods = (m, f) => Object.fromEntries(Object.entries(m).map(([p, x]) => [p, codecModule(f(x))]));
  for (const [fn, [args, json, table, dir]] of Object.entries(FILES)) for (const [im, [pre, use]] of Object.entries(IMP)) for (const pk of [false, true, 'typed']) {
    const name = `a codec of the file of ${fn} (${im}${pk === 'typed' ? ', of a package with types' : pk ? ', of an installed package' : ''})`;
    const index = `${dir || '/p'}/index.ts`;
    const files = { [index]: entryOf(pre, use) };
    const packages = pk ? pkgs({ odd: undefined }) : {};
    if (pk === 'typed') { packages.odd.json.source = 'src/index.ts'; files['/q/node_modules/odd/src/index.ts'] = lib(`export const Odd = t.literal('$c source');`); }
    run(name, files, { args, json, packages, entry: index, modules: mods(table, (m) => ({ odd: { Odd: m, other: 'c other' }, rest: { Odd: 'c rest' } })) }, (r) => described(r, ok(r), 'c a', `${name}: ${use}`, 'codec file: ' + fn), 'codec file');
  }
  // whose names are known from where
  const scopes = { 'two packages': [`import { Odd } from 'odd'; import { Odd as Rest } from 'rest';`, { 200: ['Odd', 'c odd'], 201: ['Rest', 'c rest'] }], 'two namespaces': [`import * as a from 'odd'; import * as b from 'rest';`, { 200: ['b.Odd', 'c rest'], 201: ['a.Odd', 'c odd'], 202: ['a.Two', 'c two'] }], 'a local of the same name': [`import { Two } from 'odd'; const Odd = t.literal('$c local');`, { 200: ['Odd', 'c local'], 201: ['Two', 'c two'] }], 'a name of a file': [`import { Odd } from './b'; import * as o from 'odd';`, { 200: ['Odd', 'c file'], 201: ['o.Odd', 'c odd'] }], 'a file that uses it': [`import { Uses } from './b';`, { 200: ['Uses', 'c odd'] }], 'a file that hands it on': [`import { Handed } from './b';`, { 200: ['Handed', 'c odd'] }], 'names crossed': [`import { Odd as Two, Two as Odd } from 'odd';`, { 200: ['Odd', 'c two'], 201: ['Two', 'c odd'] }], 'a codec with an argument': [`import { wrap, Odd } from 'odd';`, { 200: ['wrap(t.literal(\'$c arg\'))', 'c arg'], 201: ['wrap(Odd)', 'c odd'], 202: [`t.type({ x: wrap(wrap(t.literal('$c inner'))) })`, 'c inner'] }], 'a constant of it': [`import { Odd, wrap } from 'odd'; const K = Odd; const W = wrap(t.literal('$c arg'));`, { 200: ['K', 'c odd'], 201: ['W', 'c arg'] }] };
  const tables = { odd: { Odd: 'c odd', Two: 'c two', wrap: '()' }, rest: { Odd: 'c rest', Two: 'c rest two' } };
  const fileB = lib(`import { Odd as O } from 'odd'; export const Odd = t.literal('$c file'); export const Uses = t.type({ o: O }); export { Odd as Handed } from 'odd';`);
  for (const [sn, [pre, resp]] of Object.entries(scopes)) for (const how of ['the codec file', 'the packages', 'the packages, one in each']) {
    if (sn === 'a file that hands it on') continue; // re-exports of packages without types are not supported
    const name = `${sn} (${how})`;
    const byPkg = { '/q/node_modules/odd/gen.js': codecModule(tables.odd), '/q/node_modules/rest/conf/gen.js': codecModule(tables.rest) };
    const o = how === 'the codec file' ? { args: { codecFile: '/c/codecs.js' }, modules: { '/c/codecs.js': codecModule(tables) } } : how === 'the packages' ? { packages: pkgs({ odd: 'gen.js', rest: 'conf/gen.js' }), modules: byPkg } : { args: { codecFile: '/c/codecs.js' }, packages: pkgs({ odd: 'gen.js' }), modules: Object.assign({ '/c/codecs.js': codecModule({ rest: tables.rest }) }, byPkg) };
    run(name, { '/p/index.ts': entryOf(pre, Object.entries(resp).map(([c, [u]], i) => (i ? `${c}: ${u}` : u)).join(', ')), '/p/b.ts': fileB }, o, (r) => {
      for (const [c, [u, m]] of Object.entries(resp)) described(r, get(operation(r.doc), 'responses', c, 'content', 'application/json', 'schema'), m, `${name}: ${u}`, 'codecs: ' + sn);
    }, 'codecs: ' + sn);
  }
  // the codec file before the package before nothing; built-in names stay
  for (const [im, [pre, use]] of Object.entries(IMP)) {
    const o = { args: { codecFile: '/c/codecs.js' }, packages: pkgs({ odd: 'gen.js' }), modules: { '/c/codecs.js': codecModule({ odd: { Odd: 'c file' } }), '/q/node_modules/odd/gen.js': codecModule({ Odd: 'c package', More: 'c more' }) } };
    run(`a name of the codec file and of the package (${im})`, { '/p/index.ts': entryOf(pre, use) }, o, (r) => described(r, ok(r), 'c file', use, 'codecs: both'), 'codecs: both');
    run(`a name of the package only, next to a codec file for it (${im})`, { '/p/index.ts': entryOf(pre.replace('Odd', 'More'), use.replace('Odd', 'More')) }, o, (r) => described(r, ok(r), 'c more', use, 'codecs: both'), 'codecs: both');
    run(`a name nobody knows (${im})`, { '/p/index.ts': entryOf(pre.replace('Odd', 'Nope'), use.replace('Odd', 'Nope')) }, o, 'error', 'codecs: unknown');
    const two = { packages: pkgs({ odd: undefined, rest: 'gen.js' }), modules: { '/q/node_modules/rest/gen.js': codecModule({ Odd: 'c rest' }) } };
    run(`a name of another package's codecs (${im})`, { '/p/index.ts': entryOf(`import { Odd as R } from 'rest'; ${pre}`, `${use}, 201: R`) }, two, 'error', 'codecs: unknown');
    run(`a module with an error for the codec (${im})`, { '/p/index.ts': entryOf(pre, use) }, { args: { codecFile: '/c/codecs.js' }, modules: { '/c/codecs.js': (W, st) => W.heap(st, { nothing: T.K(1) }) } }, 'error', 'codecs: no default export');
  }
  // names the generator knows itself, and what it knows of other packages
  for (const [m, n] of [['io-ts-types', 'NonEmptyString'], ['io-ts-types', 'More'], ['io-ts-bigint', 'BigIntFromString'], ['io-ts-numbers', 'NumberFromString']]) for (const [im, [pre, use]] of Object.entries(IMP)) {
    const at2 = (x) => x.replace(/'odd'/, `'${m}'`).replace(/Odd/g, n);
    run(`${n} of ${m} in the codec file (${im})`, { '/p/index.ts': entryOf(at2(pre), at2(use)) }, { args: { codecFile: '/c/codecs.js' }, modules: { '/c/codecs.js': codecModule({ [m]: { [n]: 'c file' } }) } }, (r) => described(r, ok(r), 'c file', at2(use), 'codecs: known name'), 'codecs: known name');
  }
  run('known names next to a codec file', { '/p/index.ts': entryOf(`import { NonEmptyString } from 'io-ts-types'; import { Odd } from 'odd';`, `t.type({ a: t.literal('$c known'), n: NonEmptyString }), 201: Odd`) }, { args: { codecFile: '/c/codecs.js' }, modules: { '/c/codecs.js': codecModule({ odd: { Odd: 'c odd', NonEmptyString: 'c wrong', array: 'c wrong', literal: 'c wrong' } }) } }, (r) => { described(r, ok(r), 'c known', 'a known codec', 'codecs: known kept'); described(r, get(operation(r.doc), 'responses', '201', 'content', 'application/json', 'schema'), 'c odd', 'a custom codec', 'codecs: known kept'); const n = get(ok(r), 'properties', 'n'); const l = n && get(n, 'minLength'); ctx.check(!!(l && l.V === T.K(1)), `NonEmptyString next to a codec file is ${n ? key(n).slice(0, 120) : 'missing'}`, where, 'codecs: known kept'); }, 'codecs: known kept');
  // parts of the program: the codecs of a package are known in every file, whichever imports it first
  for (const order of [['b', 'c'], ['c', 'b']]) run(`two files that import the package (${order})`, { '/p/index.ts': entryOf(order.map((f) => `import { ${f.toUpperCase()} } from './${f}';`).join(' '), 'B, 201: C'), '/p/b.ts': lib(`import { Odd } from 'odd'; export const B = t.array(Odd);`), '/p/c.ts': lib(`import * as o from 'odd'; export const C = t.type({ c: o.Odd });`) }, { packages: pkgs({ odd: 'gen.js' }), modules: { '/q/node_modules/odd/gen.js': codecModule({ Odd: 'c odd' }) } }, (r) => { for (const c of ['200', '201']) described(r, get(operation(r.doc), 'responses', c, 'content', 'application/json', 'schema'), 'c odd', 'response ' + c, 'codecs: two files'); }, 'codecs: two files');
  const places = Object.entries(C.CODEC_PLACES);
  for (const [i, [pn, place]] of places.entries()) for (const how of deep ? ['the codec file', 'the package'] : [i % 2 ? 'the codec file' : 'the package']) {
    const o = how === 'the package' ? { packages: pkgs({ odd: 'gen.js' }), modules: { '/q/node_modules/odd/gen.js': codecModule({ Odd: 'c odd' }) } } : { args: { codecFile: '/c/codecs.js' }, modules: { '/c/codecs.js': codecModule({ odd: { Odd: 'c odd' } }) } };
    const text = place({ pre: `import { Odd } from 'odd';`, use: 'Odd' });
    scenario(ctx, `a custom codec as ${pn} (${how})`, () => runs(ctx, typeof text === 'string' ? { '/p/index.ts': text } : text, (r) => {
      const oc = outcome(ctx, r, pn);
      if (oc !== 'doc') return; // places that take other types only
      described(r, get(r.doc, 'paths'), 'c odd', `a custom codec as ${pn} (${how})`, 'codecs: place');
    }, o));
  }
}
module.exports = { G17, G18 };
