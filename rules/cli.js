'use strict';
// Rules over whole runs of the generator: what it prints, when it fails, and its components.
const { T, P, scenario, Interp, Abort } = require('./lib');
const { key, get } = require('./shapes');
const { VP } = require('./source');
const { entry, lib, marks, refName, runs, outcome, response, operation, said, failed, IMPORTS, at, PACKAGES } = require('./project');
const ts = P.ts;

// ---------- places an expression can stand in, and expressions that cannot be resolved
const R = (o, use) => (x) => entry(x.pre, use ? use(x.use) : undefined, Object.fromEntries(Object.entries(o).map(([k, v]) => [k, v(x.use)])));
const req = (f) => R({ request: f });
const post = (f) => (x) => entry(x.pre, undefined, { method: 'POST', request: f(x.use) });
const in200 = (f) => R({}, f);
const viaLib = (f) => (x) => ({ '/p/index.ts': entry(`import { C } from './b';`, 'C'), '/p/b.ts': lib(`${x.pre}\nexport const C = ${f(x.use)};`) });
const CODEC_PLACES = {
  'response': in200((x) => x),
  'second response': (x) => entry(x.pre, `t.string, 404: ${x.use}`),
  'property': in200((x) => `t.type({ a: t.string, p: ${x} })`),
  'property before others': in200((x) => `t.type({ p: ${x}, a: t.string })`),
  'partial property': in200((x) => `t.partial({ p: ${x} })`),
  'nested property': in200((x) => `t.type({ o: t.type({ p: ${x} }) })`),
  'spread property': in200((x) => `t.type({ ...{ p: ${x} } })`),
  'property through a name': (x) => entry(`${x.pre}\nconst O = { p: ${x.use} };`, 't.type(O)'),
  'shorthand property': (x) => entry(`${x.pre}\nconst p = ${x.use};`, 't.type({ p })'),
  'array item': in200((x) => `t.array(${x})`),
  'alternative': in200((x) => `t.union([t.string, ${x}])`),
  'alternative in a nested union': in200((x) => `t.union([t.string, t.union([t.number, ${x}])])`),
  'member': in200((x) => `t.intersection([t.type({ a: t.string }), ${x}])`),
  'spread alternative': in200((x) => `t.union([t.string, ...[${x}]])`),
  'alternatives through a name': (x) => entry(`${x.pre}\nconst L = [t.string, ${x.use}];`, 't.union([t.number, ...L])'),
  'record key': in200((x) => `t.record(${x}, t.string)`),
  'record value': in200((x) => `t.record(t.string, ${x})`),
  'optional': in200((x) => `t.type({ p: h.optional(${x}) })`),
  'optionalized': in200((x) => `h.optionalized({ p: ${x} })`),
  'Object.assign source': in200((x) => `t.type(Object.assign({ a: t.string }, { p: ${x} }))`),
  'exact': in200((x) => `t.exact(t.type({ p: ${x} }))`),
  'function result': (x) => entry(`${x.pre}\nconst f = () => ${x.use};`, 't.type({ p: f() })'),
  'function with a body': (x) => entry(`${x.pre}\nconst f = () => { return ${x.use}; };`, 'f()'),
  'local component': (x) => entry(`${x.pre}\nconst C = ${x.use};`, 'C'),
  'component of a component': (x) => entry(`${x.pre}\nconst D = t.type({ p: ${x.use} });\nconst C = t.array(D);`, 't.type({ c: C })'),
  'imported component': viaLib((x) => x),
  'property of an imported component': viaLib((x) => `t.type({ p: ${x} })`),
  'member of an object': (x) => entry(`${x.pre}\nconst O = { p: ${x.use} };`, 'O.p'),
  'const assertion': in200((x) => `t.type({ p: ${x} } as const)`),
  'query': req((x) => `h.httpRequest({ query: { q: ${x} } })`),
  'second query parameter': req((x) => `h.httpRequest({ query: { a: t.string, q: ${x} } })`),
  'path parameter': R({ path: () => `'/path/{q}'`, request: (x) => `h.httpRequest({ params: { q: ${x} } })` }),
  'header': req((x) => `h.httpRequest({ headers: { q: ${x} } })`),
  'body': post((x) => `h.httpRequest({ body: { q: ${x} } })`),
  'request member': req((x) => `t.intersection([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { q: ${x} } })])`),
  'request alternative': req((x) => `t.union([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { q: ${x} } })])`),
  'header of a request alternative': req((x) => `t.union([h.httpRequest({ headers: { a: t.string } }), h.httpRequest({ headers: { q: ${x} } })])`),
  'body of a request alternative': post((x) => `t.union([h.httpRequest({ body: { a: t.string } }), h.httpRequest({ body: { q: ${x} } })])`),
  'request through a name': (x) => entry(`${x.pre}\nconst Q = h.httpRequest({ query: { q: ${x.use} } });`, undefined, { request: 'Q' }),
  'route through a name': (x) => `${IMPORTS}${x.pre}\nconst r = h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: ${x.use} } });\nexport const api = h.apiSpec({ op: { get: r } });`,
  'spread spec': (x) => `${IMPORTS}${x.pre}\nconst s = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: ${x.use} } }) } });\nexport const api = h.apiSpec({ ...s, two: { put: h.httpRoute({ path: '/two', method: 'PUT', request: h.httpRequest({}), response: { 200: t.string } }) } });`,
  'second route': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }), put: h.httpRoute({ path: '/path', method: 'PUT', request: h.httpRequest({}), response: { 200: ${x.use} } }) } });`,
  'second spec': (x) => `${entry(x.pre)}\nexport const more = h.apiSpec({ op: { put: h.httpRoute({ path: '/path', method: 'PUT', request: h.httpRequest({}), response: { 200: ${x.use} } }) } });`,
};
// among other members, at every position
for (const [i, pos] of ['first', 'middle', 'last'].entries()) {
  const among = (x, others, sep) => { const l = others.slice(); l.splice(i, 0, x); return l.join(sep || ', '); };
  Object.assign(CODEC_PLACES, {
    [`${pos} property of three`]: in200((x) => `t.type({ ${among(`p: ${x}`, ['a: t.string', 'b: t.number'])} })`), [`${pos} alternative of three`]: in200((x) => `t.union([${among(x, ['t.string', 't.type({ a: t.number })'])}])`), [`${pos} member of three`]: in200((x) => `t.intersection([${among(x, ['t.type({ a: t.string })', 't.type({ b: t.string })'])}])`),
    [`${pos} query parameter of three`]: req((x) => `h.httpRequest({ query: { ${among(`q: ${x}`, ['a: t.string', 'b: t.string'])} } })`), [`${pos} section of three`]: req((x) => `h.httpRequest({ ${among(`query: { q: ${x} }`, ['headers: { a: t.string }', 'params: {}'])} })`),
    [`query of the ${pos} request member of three`]: req((x) => `t.intersection([${among(`h.httpRequest({ query: { q: ${x} } })`, ['h.httpRequest({ query: { a: t.string } })', 'h.httpRequest({ headers: { b: t.string } })'])}])`), [`query of the ${pos} request alternative of three`]: req((x) => `t.union([${among(`h.httpRequest({ query: { q: ${x} } })`, ['h.httpRequest({ query: { a: t.string } })', 'h.httpRequest({ headers: { b: t.string } })'])}])`),
    [`${pos} response of three`]: (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { ${among(`202: ${x.use}`, ['200: t.string', '400: t.number'])} } }) } });`,
  });
}
// ways a route reaches the document, next to others
const ok = (n, m) => `h.httpRoute({ path: '/ok${n}', method: '${m || 'GET'}', request: h.httpRequest({}), response: { 200: t.string } })`;
const spec = (pre, ...specs) => `${IMPORTS}${pre}\n${specs.map((s, i) => `export const api${i} = h.apiSpec({ ${s} });`).join('\n')}`;
const ROUTE_PLACES = {
  'the only route': (r) => spec('', `op: { get: ${r} }`), 'the first method': (r) => spec('', `op: { get: ${r}, put: ${ok(1, 'PUT')} }`), 'the last method': (r) => spec('', `op: { put: ${ok(1, 'PUT')}, post: ${ok(2, 'POST')}, get: ${r} }`), 'the first operation': (r) => spec('', `a: { get: ${r} }, b: { get: ${ok(1)} }`), 'the last operation': (r) => spec('', `a: { get: ${ok(1)} }, b: { get: ${ok(2)} }, c: { get: ${r} }`),
  'a named route after others': (r) => spec(`const R = ${r};`, `a: { get: ${ok(1)} }, b: { put: ${ok(2, 'PUT')}, get: R }`), 'named methods after others': (r) => spec(`const G = { put: ${ok(1, 'PUT')}, get: ${r} };`, `a: { get: ${ok(2)} }, b: G`), 'a spread before others': (r) => spec(`const s = { x: { get: ${r} } };`, `...s, a: { get: ${ok(1)} }`), 'a spread after others': (r) => spec(`const s = { x: { get: ${r} } };`, `a: { get: ${ok(1)} }, ...s`), 'the last route of a spread': (r) => spec(`const s = { x: { put: ${ok(1, 'PUT')}, get: ${r} } };`, `a: { get: ${ok(2)} }, ...s`),
  'a spread of a spec after others': (r) => spec(`import { s } from './s';`, `a: { get: ${ok(1)} }, ...s`), 'the last of two spreads': (r) => spec(`import { s } from './s'; const q = { z: { get: ${ok(1)} } };`, `...q, ...s`), 'a spread in a spread': (r) => spec(`import { s } from './s'; const q = { z: { get: ${ok(1)} }, ...s };`, `y: { get: ${ok(2)} }, ...q`), 'a named spec': (r) => `${IMPORTS}const s = { a: { get: ${ok(1)} }, b: { get: ${r} } };\nexport const api = h.apiSpec(s);`,
  'the first of two specs': (r) => spec('', `a: { get: ${r} }`, `b: { get: ${ok(1)} }`), 'the last of two specs': (r) => spec('', `b: { get: ${ok(1)} }`, `a: { get: ${r} }`), 'an imported route after others': (r) => spec(`import { R } from './s';`, `b: { get: ${ok(1)}, put: R }`), 'imported methods after others': (r) => spec(`import { G } from './s';`, `b: { get: ${ok(1)} }, c: G`),
};
const badRoute = (o) => `h.httpRoute({ path: ${o.path || "'/bad'"}, method: ${o.method || "'GET'"}, ${o.request === null ? '' : `request: ${o.request || 'h.httpRequest({})'}, `}response: ${o.response || '{ 200: t.string }'} })`;
const BAD_ROUTES = { 'has an unknown response': badRoute({ response: '{ 200: Nope }' }), 'has an unknown codec in a response': badRoute({ response: '{ 200: t.type({ a: t.nope }) }' }), 'has an unknown parameter codec': badRoute({ request: 'h.httpRequest({ query: { a: Nope } })' }), 'has an unknown request': badRoute({ request: 'Nope' }), 'has a request that is no object': badRoute({ request: 't.string' }), 'has no request': badRoute({ request: null }), 'has an unknown path': badRoute({ path: 'Nope' }), 'has a path that is no text': badRoute({ path: 't.string' }), 'has a method that is no text': badRoute({ method: '1' }), 'has responses that are no object': badRoute({ response: 't.string' }), 'is an unknown name': 'Nope', 'is no route': 't.string', 'is made by an unknown function': `nope({ path: '/bad' })` };
const PROPS_PLACES = {
  'properties': in200((x) => `t.type(${x})`), 'spread': in200((x) => `t.type({ a: t.string, ...${x} })`), 'first spread': in200((x) => `t.type({ ...${x}, a: t.string })`), 'Object.assign': in200((x) => `t.type(Object.assign({ a: t.string }, ${x}))`), 'partial properties': in200((x) => `t.partial(${x})`),
  'query properties': req((x) => `h.httpRequest({ query: ${x} })`), 'params properties': req((x) => `h.httpRequest({ params: ${x} })`), 'header properties': req((x) => `h.httpRequest({ headers: ${x} })`), 'body properties': post((x) => `h.httpRequest({ body: ${x} })`), 'request': req((x) => `h.httpRequest(${x})`), 'whole request': req((x) => x), 'request among members': req((x) => `t.intersection([${x}, h.httpRequest({})])`), 'request among alternatives': req((x) => `t.union([h.httpRequest({ query: { a: t.string } }), ${x}])`),
  'responses': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: ${x.use} }) } });`,
  'spread responses': in200((x) => `t.string, ...${x}`),
  'route': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: ${x.use} } });`, 'another route': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }), put: ${x.use} } });`,
  'operation': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: ${x.use} });`, 'spec': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec(${x.use});`, 'spread of a spec': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ ...${x.use}, op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });`,
  'route argument': (x) => `${IMPORTS}${x.pre}\nexport const api = h.apiSpec({ op: { get: h.httpRoute(${x.use}) } });`,
};
const TEXT_PLACES = {
  'path': R({ path: (x) => x }), 'method': (x) => entry(x.pre, undefined).replace("method: 'GET'", `method: ${x.use}`), 'literal': in200((x) => `t.literal(${x})`), 'template': in200((x) => `t.literal(\`a \${${x}} b\`)`), 'second part of a template': in200((x) => `t.literal(\`\${'a'} \${${x}}\`)`), 'path template': R({ path: (x) => `\`/\${${x}}\`` }), 'computed key': in200((x) => `t.type({ [${x}]: t.string })`), 'computed key after others': in200((x) => `t.type({ a: t.string, [${x}]: t.string })`), 'key list': in200((x) => `t.keyof({ a: null, [${x}]: null })`), 'key of a query': req((x) => `h.httpRequest({ query: { [${x}]: t.string } })`),
};
const LIST_PLACES = { 'alternatives': in200((x) => `t.union(${x})`), 'members': in200((x) => `t.intersection(${x})`), 'spread alternatives': in200((x) => `t.union([t.string, ...${x}])`), 'spread members': in200((x) => `t.intersection([t.type({ a: t.string }), ...${x}])`) };
// expressions that name nothing
const UNKNOWN = {
  'an unknown name': { pre: '', use: 'Nope' }, 'an unknown member of a namespace': { pre: `import * as b from './b2';`, use: 'b.Nope' }, 'a name its module does not export': { pre: `import { Nope } from './b2';`, use: 'Nope' }, 'a member of an unknown name': { pre: '', use: 'Nope.x' }, 'an unknown member of an object': { pre: 'const K = { a: t.string };', use: 'K.x' }, 'a name from a missing module': { pre: `import { Nope } from './missing';`, use: 'Nope' }, 'a name from a missing package': { pre: `import { Nope } from 'missing';`, use: 'Nope' }, 'a name behind a missing star export': { pre: `import { Nope } from './b3';`, use: 'Nope' }, 'an unknown codec of io-ts': { pre: '', use: 't.nope' }, 'another name of an unknown name': { pre: 'const Alias = Nope;', use: 'Alias' },
};
const EXTRA = { '/p/b2.ts': lib(`const hidden = t.string;\nexport const shown = t.number;`), '/p/b3.ts': lib(`export * from './missing';\nexport const shown = t.number;`) };
// expressions that resolve, but are no codec, no properties, ...
const BAD = {
  codec: { 'an unknown codec of a known module': 't.nope(t.string)', 'a call of an unknown function': 'nope(t.string)', 'type of a text': `t.type('a')`, 'a union of a text': `t.union('a')`, 'a literal of a codec': 't.literal(t.string)', 'a key list of a codec': 't.keyof(t.string)', 'a record without values': 't.record(t.string)', 'a spread of a codec': 't.type({ ...t.string })', 'a call of a call': 't.type({ a: t.string })()', 'a nested call in a bad place': 't.array(t.union([t.array(t.type(t.string))]))' },
  props: { 'a codec': 't.string', 'a text': `'a'`, 'a list': '[t.string]' },
};
const textOf = (place, x) => { const r = place(x); return Object.assign(typeof r === 'string' ? { '/p/index.ts': r } : r, EXTRA); };
// every place with every expression that cannot be resolved there
function failing(f) {
  for (const [un, x] of Object.entries(UNKNOWN)) for (const [kind, places] of Object.entries({ codec: CODEC_PLACES, properties: PROPS_PLACES, text: TEXT_PLACES, list: LIST_PLACES })) {
    for (const [pn, place] of Object.entries(places)) {
      if (/^another name/.test(un) && /shorthand|key of/.test(pn)) continue;
      f(`${kind} ${pn} is ${un}`, textOf(place, x), pn, un);
    }
  }
  for (const [bn, use] of Object.entries(BAD.codec)) for (const [pn, place] of Object.entries(CODEC_PLACES)) f(`codec ${pn} is ${bn}`, textOf(place, { pre: '', use }), pn, bn);
  for (const [bn, use] of Object.entries(BAD.props)) for (const [pn, place] of Object.entries(PROPS_PLACES)) { if (pn === 'Object.assign') continue; f(`properties ${pn} is ${bn}`, textOf(place, { pre: '', use }), pn, bn); }
  for (const [bn, r] of Object.entries(BAD_ROUTES)) for (const [pn, place] of Object.entries(ROUTE_PLACES)) f(`${pn} ${bn}`, Object.assign({ '/p/index.ts': place(r), '/p/s.ts': lib(`export const R = ${r};\nexport const G = { put: ${ok(3, 'PUT')}, get: ${r} };\nexport const s = h.apiSpec({ w: { put: ${ok(4, 'PUT')} }, x: { get: ${r} } });`) }, EXTRA), pn, bn);
  for (const [pn, place] of Object.entries(TEXT_PLACES)) f(`text ${pn} is a codec`, textOf(place, { pre: '', use: 't.string' }), pn, 'a codec');
}
// ---------- G02: failures are not dropped
function G02(ctx) {
  ctx.limit = 60e3;
  failing((name, files, pn, un) => scenario(ctx, name, () => runs(ctx, files, (r) => {
    const o = outcome(ctx, r, name);
    if (!o) return;
    ctx.check(o === 'error', `${name}: the generator prints a document: ${o === 'doc' ? key(get(r.doc, 'paths')).slice(0, 220) : ''}`, at('codec.ts'), `dropped: ${pn} / ${un}`);
  }, { packages: PACKAGES })));
}

// ---------- G01: what is printed, and the exit status
const OK = {
  'a spec': entry(''), 'two specs': `${entry('')}\nexport const more = h.apiSpec({ op: { put: h.httpRoute({ path: '/path', method: 'PUT', request: h.httpRequest({}), response: { 200: t.string } }) } });`,
  'components': entry(`const C = t.type({ p: t.string });`, 'C'), 'components of another file': { '/p/index.ts': entry(`import { C } from './b';`, 't.array(C)'), '/p/b.ts': lib(`export const D = t.string; export const C = t.type({ d: D });`) },
  'two components of one name': { '/p/index.ts': entry(`import * as b from './b'; import * as c from './c';`, 't.type({ b: b.C, c: c.C })'), '/p/b.ts': lib(`export const C = t.type({ d: t.string });`), '/p/c.ts': lib(`export const C = t.type({ e: t.string });`) },
  'an expression that is left open': entry('', `t.type({ p: 1 + 2, q: t.union([t.string, true ? t.string : t.number]) })`),
  'undocumented and documented routes': { '/p/index.ts': entry(`/** text */\nconst C = t.string;`, 'C') },
  'an import that is missing and not used': entry(`import { x } from './missing';`), 'a package that is missing and not used': entry(`import { x } from 'missing';`), 'a package without types': entry(`import { x } from 'untyped';`), 'a package': { '/p/index.ts': entry(`import { C } from 'pkg';`, 'C'), '/q/node_modules/pkg/src/index.ts': lib(`export const C = t.string;`) },
  'custom codecs of a package': entry(`import { Odd } from 'odd';`, 'Odd'),
  'an import that does not parse and is not used': { '/p/index.ts': entry(`import { x } from './broken';`), '/p/broken.ts': '' }, 'a file that is not source': { '/p/index.ts': entry(`import x from './data.json';`), '/p/data.json.ts': '' },
  'other calls next to the spec': entry(`const other = h.httpRoute({ path: '/x', method: 'GET', request: h.httpRequest({}), response: {} }); const more = t.type({ p: t.string });`),
  'unions of requests': entry('', undefined, { request: `t.union([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { b: t.string }, headers: { c: t.string } })])` }),
  'all sections': entry('', undefined, { method: 'POST', path: `'/path/{p}'`, request: `h.httpRequest({ params: { p: t.string }, query: { q: t.string }, headers: { r: t.string }, body: { s: t.string } })` }),
  'status names': entry('', `t.string, 400: t.type({ error: t.string }), 500: t.unknown`),
};
const FAIL = {
  'no spec': `${IMPORTS}export const x = t.string;`, 'an empty file': '', 'an empty spec': `${IMPORTS}export const api = h.apiSpec({});`, 'a spec that is not called with anything': `${IMPORTS}export const api = h.apiSpec();`, 'a spec of another module': `import * as h from './own';\nexport const api = h.apiSpec({});`,
  'a codec without a definition': { '/p/index.ts': entry(`import { C } from 'pkg';`, 'C'), '/q/node_modules/pkg/src/index.ts': `export declare const C: unknown;` },
  'a codec whose package is not found': entry(`import { C } from 'missing';`, 'C'), 'a codec the package does not export': { '/p/index.ts': entry(`import { D } from 'pkg';`, 'D'), '/q/node_modules/pkg/src/index.ts': lib(`export const C = t.string;`) },
  'a component that cannot be parsed': entry(`const C = t.type({ p: nope(t.string) });`, 'C'), 'a component of a component that cannot be found': entry(`const D = t.type({ p: Nope }); const C = t.array(D);`, 'C'),
  'a route without a path': `${IMPORTS}export const api = h.apiSpec({ op: { get: h.httpRoute({ method: 'GET', request: h.httpRequest({}), response: { 200: t.string } }) } });`,
  'a route without a request': `${IMPORTS}export const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', response: { 200: t.string } }) } });`,
  'a route without responses': `${IMPORTS}export const api = h.apiSpec({ op: { get: h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({}) }) } });`,
  'a route that is no object': `${IMPORTS}export const api = h.apiSpec({ op: { get: t.string } });`,
};
// specs that are missing, broken or whose custom codecs are
const SETUPS = {
  'a missing entry file': [{ '/p/other.ts': '' }, {}], 'an entry file that does not parse': [{ '/p/index.ts': entry('') }, { broken: ['/p/index.ts'] }],
  'a used import that does not parse': [{ '/p/index.ts': entry(`import { C } from './b';`, 'C'), '/p/b.ts': 'export const C = 1;' }, { broken: ['/p/b.ts'] }],
  'a codec file without a default export': [{ '/p/index.ts': entry('') }, { args: { codecFile: '/p/codecs.js' }, modules: { '/p/codecs.js': (W, st) => W.heap(st, { nothing: 1 }) } }],
  'a codec file that is missing': [{ '/p/index.ts': entry('') }, { args: { codecFile: '/p/codecs.js' } }],
  'a package whose codec file has no default export': [{ '/p/index.ts': entry(`import { Odd } from 'odd';`, 'Odd') }, { modules: { '/q/node_modules/odd/codecs.js': (W, st) => W.heap(st, { nothing: 1 }) } }],
  'a package whose codec file is missing': [{ '/p/index.ts': entry(`import { Odd } from 'odd';`, 'Odd') }, { modules: {} }],
};
const PKGS = Object.assign({ odd: { dir: '/q/node_modules/odd', json: { name: 'odd', customCodecFile: 'codecs.js' } }, untyped: { dir: '/q/node_modules/untyped', json: { name: 'untyped' } } }, PACKAGES);
// a module of custom codecs: default export E => { package: { name: () => E.right(schema) } }
const codecs = (table) => (W, st) => {
  const I = W.I;
  const build = (E, s) => (t) => (t && t.codec ? I.native('custom codec', (s2) => I.callMethod(s2, E, T.K('right'), [W.heap(s2, t.codec)], null)) : undefined);
  return W.heap(st, { default: I.native('codecs', (s1, _t, a) => {
    const f = build(a[0], s1);
    const go = (t) => { const c = f(t); if (c) return c; const o = new Map(); for (const [k, v] of Object.entries(t)) o.set(T.K(k), go(v)); return W.heap(s1, o); };
    return [{ st: s1, v: go(table) }];
  }) });
};
const ODD = { '/q/node_modules/odd/codecs.js': codecs({ Odd: { codec: { type: 'string', format: 'odd' } } }) };
const filesOf = (x) => (typeof x === 'string' ? { '/p/index.ts': x } : x);
function G01(ctx) {
  ctx.limit = 60e3;
  const where = at('cli.ts');
  const json = { '/p/package.json': { name: 'the-name', version: '1.2.3' } };
  const printed = new Set();
  const judge = (name, want) => (r) => {
    const n = r.out.length;
    if (r.out.some((e) => e.node)) for (const e of r.out) printed.add(e.node);
    const status = r.thrown ? 1 : r.code === undefined ? 0 : r.code.k === 'const' ? (r.code.v === undefined ? 0 : r.code.v) : undefined;
    if (status === undefined) { ctx.check(undefined, `${name}: the exit status is not resolved: ${T.show(r.code)}`, where); return; }
    ctx.check(!(n && status !== 0), `${name}: the run writes to standard output and fails (status ${status})`, where, 'output of a failing run: ' + name);
    ctx.check(!(n === 0 && status === 0), `${name}: the run prints no document and ends with status 0`, where, 'silent failure: ' + name);
    ctx.check(n <= 1, `${name}: the run writes to standard output ${n} times: ${r.out.map((e) => T.show(e.args[0])).join(' | ').slice(0, 160)}`, where, 'extra output: ' + name);
    if (n) {
      const e = r.out[n - 1]; const doc = T.simp(e.args[0], r.st.conds);
      ctx.check(e.args.length === 1 && doc && doc.k === 'op' && doc.op === 'json' && !!(r.doc && r.doc.O && get(r.doc, 'openapi')), `${name}: what is written to standard output is not the document: ${T.show(doc).slice(0, 160)}`, where, 'not the document: ' + name);
    }
    if (status !== 0 && !r.thrown) ctx.check(r.err.length > 0 && r.err.some((e) => e.args.length && !(e.args[0].k === 'const' && String(e.args[0].v).trim() === '')), `${name}: the run fails without an error on standard error`, where, 'no error: ' + name);
    if (want) ctx.check((want === 'doc') === (n > 0 && status === 0), `${name}: the run ${want === 'doc' ? 'fails: ' + said(r) : 'does not fail'}`, where, `${want}: ${name}`);
  };
  for (const [n, x] of Object.entries(OK)) scenario(ctx, n, () => runs(ctx, filesOf(x), judge(n, 'doc'), { packages: PKGS, json, broken: ['/p/broken.ts'], modules: ODD }));
  for (const [n, x] of Object.entries(FAIL)) scenario(ctx, n, () => runs(ctx, filesOf(x), judge(n, 'error'), { packages: PKGS, json, modules: ODD }));
  for (const [n, [files, o]] of Object.entries(SETUPS)) scenario(ctx, n, () => runs(ctx, files, judge(n, 'error'), Object.assign({ packages: PKGS, json }, o)));
  let i = 0;
  failing((n, files) => { if (i++ % (ctx.tier === 'thorough' ? 1 : 5)) return; scenario(ctx, n, () => runs(ctx, files, judge(n, 'error'), { packages: PKGS })); });
  // every place of the generator's source that writes to standard output is one that printed a document above
  let sites = 0; let seen = 0;
  for (const node of references(reachable('cli.ts'), (t) => /^console\.(log|info|debug|dir|dirxml|table|group|groupCollapsed|count|countReset|timeEnd|timeLog)$/.test(t) || /^process\.stdout(\.|$)/.test(t))) {
    sites++;
    const call = node.parent && ts.isCallExpression(node.parent) && node.parent.expression === node ? node.parent : undefined;
    if (!call) continue;
    if (printed.has(call)) { seen++; ctx.check(true); continue; }
    ctx.check(ctx.undet.length ? undefined : false, `${node.getText()} writes to standard output, but prints no document in any run`, P.loc(node), 'stdout: ' + P.loc(node).split(':')[0] + ' ' + node.getText());
  }
  ctx.extra.stdout_sites = sites;
  // an exit outside those runs does not end with status 0
  for (const node of references(reachable('cli.ts'), (t) => /^process\.(exit|abort|exitCode|reallyExit)$/.test(t))) {
    const call = node.parent && ts.isCallExpression(node.parent) && node.parent.expression === node ? node.parent : undefined;
    const arg = call ? call.arguments[0] : node.parent && ts.isBinaryExpression(node.parent) && node.parent.left === node ? node.parent.right : undefined;
    ctx.check(!(call && !arg && /exit$/.test(node.getText())) && !(arg && ts.isNumericLiteral(arg) && Number(arg.text) === 0), `${node.getText()} ends the run with status 0`, P.loc(node), 'exit 0: ' + P.loc(node).split(':')[0]);
  }
}
// files of the generator's source a file imports, itself included
function reachable(file) {
  const { checker, srcRoot } = P.load();
  const out = new Set(); const todo = [P.sourceFile('openapi-generator', file)];
  while (todo.length) {
    const sf = todo.pop();
    if (!sf || out.has(sf)) continue;
    out.add(sf);
    const visit = (n) => {
      if ((ts.isImportDeclaration(n) || ts.isExportDeclaration(n)) && n.moduleSpecifier) {
        const m = checker.getSymbolAtLocation(n.moduleSpecifier);
        const d = m && m.declarations && m.declarations.find(ts.isSourceFile);
        const r = d && srcRoot(d.fileName);
        if (r && r.pkg === 'openapi-generator') todo.push(d);
      }
      ts.forEachChild(n, visit);
    };
    visit(sf);
  }
  return out;
}
// references to members of globals (console.log, process.exit, Math.random, ...) by their text
function references(files, f) {
  const { checker, srcRoot } = P.load();
  const out = [];
  for (const sf of files) {
    const visit = (n) => {
      if (ts.isPropertyAccessExpression(n) && f(n.getText().replace(/\s/g, ''))) {
        let r = n; while (ts.isPropertyAccessExpression(r)) r = r.expression;
        const s = checker.getSymbolAtLocation(r);
        const own = s && s.declarations && s.declarations.some((d) => srcRoot(d.getSourceFile().fileName) && !ts.isImportSpecifier(d) && !ts.isImportClause(d) && !ts.isNamespaceImport(d));
        if (!own) out.push(n);
      }
      ts.forEachChild(n, visit);
    };
    visit(sf);
  }
  return out;
}

// ---------- G05: references and components
// uses: [{use, mark}] become the responses 200, 201, ...; each stands for the declaration marked so
const COMPONENT_WRAPS = { direct: (x) => x, array: (x) => `t.array(${x})`, property: (x) => `t.type({ p: ${x} })`, alternative: (x) => `t.union([t.type({ z: t.string }), ${x}])`, record: (x) => `t.record(t.string, ${x})`, member: (x) => `t.intersection([t.type({ z: t.string }), ${x}])`, nested: (x) => `t.type({ a: t.array(t.union([t.null, t.type({ b: ${x} })])) })`, optional: (x) => `t.type({ p: h.optional(${x}) })` };
const D = (m) => `t.type({ key: t.literal('$${m}') })`;
const K = (m) => `t.literal('$${m}')`;
// projects: [files besides the entry, imports of the entry, [use, mark] ...], number of components
const perms = (xs) => (xs.length < 2 ? [xs] : xs.flatMap((x, i) => perms(xs.filter((_, j) => j !== i)).map((p) => [x, ...p])));
function componentProjects() {
  const out = [];
  const add = (name, files, pre, uses, count) => out.push({ name, files, pre, uses, count });
  const two = { b: `export const X = ${D('mb')};`, c: `export const X = ${D('mc')};` };
  const three = { ...two, d: `export const X = ${D('md')};` };
  const ns = `import * as b from './b'; import * as c from './c';`;
  const ns3 = `${ns} import * as d from './d';`;
  for (const p of perms([['b.X', 'mb'], ['c.X', 'mc']])) add('two files, namespaces', two, ns, p, 2);
  for (const p of perms([['Xb', 'mb'], ['Xc', 'mc']])) add('two files, renaming imports', two, `import { X as Xb } from './b'; import { X as Xc } from './c';`, p, 2);
  for (const p of perms([['X', 'ma'], ['b.X', 'mb']])) add('a local and a file', two, `${ns} const X = ${D('ma')};`, p, 2);
  for (const p of perms([['b.X', 'mb'], ['c.X', 'mc'], ['d.X', 'md']])) add('three files', three, ns3, p, 3);
  for (const p of perms([['X', 'ma'], ['b.X', 'mb'], ['c.X', 'mc'], ['d.X', 'md']])) add('a local and three files', three, `${ns3} const X = ${D('ma')};`, p, 4);
  for (const p of perms([['b.X', 'mb'], ['c.X', 'mc'], ['d.X1', 'md']])) add('a name that a renamed component would take', { ...two, d: `export const X1 = ${D('md')};` }, ns3, p, 3);
  for (const p of perms([['b.X', 'mb'], ['c.X', 'mc'], ['d.X1', 'md'], ['c.X1', 'me']])) add('two of them', { b: two.b, c: `${two.c} export const X1 = ${D('me')};`, d: `export const X1 = ${D('md')};` }, ns3, p, 4);
  for (const p of perms([['b.X', 'mb'], ['c.Y', 'mb'], ['X2', 'mb'], ['b.X', 'mb']])) add('one declaration in several ways', { b: two.b, c: `export { X as Y } from './b';` }, `${ns} import { X as X2 } from './b';`, p, 1);
  add('one declaration used twice', two, ns, [['b.X', 'mb'], ['b.X', 'mb'], ['c.X', 'mc'], ['b.X', 'mb']], 2);
  const inner = { b: `const In = ${D('mbi')}; export const X = t.type({ in: In });`, c: `const In = ${D('mci')}; export const X = t.type({ in: In });` };
  for (const p of perms([['b.X', 'mbi'], ['c.X', 'mci']])) add('components that refer to components of one name', inner, ns, p, 4);
  for (const p of perms([['b.X', 'mbi'], ['c.X', 'mci'], ['In', 'mai']])) add('next to a local of the inner name', inner, `${ns} const In = ${D('mai')};`, p, 5);
  const shared = { b: `import { S } from './s'; export const X = t.type({ s: S });`, c: `import { S } from './s'; export const Y = t.array(S);`, s: `export const S = ${D('ms')};` };
  for (const p of perms([['b.X', 'ms'], ['c.Y', 'ms']])) add('a shared component', shared, ns, p, 3);
  add('a chain of components', { b: `import { B2 } from './c'; export const B1 = t.type({ n: B2 });`, c: `import { B3 } from './d'; export const B2 = t.array(B3);`, d: `export const B4 = ${D('md')}; export const B3 = t.record(t.string, B4);` }, `import { B1 } from './b';`, [['B1', 'md']]);
  const kinds = { b: `export const X = ${K('mb')};`, c: `export const X = t.union([t.number, ${K('mc')}]);`, d: `export const X = t.array(${K('md')});`, e: `export const X = t.record(t.string, ${K('me')});`, f: `export const X = t.intersection([t.type({ z: t.string }), t.type({ y: ${K('mf')} })]);` };
  for (const p of [['b', 'c', 'd', 'e', 'f'], ['f', 'e', 'd', 'c', 'b'], ['d', 'f', 'b', 'e', 'c']]) add('components of every kind', kinds, Object.keys(kinds).map((f) => `import * as ${f} from './${f}';`).join(' '), p.map((f) => [f + '.X', 'm' + f]), 5);
  // aliases are components of their own
  add('another name', two, `import { X } from './b'; const Y = X;`, [['Y', 'mb'], ['X', 'mb']], 2);
  // packages
  const pk = { '/q/node_modules/pkg/src/index': `export const X = ${D('mp')};`, '/q/node_modules/pkg2/src/index': `export * from './inner';`, '/q/node_modules/pkg2/src/inner': `export const X = ${D('mq')};`, b: two.b };
  for (const p of perms([['p.X', 'mp'], ['q.X', 'mq']])) add('two packages', pk, `import * as p from 'pkg'; import * as q from 'pkg2';`, p, 2);
  for (const p of perms([['Xp', 'mp'], ['Xq', 'mq'], ['Xb', 'mb']])) add('two packages and a file', pk, `import { X as Xp } from 'pkg'; import { X as Xq } from 'pkg2'; import { X as Xb } from './b';`, p, 3);
  for (const p of perms([['X', 'ma'], ['p.X', 'mp']])) add('an exported local and a package', pk, `import * as p from 'pkg'; export const X = ${D('ma')};`, p, 2);
  for (const p of perms([['X', 'ma'], ['p.X', 'mp']])) add('a private local and a package', pk, `import * as p from 'pkg'; const X = ${D('ma')};`, p, 2);
  add('a package twice', pk, `import { X } from 'pkg'; import * as p from 'pkg';`, [['X', 'mp'], ['p.X', 'mp']], 1);
  add('a package through a file', { ...pk, g: `import { X } from 'pkg'; export const G = t.type({ g: X });` }, `import { G } from './g'; import { X } from 'pkg';`, [['G', 'mp'], ['X', 'mp']], 2);
  return out;
}
const projectFiles = (text, files) => { const o = { '/p/index.ts': text }; for (const [n, x] of Object.entries(files)) o[(n.startsWith('/') ? n : '/p/' + n) + '.ts'] = lib(x); return o; };
const PK2 = { pkg: PACKAGES.pkg, pkg2: { dir: '/q/node_modules/pkg2', json: { name: 'pkg2', source: 'src/index.ts' } } };
const refOf = (doc, d) => { let found; const go = (x) => { if (!x || found) return; if (x.A) x.A.forEach(go); if (x.O) for (const [k, v] of x.O) { if (k.k === 'const' && k.v === '$ref') found = v.V; else go(v); } }; go(d); return found; };
const allRefs = (d, out) => { out = out || []; if (!d) return out; if (d.A) d.A.forEach((x) => allRefs(x, out)); if (d.O) for (const [k, v] of d.O) { if (k.k === 'const' && k.v === '$ref') out.push(v.V); else allRefs(v, out); } return out; };
function dangling(ctx, r, name, where) {
  for (const t of allRefs(r.doc)) { const n = t && refName(t); ctx.check(n !== undefined && !!get(r.doc, 'components', 'schemas', n), `${name}: ${t ? T.show(t) : '$ref'} names no component of the document`, where, 'dangling: ' + name.replace(/ \(.*/, '')); }
}
function G05(ctx) {
  ctx.limit = 60e3;
  const where = at('cli.ts');
  const wraps = Object.entries(COMPONENT_WRAPS).filter(([, w]) => w);
  let i = 0;
  for (const pr of componentProjects()) for (const [wn, w] of wraps) {
    if (wn !== 'direct' && ctx.tier !== 'thorough' && i++ % 3) continue;
    const name = `${pr.name} (${pr.uses.map((u) => u[0]).join()}; ${wn})`;
    const text = entry(pr.pre, pr.uses.map(([u], n) => (n ? `${200 + n}: ` : '') + w(u)).join(', '));
    scenario(ctx, name, () => runs(ctx, projectFiles(text, pr.files), (r) => {
      const o = outcome(ctx, r, name);
      if (!o) return;
      if (!ctx.check(o === 'doc', `${name}: the generator fails: ${o === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: ' + pr.name)) return;
      dangling(ctx, r, name, where);
      const comps = (get(r.doc, 'components', 'schemas') || { O: new Map() }).O;
      // arguments of combinators may be put in place of the reference to them
      const inlined = wn === 'array' || wn === 'record' || wn === 'optional';
      ctx.check(inlined || pr.count === undefined || comps.size === pr.count, `${name}: ${comps.size} components (${[...comps.keys()].map((k) => T.show(k)).join()}) instead of ${pr.count}`, where, 'count: ' + pr.name);
      const byMark = new Map();
      pr.uses.forEach(([u, m], n) => {
        const d = response(r.doc, String(200 + n));
        const ms = [...marks(r.doc, d)].filter((x) => /^m[a-z]+$|reference/.test(x));
        ctx.check(ms.length === 1 && ms[0] === m, `${name}: ${u} is described by ${ms.join() || 'nothing'} instead of ${m}: ${key(d || { V: T.undef }).slice(0, 160)}`, where, 'described: ' + pr.name);
        const ref = refOf(r.doc, d);
        const mk = m + (pr.name === 'another name' ? u : '');
        if (pr.count < pr.uses.length || byMark.has(mk)) { const before = byMark.get(mk); if (before && !/shared|package through/.test(pr.name)) ctx.check(before === ref, `${name}: one declaration has the components ${T.show(before)} and ${ref ? T.show(ref) : 'none'}`, where, 'one component: ' + pr.name); }
        byMark.set(mk, ref);
      });
    }, { packages: PK2 }));
  }
  // in every part of a route
  const PLACES = {
    query: [(x) => entry(`import { X } from './b';`, undefined, { request: `h.httpRequest({ query: { q: ${x} } })` }), (op) => get(op, 'parameters')],
    params: [(x) => entry(`import { X } from './b';`, undefined, { path: `'/path/{q}'`, request: `h.httpRequest({ params: { q: ${x} } })` }), (op) => get(op, 'parameters'), '/path/{q}'],
    headers: [(x) => entry(`import { X } from './b';`, undefined, { request: `h.httpRequest({ headers: { q: ${x} } })` }), (op) => get(op, 'parameters')],
    body: [(x) => entry(`import { X } from './b';`, undefined, { method: 'POST', request: `h.httpRequest({ body: { q: ${x} } })` }), (op) => get(op, 'requestBody')],
    'query of alternatives': [(x) => entry(`import { X } from './b';`, undefined, { request: `t.union([h.httpRequest({ query: { a: t.string } }), h.httpRequest({ query: { q: ${x} } })])` }), (op) => get(op, 'parameters')],
    'headers of alternatives': [(x) => entry(`import { X } from './b';`, undefined, { request: `t.union([h.httpRequest({ headers: { a: t.string } }), h.httpRequest({ headers: { q: ${x} } })])` }), (op) => get(op, 'parameters')],
    'body of alternatives': [(x) => entry(`import { X } from './b';`, undefined, { method: 'POST', request: `t.union([h.httpRequest({ body: { a: t.string } }), h.httpRequest({ body: { q: ${x} } })])` }), (op) => get(op, 'requestBody')],
    'body of members': [(x) => entry(`import { X } from './b';`, undefined, { method: 'POST', request: `t.intersection([h.httpRequest({ body: { a: t.string } }), h.httpRequest({ body: { q: ${x} } })])` }), (op) => get(op, 'requestBody')],
    response: [(x) => entry(`import { X } from './b';`, x), (op) => get(op, 'responses')],
    'second response': [(x) => entry(`import { X } from './b';`, `t.string, 400: ${x}`), (op) => get(op, 'responses')],
  };
  // whatever the method, alone and next to the other parts
  const IN = { query: 'parameters', params: 'parameters', headers: 'parameters', body: 'requestBody', response: 'responses' };
  for (const m of ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'HEAD', 'OPTIONS', 'TRACE', 'CONNECT']) for (const part of Object.keys(IN)) for (const others of [false, true]) {
    if (m === 'GET' && !others && part !== 'body') continue;
    PLACES[`${part} of a ${m}${others ? ' with every part' : ''}`] = [(x) => {
      const sections = ['params', 'query', 'headers', 'body'].filter((k) => k === part || others).map((k) => (k === part ? `${k}: { q: ${x} }` : k === 'params' ? 'params: { o: t.string }' : `${k}: { o${k}: t.array(t.string) }`));
      return entry(`import { X } from './b';`, (part === 'response' ? x : 't.string') + (others ? ', 404: t.number' : ''), { method: m, path: `'/path${others && part !== 'params' ? '/{o}' : ''}${part === 'params' ? '/{q}' : ''}'`, request: `h.httpRequest({ ${sections.join(', ')} })` });
    }, (op) => get(op, IN[part]), `/path${others && part !== 'params' ? '/{o}' : ''}${part === 'params' ? '/{q}' : ''}`, m.toLowerCase()];
  }
  // wherever the route is
  for (const [pn, place] of Object.entries(ROUTE_PLACES)) {
    const r = `h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({ query: { q: XX } }), response: { 200: t.string } })`;
    PLACES['query of ' + pn] = [(x) => place(r.replace('XX', x)).replace('\n', `\nimport { X } from './b';\n`), (op) => get(op, 'parameters'), undefined, 'get', (x) => ({ s: `import { X } from './b';\nexport const R = ${r.replace('XX', x)};\nexport const G = { put: ${ok(3, 'PUT')}, get: ${r.replace('XX', x)} };\nexport const s = h.apiSpec({ w: { put: ${ok(4, 'PUT')} }, x: { get: ${r.replace('XX', x)} } });` })];
  }
  for (const [pn, [text, take, path, method, more]] of Object.entries(PLACES)) for (const [wn, w] of wraps.concat([['local name', (x) => x]])) {
    const big = method !== undefined;
    if (big && wn !== 'direct' && (ctx.tier !== 'thorough' || wn === 'local name')) continue;
    const name = `a component in the ${pn} (${wn})`;
    scenario(ctx, name, () => runs(ctx, projectFiles(wn === 'local name' ? text('L').replace("import { X } from './b';", `import { X } from './b'; const L = t.array(X);`) : text(w('X')), { b: `export const X = ${D('mb')};`, c: `export const X = ${D('mc')};`, ...(more && more(w('X'))) }), (r) => {
      const o = outcome(ctx, r, name);
      if (!o) return;
      if (!ctx.check(o === 'doc', `${name}: the generator fails: ${o === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: ' + pn)) return;
      dangling(ctx, r, name, where);
      const d = take(operation(r.doc, path, method || (text('X').includes("'POST'") ? 'post' : 'get')));
      ctx.check(marks(r.doc, d).has('mb'), `${name}: the component is not described: ${d ? key(d).slice(0, 160) : 'missing'}`, where, 'place: ' + pn);
    }));
  }
}

// ---------- G06: runs do not influence each other
function G06(ctx) {
  ctx.limit = 60e3;
  const where = at('project.ts');
  const codecsOf = (n) => ({ ['/q/node_modules/odd/codecs.js']: codecs({ Odd: { codec: { type: 'string', format: n } }, array: { codec: { type: 'string', format: n } } }), '/p/codecs.js': codecs({ 'io-ts': { string: { codec: { type: 'string', format: n } } }, odd: { Odd: { codec: { type: 'string', format: n } } } }) });
  const P2 = Object.assign({}, PKGS, { 'io-ts': { dir: '/q/node_modules/io-ts', json: { name: 'io-ts', customCodecFile: 'codecs.js' } } });
  const first = { 'a spec': [OK['a spec']], components: [OK.components], 'codecs of a package': [OK['custom codecs of a package'], {}, codecsOf('one')], 'a codec file': [OK['a spec'], { codecFile: '/p/codecs.js' }, codecsOf('one')], 'codecs added to a known package': [OK['a spec'], {}, { '/q/node_modules/io-ts/codecs.js': codecs({ string: { codec: { type: 'string', format: 'one' } }, extra: { codec: { type: 'string', format: 'extra' } } }) }], 'all sections': [OK['all sections']], 'a failing project': [FAIL['a component that cannot be parsed']], unions: [OK['unions of requests']], constraints: [entry(`import * as x from 'io-ts-types';`, `t.type({ a: x.NonEmptyString, b: h.optional(t.union([t.string, t.number])), c: t.partial({ d: t.Int }) })`)] };
  const second = { 'a spec': OK['a spec'], components: OK.components, 'a codec of the package': OK['custom codecs of a package'], 'all sections': OK['all sections'], extra: entry('', 't.extra'), constraints: first.constraints[0] };
  const show = (r) => (r.doc ? key(r.doc) : 'fails: ' + (r.thrown ? 'thrown' : said(r).split('\\n')[0].slice(0, 60)));
  for (const [n, [text, args, mods]] of Object.entries(first)) for (const [n2, text2] of Object.entries(second)) {
    const name = `${n2} after ${n}`;
    scenario(ctx, name, () => {
      const o = { packages: n === 'codecs added to a known package' ? P2 : PKGS, modules: mods || {} };
      const W0 = new VP(ctx, filesOf(text2), { packages: PKGS, modules: {} });
      const want = W0.generate('/p/index.ts').map(show);
      const W = new VP(ctx, filesOf(text), o);
      for (const r of W.generate('/p/index.ts', args)) {
        // the second run, in the state the first one left
        W.files.clear(); for (const [p, v] of W0.files) W.files.set(p, v);
        W.o.packages = PKGS; W.o.modules = {}; W.st = r.st; W.st.ev = null;
        const got = W.generate('/p/index.ts').map(show);
        ctx.paths++;
        const open = got.concat(want).some((x) => /\[\?|TOP/.test(x));
        ctx.check(open ? undefined : got.length === want.length && got.every((x, i) => x === want[i]), `${name}: the second run gives ${got.join(' or ').slice(0, 200)} instead of ${want.join(' or ').slice(0, 200)}`, where, 'second run: ' + name);
      }
      ctx.use(W.I);
    });
  }
}

// ---------- G09: cycles
function G09(ctx) {
  ctx.limit = 60e3;
  const where = at('project.ts');
  const cases = {
    'two files that import each other': [{ b: `import { C } from './c'; export const X = t.type({ c: t.array(C) });`, c: `import { X } from './b'; export const C = ${D('m1')}; export const Y = X;` }, `import { X } from './b';`, 'X'],
    'a file that imports the entry': [{ b: `import { A } from './index'; export const X = t.type({ a: A });` }, `import { X } from './b'; export const A = ${D('m1')};`, 'X'],
    'a file that imports itself': [{ b: `import { C } from './b'; export const X = t.type({ a: C }); export const C = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    'three files in a circle': [{ b: `import { C } from './c'; export const X = t.array(C);`, c: `import { E } from './d'; export const C = t.array(E);`, d: `import { X } from './b'; export const E = ${D('m1')}; export const Z = X;` }, `import { X } from './b';`, 'X'],
    'star exports of each other': [{ b: `export * from './c'; export const Q = t.string;`, c: `export * from './b'; export const X = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    'star exports of each other, declared in the second': [{ b: `export * from './c'; export const X = ${D('m1')};`, c: `export * from './b'; export const Q = t.string;` }, `import { X } from './c';`, 'X'],
    'a star export of itself': [{ b: `export * from './b'; export const X = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    'star exports in a circle of three': [{ b: `export * from './c';`, c: `export * from './d';`, d: `export * from './b'; export const X = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    'star exports in a circle without the name': [{ b: `export * from './c';`, c: `export * from './b';` }, `import { X } from './b';`, 'X', 'error'],
    'star exports in a circle before the right one': [{ b: `export * from './c'; export * from './d';`, c: `export * from './b';`, d: `export const X = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    're-exports of each other': [{ b: `export { X } from './c';`, c: `export { X } from './b';` }, `import { X } from './b';`, 'X', 'error'],
    're-export of itself': [{ b: `export { X } from './b';` }, `import { X } from './b';`, 'X', 'error'],
    'renaming re-exports of each other': [{ b: `export { X as Y } from './c'; export const X = ${D('m1')};`, c: `export { Y as X } from './b'; export { X as W } from './b';` }, `import { W as X } from './c';`, 'X'],
    'imports of each other': [{ b: `import { X } from './c'; export { X };`, c: `import { X } from './b'; export { X };` }, `import { X } from './b';`, 'X', 'error'],
    'a file imported by many': [{ b: `import { S } from './s'; export const X = t.type({ s: S });`, c: `import { S } from './s'; import { X } from './b'; export const Y = t.type({ s: S, x: X });`, d: `import { S } from './s'; import { Y } from './c'; import { X } from './b'; export const Z = t.type({ s: S, y: Y, x: X });`, s: `export const S = ${D('m1')};` }, `import { S } from './s'; import { X } from './b'; import { Y } from './c'; import { Z } from './d';`, 't.type({ s: S, x: X, y: Y, z: Z })'],
    'a file imported twice': [{ b: `export const X = ${D('m1')}; export const Y = t.string;` }, `import { X } from './b'; import { Y } from './b'; import * as b from './b';`, 't.type({ x: X, y: Y, z: b.X })'],
    'a file under several paths': [{ 'd/b': `import { X } from '../d/b'; export * from './b'; export const X = ${D('m1')};` }, `import { X } from './d/b'; import { X as Y } from './d/../d/b'; import { X as Z } from '././d/b';`, 't.type({ x: X, y: Y, z: Z })'],
    'a diamond of star exports': [{ b: `export * from './c'; export * from './d';`, c: `export * from './e';`, d: `export * from './e';`, e: `export const X = ${D('m1')};` }, `import { X } from './b';`, 'X'],
    'a file that does not parse imported by many': [{ b: `import { q } from './broken'; export const X = ${D('m1')};`, c: `import { q } from './broken'; export const Y = t.string;`, broken: '' }, `import { q } from './broken'; import { X } from './b'; import { Y } from './c';`, 't.type({ x: X, y: Y })'],
    'a package that imports itself': [{ '/q/node_modules/pkg/src/index': `import { X as Y } from 'pkg'; export * from './inner';`, '/q/node_modules/pkg/src/inner': `import { X as Z } from './index'; export const X = ${D('m1')};` }, `import { X } from 'pkg'; import * as p from 'pkg';`, 't.type({ a: X, b: p.X })'],
    'two packages that import each other': [{ '/q/node_modules/pkg/src/index': `import { Y } from 'pkg2'; export const X = t.type({ y: t.array(Y) });`, '/q/node_modules/pkg2/src/index': `import { X } from 'pkg'; export const Y = ${D('m1')}; export const Z = X;` }, `import { X } from 'pkg'; import { Y } from 'pkg2';`, 't.type({ x: X, y: Y })'],
    'a type that contains itself': [{}, `const X = t.type({ key: t.literal('$m1'), next: h.optional(X) });`, 'X'],
    'types that contain each other': [{}, `const X = t.type({ y: t.array(Y) }); const Y = t.type({ key: t.literal('$m1'), x: h.optional(X) });`, 'X'],
    'types of two files that contain each other': [{ b: `import { Y } from './c'; export const X = t.type({ y: t.array(Y) });`, c: `import { X } from './b'; export const Y = t.type({ key: t.literal('$m1'), x: h.optional(X) });` }, `import { X } from './b';`, 'X'],
    'a recursive union': [{}, `const X = t.union([t.literal('$m1'), t.array(X)]);`, 'X'],
    'a recursive record': [{}, `const X = t.record(t.string, t.union([t.literal('$m1'), X]));`, 'X'],
    'a recursive intersection': [{}, `const X = t.intersection([t.type({ key: t.literal('$m1') }), t.partial({ next: X })]);`, 'X'],
    'a circle of three types': [{}, `const X = t.array(Y); const Y = t.record(t.string, Z); const Z = t.type({ key: t.literal('$m1'), x: h.optional(X) });`, 't.type({ x: X, y: Y, z: Z })'],
    'recursive types of one name in two files': [{ b: `export const X = t.type({ key: t.literal('$m1'), next: t.array(X) });`, c: `export const X = t.type({ other: t.number, next: t.array(X) });` }, `import * as b from './b'; import * as c from './c';`, 't.type({ b: b.X, c: c.X })'],
  };
  for (const [n, [files, pre, use, want]] of Object.entries(cases)) {
    const judge = (r) => {
      const o = outcome(ctx, r, n);
      if (o) {
        ctx.check(o === (want || 'doc'), `${n}: the generator ${o === 'doc' ? 'prints a document' : 'fails: ' + (r.thrown ? T.show(r.thrown) : said(r))}`, where, 'outcome: ' + n);
        if (o === 'doc' && !want) { dangling(ctx, r, n, where); const ms = [...marks(r.doc, get(r.doc, 'paths'))].filter((x) => /^m\d|reference/.test(x)); ctx.check(ms.length === 1 && ms[0] === 'm1', `${n}: ${use} is described by ${ms.join() || 'nothing'}`, where, 'described: ' + n); }
      }
      const reads = new Map();
      for (const e of r.evs) if (e.t === 'read' && /\.[tj]s$/.test(e.path)) reads.set(e.path, (reads.get(e.path) || 0) + 1);
      for (const [f, c] of reads) ctx.check(c === 1, `${n}: ${f} is read ${c} times`, where, 'reads: ' + n);
      ctx.check(reads.size > 0, `${n}: no file is read`, where, 'anchor:reads');
    };
    ctx.scenarios++;
    const end = Interp.deadline; Interp.deadline = Date.now() + 20e3;
    try { runs(ctx, projectFiles(entry(pre, use), files), judge, { packages: PK2, broken: ['/p/broken.ts'] }); } catch (e) {
      // everything is known in these runs: a loop or recursion without end is one of the generator
      if (e instanceof Abort && /recursion|endless|unrolled|iterations|Maximum call/.test(e.message)) ctx.check(false, `${n}: the generator does not terminate: ${e.message}`, where, 'endless: ' + n);
      else if (e instanceof RangeError) ctx.check(false, `${n}: the generator does not terminate`, where, 'endless: ' + n);
      else { if (process.env.VERIF_DEBUG) throw e; ctx.undetermined(`${n}: ${e.message}`); }
    } finally { Interp.deadline = end; }
  }
}
module.exports = { componentProjects, G01, G02, G05, G06, G09, failing, codecs, ODD, PKGS, OK, FAIL, filesOf, reachable, references, allRefs, dangling, projectFiles, PK2, D, K, CODEC_PLACES, PROPS_PLACES, TEXT_PLACES, LIST_PLACES, UNKNOWN, BAD };
