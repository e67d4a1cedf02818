'use strict';
// Y01-Y05: the library's types, decided by the type checker on witness programs. A witness is a
// program with a hole; filled in the right way it must have no error, filled in each of the wrong
// ways it must have one. The programs are generated, exist only in memory and are checked against
// the sources of the packages in the current tree.
const path = require('path');
const P = require('../engine/program');
const { scenario } = require('./lib');
const { ts, REPO } = P;

const PRE = `import * as t from 'io-ts';
import * as E from 'fp-ts/Either';
import express from 'express';
import { NumberFromString, DateFromISOString, NonEmptyString, BooleanFromString, JsonFromString, withFallback } from 'io-ts-types';
import * as h from '@api-ts/io-ts-http';
import { apiSpec, httpRequest, httpRoute, optional, optionalized, flattened } from '@api-ts/io-ts-http';
`;
const METHODS = ['get', 'post', 'put', 'delete', 'patch'];
const next = (m, k = 1) => METHODS[(METHODS.indexOf(m) + k) % METHODS.length];

class Witnesses {
  constructor(ctx, pre) { this.ctx = ctx; this.pre = PRE + (pre || ''); this.all = []; }
  // body: text with «hole» or a function from the filling to the program
  add(name, anchor, body, good, bad) {
    const fill = typeof body === 'function' ? body : (x) => body.replace('«»', () => x);
    for (const g of good) this.all.push({ name, anchor, hole: g, text: fill(g), want: true });
    for (const b of bad) this.all.push({ name, anchor, hole: b[0], why: b[1], text: fill(b[0]), want: false });
  }
  run() {
    const ctx = this.ctx;
    const dir = path.join(REPO, 'packages/express-wrapper/src/__witness__');
    const files = new Map();
    this.all.forEach((w, i) => { w.file = path.join(dir, `w${i}.ts`); files.set(w.file, `${this.pre}${w.text}\nexport {};\n`); });
    const options = {
      target: ts.ScriptTarget.ES2019, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.NodeJs, lib: ['lib.es2019.d.ts', 'lib.dom.d.ts'],
      strict: true, esModuleInterop: true, skipLibCheck: true, noEmit: true, noUncheckedIndexedAccess: true, baseUrl: REPO, paths: P.pathsOption(),
      types: ['node'], typeRoots: [path.join(REPO, 'node_modules/@types')], resolveJsonModule: true,
    };
    const host = ts.createCompilerHost(options, true);
    const { fileExists, readFile, getSourceFile } = host;
    host.fileExists = (f) => files.has(f) || fileExists.call(host, f);
    host.readFile = (f) => (files.has(f) ? files.get(f) : readFile.call(host, f));
    host.getSourceFile = (f, l, ...r) => (files.has(f) ? ts.createSourceFile(f, files.get(f), l, true) : getSourceFile.call(host, f, l, ...r));
    const program = ts.createProgram([...files.keys()], options, host);
    const lines = this.pre.split('\n').length - 1;
    const anchors = new Set();
    for (const w of this.all) {
      scenario(ctx, w.name, () => {
        ctx.paths++;
        const sf = program.getSourceFile(w.file);
        if (!sf) throw new Error('witness not loaded');
        const ds = [...program.getSyntacticDiagnostics(sf), ...program.getSemanticDiagnostics(sf)];
        const errs = ds.filter((d) => d.category === ts.DiagnosticCategory.Error).map((d) => `line ${sf.getLineAndCharacterOfPosition(d.start).line + 1 - lines}: TS${d.code} ${ts.flattenDiagnosticMessageText(d.messageText, ' ').slice(0, 300)}`);
        const at = this.at(w.anchor);
        anchors.add(at);
        if (program.getSyntacticDiagnostics(sf).length) throw new Error(`witness with a syntax error: ${w.text}`);
        if (w.want) ctx.check(errs.length === 0, `${w.name}: the correct program does not compile (${w.anchor.slice(1).join(' ')}): ${JSON.stringify(w.hole)}: ${errs[0]}`, at, `${w.name} good ${w.hole}`);
        else ctx.check(errs.length > 0, `${w.name}: a program compiles that must not (${w.why}; ${w.anchor.slice(1).join(' ')}): ${JSON.stringify(w.hole)}`, at, `${w.name} bad ${w.hole}`);
        if (process.env.SHOWW && !w.want) console.log(`${w.name} | ${w.hole} | ${errs[0]}`);
      });
    }
    ctx.extra.witness_programs = { correct: this.all.filter((w) => w.want).length, wrong: this.all.filter((w) => !w.want).length };
    ctx.extra.declarations = [...anchors].sort();
    for (const w of [this.all[0], this.all[this.all.length - 1]]) ctx.sample({ witness: w.name, filled_with: w.hole, must_compile: w.want });
  }
  // where the declaration stands that gives the program its types
  at([pkg, name]) {
    const s = P.findExport(pkg, undefined, name);
    const d = s && s.declarations && s.declarations[0];
    if (!d) return `packages/${pkg}/src (${name})`;
    this.ctx.analysed.add(d);
    return P.loc(d);
  }
}

// a spec with one operation under a method and its neighbours
const CODECS = [
  // [codec, type, a value, a wrong type, a wrong value]
  ['t.string', 'string', `'s'`, 'number', '1'],
  ['NumberFromString', 'number', '1', 'string', `'1'`],
  ['DateFromISOString', 'Date', 'new Date()', 'string', `'2020'`],
  ['BooleanFromString', 'boolean', 'true', 'string', `'true'`],
  ['optional(t.string)', 'string | undefined', 'undefined', 'string', '1'],
  ['optional(NumberFromString)', 'number | undefined', '1', 'number', `'1'`],
  [`t.keyof({ a: 1, b: 1 })`, `'a' | 'b'`, `'a'`, `'a'`, `'c'`],
  [`t.union([t.literal('x'), NumberFromString])`, `'x' | number`, '1', 'number', `'y'`],
  [`t.union([t.literal('x'), optional(NumberFromString)])`, `'x' | number | undefined`, '1', `'x' | number`, `'y'`],
  [`t.union([t.undefined, t.keyof({ a: 1, b: 1 })])`, `'a' | 'b' | undefined`, `'b'`, `'a' | 'b'`, `'c'`],
  [`t.literal('x')`, `'x'`, `'x'`, `'y'`, `'y'`],
];
const BODY = [
  ['t.number', 'number', '1', 'string', `'1'`],
  ['t.type({ x: t.number })', '{ x: number }', '{ x: 1 }', '{ x: string }', `{ x: '1' }`],
  ['t.array(DateFromISOString)', 'Date[]', '[new Date()]', 'string[]', `['a']`],
  ['optional(t.boolean)', 'boolean | undefined', 'true', 'boolean', `'true'`],
  ['t.union([t.number, t.null])', 'number | null', 'null', 'number', `'1'`],
  ['optional(t.union([t.number, t.null]))', 'number | null | undefined', 'null', 'number | null', `'1'`],
  ['t.null', 'null', 'null', 'undefined', '0'],
  ['t.array(t.union([t.string, t.null]))', '(string | null)[]', `['a', null]`, 'string[]', '[1]'],
  ['t.tuple([t.string, t.number])', '[string, number]', `['a', 1]`, '[string, string]', `['a', 'b']`],
  ['t.record(t.string, NumberFromString)', '{ [k: string]: number }', '{ a: 1 }', '{ [k: string]: string }', `{ a: '1' }`],
  ['t.partial({ x: DateFromISOString })', '{ x?: Date }', '{}', '{ x: Date }', `{ x: '2020' }`],
  ['t.intersection([t.type({ x: t.number }), t.partial({ y: t.null })])', '{ x: number; y?: null }', '{ x: 1 }', '{ x: number; y: null }', '{ y: null }'],
  ['optionalized({ x: t.number, y: optional(t.string) })', '{ x: number; y?: string }', '{ x: 1 }', '{ x: number; y: string }', `{ y: 'a' }`],
];
const RESP = [
  ['t.string', 'string', `'s'`, 'number', '1'],
  ['t.type({ ok: t.boolean })', '{ ok: boolean }', '{ ok: true }', '{ ok: number }', '{ ok: 1 }'],
  ['t.type({ d: DateFromISOString })', '{ d: Date }', '{ d: new Date() }', '{ d: string }', `{ d: '2020' }`],
  ['t.array(t.number)', 'number[]', '[1]', 'string[]', `['1']`],
  ['t.union([t.number, t.null])', 'number | null', 'null', 'number', `'1'`],
  ['t.null', 'null', 'null', 'string', '0'],
  [`t.literal('x')`, `'x'`, `'x' as const`, `'y'`, `'y'`],
  ['t.boolean', 'boolean', 'false', 'true', '0'],
  ['t.tuple([t.string, t.number])', '[string, number]', `['a', 1] as [string, number]`, '[string, string]', `['a', 'b']`],
  ['optionalized({ x: t.number, y: optional(t.string) })', '{ x: number; y?: string }', '{ x: 1 }', '{ x: number; y: string }', `{ y: 'a' }`],
  [`t.union([t.type({ k: t.literal('a'), v: t.string }), t.type({ k: t.literal('b'), v: t.number })])`, `{ k: 'a'; v: string } | { k: 'b'; v: number }`, `{ k: 'b' as const, v: 1 }`, `{ k: 'a'; v: string }`, `{ k: 'b' as const, v: 'x' }`],
];
const other400 = (type) => (type === 'boolean' ? 't.bigint' : 't.boolean');
const value400 = (type) => (type === 'boolean' ? 'BigInt(1)' : 'true');
const spec2 = (m, req, resp, o = {}) => `const spec = apiSpec({
  'op.one': {
    ${m}: httpRoute({ path: '/one/{id}', method: '${m.toUpperCase()}', request: ${req}, response: ${resp} }),
    ${next(m)}: httpRoute({ path: '/one/{id}', method: '${next(m).toUpperCase()}', request: httpRequest({ params: { id: t.string, sibling: t.string } }), response: { 202: t.type({ sibling: t.string }) } }),
  },
  'op.two': { ${next(m, 2)}: httpRoute({ path: '/two', method: '${next(m, 2).toUpperCase()}', request: httpRequest({ query: { two: t.string } }), response: { 203: t.type({ two: t.string }) } }) },
${o.more || ''}});
`;
const REQ = `httpRequest({ params: { id: NumberFromString }, query: { q: optional(t.string), tags: t.array(t.string) }, headers: { hd: t.string }, body: { b: t.boolean, nested: t.type({ x: t.number }) } })`;
const RES = `{ 200: t.type({ ok: t.boolean }), 404: t.string, 500: t.type({ d: DateFromISOString }) }`;
const NAMED = `{ ok: t.type({ ok: t.boolean }), notFound: t.string, internalError: t.type({ d: DateFromISOString }) }`;
const KINDS = [['numeric statuses', RES, ['200', '404', '500']], ['named statuses', NAMED, [`'ok'`, `'notFound'`, `'internalError'`]]];
const DECLARED = [['{ ok: true }', '{ ok: 1 }'], [`'text'`, '1'], ['{ d: new Date() }', `{ d: '2020' }`]];

function Y01(ctx) {
  const W = new Witnesses(ctx, `import { createRouter, wrapRouter, TypedRequestHandler, UncheckedRequestHandler, WrappedRouter } from '@api-ts/typed-express-router';\n`);
  const routers = [['createRouter', 'createRouter(spec)'], ['wrapRouter', 'wrapRouter(express.Router(), spec, {})'], ['createRouter with options', `createRouter(spec, { mergeParams: true, getDecodeErrorStatusCode: () => 422 })`]];
  for (const m of METHODS) for (const [rn, rv] of routers) {
    if (rn !== 'createRouter' && m !== 'get' && m !== 'post' && ctx.tier === 'quick') continue;
    const A = ['typed-express-router', 'AddRouteHandler'];
    const U = ['typed-express-router', 'AddUncheckedRouteHandler'];
    const head = spec2(m, REQ, RES) + `const router = ${rv};\n`;
    const name = `${rn}, ${m}`;
    W.add(`${name}: operations`, A, head + '«»',
      [`router.${m}('op.one', []);`, `router.${next(m)}('op.one', []);`, `router.${next(m, 2)}('op.two', []);`],
      [[`router.${m}('op.none', []);`, 'operation absent from the spec'], [`router.${next(m, 2)}('op.one', []);`, 'operation declared under other methods'], [`router.${m}('op.two', []);`, 'operation declared under another method']]);
    W.add(`${name}: unchecked operations`, U, head + '«»',
      [`router.${m}Unchecked('op.one', []);`, `router.${next(m, 2)}Unchecked('op.two', []);`],
      [[`router.${m}Unchecked('op.none', []);`, 'operation absent from the spec'], [`router.${next(m, 2)}Unchecked('op.one', []);`, 'operation declared under other methods'], [`router.${m}Unchecked('op.two', []);`, 'operation declared under another method']]);
    const uses = [[
      'const n: number = req.decoded.id;', 'const n: string | undefined = req.decoded.q;', 'const n: string[] = req.decoded.tags;', 'const n: string = req.decoded.hd;', 'const n: boolean = req.decoded.b;', 'const n: number = req.decoded.nested.x;',
      'const n: string = req.params.id ?? "";', 'next();',
    ], [
      ['const n: string = req.decoded.id;', 'wrong type of a path parameter'], ['const n: string = req.decoded.q;', 'optional query taken as present'], ['const n: string = req.decoded.tags;', 'list taken as one'], ['const n: number = req.decoded.hd;', 'wrong type of a header'],
      ['const n: string = req.decoded.b;', 'wrong type of a body property'], ['const n: string = req.decoded.nested.x;', 'wrong nested type'], ['req.decoded.nope;', 'property the request does not declare'], ['req.decoded.sibling;', 'property of another method'], ['req.decoded.two;', 'property of another operation'],
      ['req.decoded.body;', 'section taken as a property'], ['req.decoded.nested.y;', 'nested property not declared'],
    ]];
    const sends = [[`res.sendEncoded(200, { ok: true });`, `res.sendEncoded(404, 'text');`, `res.sendEncoded(500, { d: new Date() });`, 'res.status(204).end();'], [
      [`res.sendEncoded(201, { ok: true });`, 'status not declared'], [`res.sendEncoded(202, { sibling: 's' });`, 'status of another method'], [`res.sendEncoded(203, { two: 's' });`, 'status of another operation'],
      [`res.sendEncoded(200, { ok: 1 });`, 'payload of the wrong type'], [`res.sendEncoded(200, 'text');`, 'payload of another status'], [`res.sendEncoded(404, { ok: true });`, 'payload of another status'], [`res.sendEncoded(404, 1);`, 'payload of the wrong type'], [`res.sendEncoded(500, { d: '2020' });`, 'encoded payload'], [`res.sendEncoded(200, {});`, 'incomplete payload'], [`res.sendEncoded(200);`, 'no payload'], [`res.sendEncoded('ok', { ok: true });`, 'name of a status'], [`res.sendEncoded(200 as number, { ok: true });`, 'any status'],
    ]];
    const places = [['only handler', (x) => `router.${m}('op.one', [(req, res, next) => { ${x} }]);`], ['second handler', (x) => `router.${m}('op.one', [(_req, _res, next) => next(), async (req, res, next) => { ${x} }], { routeAliases: ['/x'] });`],
      ['typed handler', (x) => `const f: TypedRequestHandler<typeof spec, 'op.one', '${m}'> = (req, res, next) => { ${x} };\nrouter.${m}('op.one', [f]);`]];
    for (const [pn, put] of places) {
      W.add(`${name}, ${pn}: use of the request`, pn === 'typed handler' ? ['typed-express-router', 'TypedRequestHandler'] : A, (x) => head + put(x), uses[0], uses[1]);
      W.add(`${name}, ${pn}: responses`, ['typed-express-router', 'WrappedResponse'], (x) => head + put(x), sends[0], sends[1]);
    }
    const right = (x) => `if (E.isRight(req.decoded)) { ${x.replace(/req\.decoded/g, 'req.decoded.right')} }`;
    const uplaces = [['unchecked', (x) => `router.${m}Unchecked('op.one', [(req, res, next) => { ${x} }]);`], ['unchecked, typed handler', (x) => `const f: UncheckedRequestHandler<typeof spec, 'op.one', '${m}'> = (req, res, next) => { ${x} };\nrouter.${m}Unchecked('op.one', [f]);`]];
    for (const [pn, put] of uplaces) {
      W.add(`${name}, ${pn}: after checking`, U, (x) => head + put(right(x)), uses[0].slice(0, 6), uses[1].slice(0, 10));
      W.add(`${name}, ${pn}: without checking`, U, (x) => head + put(x), [`if (E.isLeft(req.decoded)) { const n: number = req.decoded.left.length; }`, `const n: boolean = E.isRight(req.decoded);`],
        [['const n: number = req.decoded.id;', 'used without checking'], ['const n: number = req.decoded.right.id;', 'used without checking'], ['if (E.isLeft(req.decoded)) { req.decoded.right; }', 'used after it failed'], ['const n: string = E.getOrElseW(() => undefined)(req.decoded);', 'failure ignored']]);
      W.add(`${name}, ${pn}: responses`, ['typed-express-router', 'WrappedResponse'], (x) => head + put(x), sends[0], sends[1]);
    }
    W.add(`${name}: handlers of another operation`, A, head + `«»\nrouter.${m}('op.one', [f]);`,
      [`const f: TypedRequestHandler<typeof spec, 'op.one', '${m}'> = (req, res) => res.sendEncoded(200, { ok: req.decoded.b });`, `const f: express.RequestHandler = (req, res, next) => next();`],
      [[`const f: TypedRequestHandler<typeof spec, 'op.one', '${next(m)}'> = (req, res) => res.sendEncoded(202, { sibling: req.decoded.sibling });`, 'handler of another method'], [`const f: TypedRequestHandler<typeof spec, 'op.two', '${next(m, 2)}'> = (req, res) => res.sendEncoded(203, { two: req.decoded.two });`, 'handler of another operation']]);
  }
  // every codec in every section, every response codec, numeric and named statuses
  const H = ['typed-express-router', 'TypedRequestHandler'];
  for (const sec of ['params', 'query', 'headers', 'body']) for (const [codec, type, , wrong] of sec === 'body' ? CODECS.concat(BODY) : CODECS) {
    const head = spec2('get', `httpRequest({ ${sec}: { other: t.string, p: ${codec} } })`, RES) + 'const router = createRouter(spec);\n';
    W.add(`${sec} ${codec}`, H, head + `router.get('op.one', [(req, res) => { «» }]);`, [`const v: ${type} = req.decoded.p; const w: typeof v = null as unknown as ${type}; const x: typeof req.decoded.p = w;`, 'const o: string = req.decoded.other;'], [[`const v: ${wrong} = req.decoded.p;`, `used as ${wrong}`], ['req.decoded.q;', 'not declared']]);
  }
  for (const [kn, res, st] of KINDS) st.forEach((s, i) => {
    const head = spec2('get', 'httpRequest({})', res) + 'const router = createRouter(spec);\n';
    for (const put of [(x) => `router.get('op.one', [(req, res) => { ${x} }]);`, (x) => `router.getUnchecked('op.one', [(req, res) => { ${x} }]);`]) {
      W.add(`${kn} ${s}`, ['typed-express-router', 'WrappedResponse'], (x) => head + put(x), [`res.sendEncoded(${s}, ${DECLARED[i][0]});`], [[`res.sendEncoded(${s}, ${DECLARED[i][1]});`, 'payload of the wrong type'], [`res.sendEncoded(${s}, ${DECLARED[(i + 1) % 3][0]});`, 'payload of another status'], [`res.sendEncoded(${s}, undefined);`, 'no payload'], [`res.sendEncoded(${kn[0] === 'n' && s[0] === `'` ? '200' : `'created'`}, ${DECLARED[i][0]});`, 'status not declared']]);
    }
  });
  // a request with alternatives
  const alt = spec2('get', `t.union([httpRequest({ query: { a: t.string } }), httpRequest({ query: { b: NumberFromString } })])`, RES) + 'const router = createRouter(spec);\n';
  W.add('request with alternatives', H, alt + `router.get('op.one', [(req, res) => { «» }]);`, [`if ('a' in req.decoded) { const s: string = req.decoded.a; } else { const n: number = req.decoded.b; }`], [['req.decoded.a;', 'not in every alternative'], [`if ('a' in req.decoded) { req.decoded.b; }`, 'of the other alternative']]);
  const both = spec2('get', `t.intersection([httpRequest({ query: { a: t.string } }), httpRequest({ headers: { b: NumberFromString } })])`, RES) + 'const router = createRouter(spec);\n';
  W.add('request of two parts', H, both + `router.get('op.one', [(req, res) => { «» }]);`, [`const s: string = req.decoded.a; const n: number = req.decoded.b;`], [['req.decoded.c;', 'not declared'], ['const s: string = req.decoded.b;', 'wrong type']]);
  // middleware for the whole router knows nothing of the request
  W.add('middleware of the router', ['typed-express-router', 'WrappedRouter'], spec2('get', REQ, RES) + `const router = createRouter(spec);\nrouter.use((req, res, next) => { «» });`, ['next();', 'const n: string = req.apiName; next();', 'if (E.isLeft(req.decoded)) { const n: number = req.decoded.left.length; }'], [['req.decoded.nope;', 'used without checking'], ['const n: number = req.apiName;', 'wrong type']]);
  W.run();
}

function Y02(ctx) {
  const W = new Witnesses(ctx, `import supertest from 'supertest';\nimport superagent from 'superagent';\nimport { buildApiClient, requestForRoute, supertestRequestFactory, superagentRequestFactory, DecodedResponse, ApiClient } from '@api-ts/superagent-wrapper';\ndeclare const app: express.Application;\n`);
  const C = ['superagent-wrapper', 'ApiClient'];
  const R = ['superagent-wrapper', 'DecodedResponse'];
  const B = ['superagent-wrapper', 'BoundRequestFactory'];
  const clients = [['supertest', 'const client = buildApiClient(supertestRequestFactory(supertest(app)), spec);\n'], ['superagent', `const client = buildApiClient(superagentRequestFactory(superagent, 'http://localhost'), spec);\n`], ['declared client', 'declare const client: ApiClient<superagent.SuperAgentRequest, typeof spec>;\n']];
  const FULL = `{ id: 1, q: 'q', tags: ['a'], hd: 'h', b: true, nested: { x: 1 } }`;
  for (const m of METHODS) for (const [cn, cv] of clients) {
    if (cn !== 'supertest' && m !== 'get' && m !== 'post' && ctx.tier === 'quick') continue;
    for (const [kn, res, st] of KINDS) {
      if (kn[1] === 'a' && cn !== 'supertest') continue;
      const head = spec2(m, REQ, res) + cv;
      const name = `${cn}, ${kn}, ${m}`;
      const call = `client['op.one'].${m}(${FULL})`;
      if (kn[1] === 'u') {
        W.add(`${name}: operations`, C, head + '«»', [`client['op.one'].${m}(${FULL});`, `client['op.one'].${next(m)}({ id: 'i', sibling: 's' });`, `client['op.two'].${next(m, 2)}({ two: 't' });`],
          [[`client['op.none'].${m}(${FULL});`, 'operation absent from the spec'], [`client['op.one'].${next(m, 2)}(${FULL});`, 'operation declared under other methods'], [`client['op.two'].${m}({ two: 't' });`, 'operation declared under another method'], [`client['op.one'].head(${FULL});`, 'method that is none']]);
        const part = (o) => { const all = { id: '1', q: `'q'`, tags: `['a']`, hd: `'h'`, b: 'true', nested: '{ x: 1 }' }; return `client['op.one'].${m}({ ${Object.entries({ ...all, ...o }).filter(([, v]) => v !== null).map(([k, v]) => `${k}: ${v}`).join(', ')} });`; };
        W.add(`${name}: request`, B, head + '«»', [part({}), part({ q: null }), part({ q: 'undefined' }), part({ tags: '[]' })],
          [[part({ id: null }), 'path parameter missing'], [part({ tags: null }), 'query missing'], [part({ hd: null }), 'header missing'], [part({ b: null }), 'body property missing'], [part({ nested: null }), 'body property missing'], [part({ id: `'1'` }), 'encoded path parameter'], [part({ q: '1' }), 'wrong type of a query'], [part({ tags: `'a'` }), 'one for a list'], [part({ hd: '1' }), 'wrong type of a header'], [part({ b: `'true'` }), 'wrong type of a body property'], [part({ nested: '{}' }), 'incomplete body property'], [part({ nested: `{ x: '1' }` }), 'wrong nested type'], [`client['op.one'].${m}();`, 'no request'], [`client['op.one'].${m}({ id: 'i', sibling: 's' });`, 'request of another method'], [`client['op.one'].${m}({ params: { id: 1 }, query: { tags: [] }, headers: { hd: 'h' }, body: { b: true, nested: { x: 1 } } });`, 'request by sections'], [part({ id: 'null' }), 'null']]);
      }
      const un = kn[0] === 'n' && res === RES;
      const forms = [['then', (x) => `${call}.decode().then((res) => { ${x} });`], ['await', (x) => `async function f() { const res = await ${call}.decode(); ${x} }`], ['switch', (x) => `async function f() { const res = await ${call}.decode(); ${x.replace(/^if \(res\.status === ([^)]*)\) \{(.*)\}$/, 'switch (res.status) { case $1: {$2 break; } }')} }`]];
      const got = (s, x) => `if (res.status === ${s}) { ${x} }`;
      for (const [fn, put] of forms) W.add(`${name}, ${fn}: responses`, R, (x) => head + put(x),
        [got(st[0], 'const v: boolean = res.body.ok;'), got(st[1], 'const v: string = res.body;'), got(st[2], 'const v: Date = res.body.d;'), got(`'decodeError'`, 'const v: string = res.error; const u: unknown = res.body;'), 'const v: number = res.original.status;', got(st[0], 'const v: undefined = res.error;'), 'const v: unknown = res.body;', `const s: ${st.join(' | ')} | 'decodeError' = res.status;`],
        [[got(st[0], 'const v: string = res.body;'), 'body at the type of another status'], [got(st[0], 'const v: number = res.body.ok;'), 'wrong type'], [got(st[1], 'res.body.ok;'), 'body at the type of another status'], [got(st[1], 'const v: number = res.body;'), 'wrong type'], [got(st[2], 'const v: string = res.body.d;'), 'encoded type'], ['res.body.ok;', 'without checking'], ['const v: string = res.body;', 'without checking'], [got(un ? '201' : `'created'`, ''), 'status not declared'], [got(un ? '202' : `'accepted'`, 'res.body.sibling;'), 'status of another method'],
          [got(`'decodeError'`, 'res.body.ok;'), 'body of a decode error'], [got(`'decodeError'`, 'const v: string = res.body;'), 'body of a decode error'], [got(`'decodeError'`, 'const v: { ok: boolean } = res.body;'), 'body of a decode error'], [got(`'decodeError'`, 'const v: {} | null = res.body;'), 'body of a decode error'], [got(st[0], 'const v: string = res.error;'), 'error of a success'], ['res.original.body.ok;', 'raw body'], [`if (res.status !== ${st[0]}) { res.body.ok; }`, 'wrong branch']]);
      const expect = [['then', (x) => `${call}.decodeExpecting(${x.split('@')[0]}).then((res) => { ${x.split('@')[1]} });`], ['await', (x) => `async function f() { const res = await ${call}.decodeExpecting(${x.split('@')[0]}); ${x.split('@')[1]} }`]];
      for (const [fn, put] of expect) W.add(`${name}, ${fn}: expected responses`, ['superagent-wrapper', 'requestForRoute'], (x) => head + put(x),
        [`${st[0]}@const v: boolean = res.body.ok;`, `${st[1]}@const v: string = res.body;`, `${st[2]}@const v: Date = res.body.d;`, `${st[0]}@const v: ${st[0]} = res.status;`],
        [[`${un ? '201' : `'created'`}@`, 'status not declared'], [`${un ? '202' : `'accepted'`}@`, 'status of another method'], [`${st[0]}@const v: string = res.body;`, 'body of another status'], [`${st[1]}@res.body.ok;`, 'body of another status'], [`${st[0]}@const v: number = res.body.ok;`, 'wrong type'], [`${st[2]}@const v: string = res.body.d;`, 'encoded type'], [`'decodeError'@`, 'decode error expected'], [`${st[0]}@const v: ${st[1]} = res.status;`, 'wrong status']]);
    }
  }
  for (const sec of ['params', 'query', 'headers', 'body']) for (const [codec, type, value, , wrong] of sec === 'body' ? CODECS.concat(BODY) : CODECS) {
    const head = spec2('get', `httpRequest({ ${sec}: { other: t.string, p: ${codec} } })`, RES) + clients[0][1];
    const opt = / \| undefined$/.test(type);
    W.add(`${sec} ${codec}`, B, head + `client['op.one'].get({ «» });`, [`other: 'o', p: ${value}`, `other: 'o', p: null as unknown as ${type}`].concat(opt ? [`other: 'o'`] : []), [[`other: 'o', p: ${wrong}`, 'wrong type'], [`p: ${value}`, 'another property missing']].concat(/\bnull\b/.test(type) ? [] : [[`other: 'o', p: null`, 'null']]).concat(opt ? [] : [[`other: 'o'`, 'missing'], [`other: 'o', p: undefined`, 'undefined']]));
  }
  for (const [codec, type, , wrong] of RESP) {
    const head = spec2('get', 'httpRequest({})', `{ 200: ${codec}, 400: ${other400(type)} }`) + clients[0][1];
    W.add(`response ${codec}`, R, head + `client['op.one'].get({}).decode().then((res) => { if (res.status === 200) { «» } });`, [`const v: ${type} = res.body; const w: typeof res.body = v;`], [[`const v: ${wrong} = res.body;`, 'wrong type'], [`const v: ${type === 'boolean' ? 'string' : 'boolean'} = res.body;`, 'type of another status'], ['const v: never = res.body;', 'never']]);
  }
  const alt = spec2('get', `t.union([httpRequest({ query: { a: t.string } }), httpRequest({ query: { b: NumberFromString } })])`, RES) + clients[0][1];
  W.add('request with alternatives', B, alt + `client['op.one'].get(«»);`, [`{ a: 'a' }`, '{ b: 1 }'], [['{}', 'none of them'], [`{ b: 'b' }`, 'wrong type'], ['{ a: 1 }', 'wrong type']]);
  // a single route, bound by hand
  const one = `const route = httpRoute({ path: '/x', method: 'GET', request: ${REQ}, response: ${RES} });\nconst call = requestForRoute(supertestRequestFactory(supertest(app)), route);\n`;
  W.add('a route alone', ['superagent-wrapper', 'requestForRoute'], one + '«»', [`call(${FULL}).decodeExpecting(200).then((r) => { const v: boolean = r.body.ok; });`, `const r: DecodedResponse<typeof route> = null as any; if (r.status === 404) { const v: string = r.body; }`, `call(${FULL}).set('x', 'y').query({ z: 'z' });`], [['call({});', 'incomplete request'], [`call(${FULL}).decodeExpecting(201);`, 'status not declared'], [`const r: DecodedResponse<typeof route> = null as any; r.body.ok;`, 'without checking']]);
  W.run();
}

const WRAPPER = `import { createServer, routerForApiSpec, routeHandler, middlewareFn, MiddlewareChain, MiddlewareChainOutput, ServiceFunction, KeyedResponseType } from '@api-ts/express-wrapper';\nimport { Response, KeyedResponse } from '@api-ts/response';\n`;
const MTYPES = [['string', `'s'`, 'number'], ['number', '1', 'string'], ['boolean', 'true', 'string'], ['Date', 'new Date()', 'number'], ['string[]', `['a']`, 'string'], ['{ k: string }', `{ k: 'k' }`, '{ k: number }'], ['Map<string, number>', 'new Map<string, number>()', 'number']];
const PLAIN = ['plain', '(_req: express.Request, _res: express.Response, next: express.NextFunction) => next()'];
function Y03(ctx) {
  const W = new Witnesses(ctx, WRAPPER);
  const A = ['express-wrapper', 'MiddlewareChainOutput'];
  const RH = ['express-wrapper', 'routeHandler'];
  const head = (m) => `const spec = apiSpec({ 'op.one': { ${m}: httpRoute({ path: '/one/{id}', method: '${m.toUpperCase()}', request: httpRequest({ params: { id: NumberFromString }, query: { q: optional(t.string) } }), response: { 200: t.string } }) } });\n`;
  const mw = (props) => `middlewareFn(async (req, res) => ({ ${props} }))`;
  const decls = (chain) => chain.map((c, i) => `const m${i} = ${c};\n`).join('');
  const names = (chain) => chain.map((_, i) => `m${i}`).join(', ');
  const table = (m, how, rh) => (how === 'generic' ? `routerForApiSpec({ spec, routeHandlers: { 'op.one': { ${m}: ${rh} } } });` : `createServer(spec, (app) => ({ 'op.one': { ${m}: ${rh} } }));`);
  // the handler's input is typed by its place, by given type arguments, or the handler says what it takes
  const takes = (x) => { const u = /^const v: (.*) = input\.(\w+);$/.exec(x) || /^()input\.(\w+);$/.exec(x); return `{ ${u[2]}${u[2] === 'q' && /undefined/.test(u[1]) ? '?' : ''}: ${u[1] || 'unknown'} }`; };
  const build = (m, chain, x, how) => decls(chain) + head(m) + table(m, how, how === 'annotated' ? `routeHandler({ middleware: [${names(chain)}], handler: async (input: ${takes(x)}) => Response.ok('x') })` : `routeHandler<(typeof spec)['op.one']['${m}'], [${chain.map((_, i) => `typeof m${i}`).join(', ')}]>({ middleware: [${names(chain)}], handler: ${how === 'generic' ? 'async ' : ''}(input) => { ${x} return Response.ok('x'); } })`);
  const hows = ['given', 'generic', 'annotated'];
  for (let n = 0; n <= 7; n++) for (const how of hows) {
    const m = METHODS[n % 5];
    const chain = MTYPES.slice(0, n).map(([, v], i) => mw(`p${i}: ${v}`));
    const base = ['const v: number = input.id;', 'const v: string | undefined = input.q;'];
    const wrongs = [['input.nope;', 'provided by nothing'], [`input.p${n};`, 'provided by no middleware'], ['const v: string = input.id;', 'wrong type of the request'], ['const v: string = input.q;', 'optional taken as present'], ['input.decoded;', 'not of the request']];
    // all different
    W.add(`chain of ${n}, ${how}`, A, (x) => build(m, chain, x, how), base.concat(MTYPES.slice(0, n).map(([t], i) => `const v: ${t} = input.p${i};`)), wrongs.concat(MTYPES.slice(0, n).map(([, , w], i) => [`const v: ${w} = input.p${i};`, `wrong type of the result of middleware ${i + 1}`])));
    // one replaces a property of the request
    for (let i = 0; i < n; i++) {
      const c = chain.slice(); c[i] = mw(`p${i}: ${MTYPES[i][1]}, id: 'replaced', q: true`);
      if (how !== 'given' && i !== n - 1) continue;
      W.add(`chain of ${n}, middleware ${i + 1} replaces the request's, ${how}`, A, (x) => build(m, c, x, how), ['const v: string = input.id;', 'const v: boolean = input.q;'].concat(MTYPES.slice(0, n).map(([t], j) => `const v: ${t} = input.p${j};`)), [['const v: number = input.id;', 'replaced property'], ['const v: string = input.q;', 'replaced property'], ['input.nope;', 'provided by nothing']]);
    }
    // a later one replaces an earlier one's
    for (let i = 0; i < n; i++) for (let j = i + 1; j < n; j++) {
      if (how !== 'given' && (i || j !== n - 1)) continue;
      const c = chain.slice(); c[i] = mw(`p${i}: ${MTYPES[i][1]}, same: 'early'`); c[j] = mw(`p${j}: ${MTYPES[j][1]}, same: 1`);
      W.add(`chain of ${n}, middleware ${j + 1} replaces that of ${i + 1}, ${how}`, A, (x) => build(m, c, x, how), ['const v: number = input.same;', `const v: ${MTYPES[i][0]} = input.p${i};`, `const v: ${MTYPES[j][0]} = input.p${j};`, 'const v: number = input.id;'], [['const v: string = input.same;', 'replaced property']]);
    }
    // plain middleware anywhere adds nothing
    for (let i = 0; i < n; i++) {
      if (how !== 'given' && i) continue;
      const c = chain.slice(); c[i] = PLAIN[1];
      const others = MTYPES.slice(0, n).map(([t], j) => [t, j]).filter(([, j]) => j !== i);
      W.add(`chain of ${n}, middleware ${i + 1} plain, ${how}`, A, (x) => build(m, c, x, how), base.concat(others.map(([t, j]) => `const v: ${t} = input.p${j};`)), wrongs.concat([[`input.p${i};`, 'plain middleware adds nothing']]).concat(others.slice(0, 1).map(([, j]) => [`const v: ${MTYPES[j][2]} = input.p${j};`, 'wrong type'])));
    }
    if (n) W.add(`chain of ${n}, all plain, ${how}`, A, (x) => build(m, chain.map(() => PLAIN[1]), x, how), base, wrongs);
    // the type itself
    if (how === 'generic') W.add(`output of a chain of ${n}`, A, (x) => decls(chain) + `type Out = MiddlewareChainOutput<{ id: number }, [${chain.map((_, i) => `typeof m${i}`).join(', ')}]>;\ndeclare const out: Out;\n${x}`, [`const v: { id: number; ${MTYPES.slice(0, n).map(([t], i) => `p${i}: ${t}`).join('; ')} } = out; const w: Out = v;`, 'const v: number = out.id;'], [['const v: never = out;', 'never'], ['const v: string = out.id;', 'wrong type'], [`out.p${n};`, 'provided by nothing'], ['const w: Out = {};', 'empty']].concat(n ? [[`const w: Out = { id: 1 };`, 'results missing']] : []));
  }
  // without middleware, and middleware beside a plain function
  W.add('handler without middleware', RH, (x) => head('get') + `createServer(spec, () => ({ 'op.one': { get: routeHandler({ handler: (input) => { ${x} return Response.ok('x'); } }) } }));`, ['const v: number = input.id;'], [['input.p0;', 'provided by nothing'], ['const v: string = input.id;', 'wrong type']]);
  W.add('plain function', RH, (x) => head('get') + `createServer(spec, () => ({ 'op.one': { get: (input) => { ${x} return Response.ok('x'); } } }));`, ['const v: number = input.id;'], [['input.p0;', 'provided by nothing'], ['const v: string = input.id;', 'wrong type']]);
  W.add('handler asking for more', RH, (x) => head('get') + `const m = ${mw(`p0: 'a'`)};\ncreateServer(spec, () => ({ 'op.one': { get: routeHandler({ middleware: [m], handler: (input: ${x}) => Response.ok('x') }) } }));`, ['{ id: number }', '{ p0: string }', '{ id: number; p0: string }', '{}'], [['{ id: string }', 'wrong type'], ['{ p0: number }', 'wrong type of a result'], ['{ p1: string }', 'provided by nothing'], ['{ q: string }', 'optional taken as present']]);
  W.add('what middleware is', ['express-wrapper', 'middlewareFn'], (x) => `${x}`, ['middlewareFn(async () => ({ a: 1 }));', 'middlewareFn(async (req, res) => { res.status(200); return {}; });', 'const c: MiddlewareChain = [middlewareFn(async () => ({}))];', `const c: MiddlewareChain = [${PLAIN[1]}, middlewareFn(async () => ({ a: 1 }))];`], [['middlewareFn(() => ({ a: 1 }));', 'not a promise'], ['middlewareFn(async () => undefined);', 'no result'], ['middlewareFn(async (req) => { req.decoded; return {}; });', 'request not decoded there'], ['const c: MiddlewareChain = [1];', 'no function']]);
  // results of several properties, optional ones, and unions
  W.add('optional result', A, (x) => head('get') + `const m = middlewareFn(async (): Promise<{ user?: string; kind: 'a' | 'b' }> => ({ kind: 'a' }));\ncreateServer(spec, () => ({ 'op.one': { get: routeHandler<(typeof spec)['op.one']['get'], [typeof m]>({ middleware: [m], handler: (input) => { ${x} return Response.ok('x'); } }) } }));`, ['const v: string | undefined = input.user;', `const v: 'a' | 'b' = input.kind;`], [['const v: string = input.user;', 'optional taken as present'], [`const v: 'a' = input.kind;`, 'one of several']]);
  W.run();
}

function Y04(ctx) {
  const W = new Witnesses(ctx, `import { HttpRoute, RequestType, ResponseType, HttpRequestCodec, ApiSpec, Method } from '@api-ts/io-ts-http';\nconst req = httpRequest({});\nconst res = { 200: t.string };\nconst DateCodec = new t.Type<Date, Date>('Date', (u): u is Date => u instanceof Date, (u, c) => (u instanceof Date ? t.success(u) : t.failure(u, c)), t.identity);\n`);
  const route = (m) => `httpRoute({ path: '/x', method: '${m}', request: req, response: res })`;
  const AS = ['io-ts-http', 'apiSpec'];
  for (const m of METHODS) {
    const M = m.toUpperCase();
    const forms = [['alone', (k, v) => `apiSpec({ 'op': { ${k}: ${v} } });`], ['next to another method', (k, v) => `apiSpec({ 'op': { ${next(m)}: ${route(next(m).toUpperCase())}, ${k}: ${v} } });`], ['in another operation', (k, v) => `apiSpec({ 'op.a': { ${m}: ${route(M)} }, 'op.b': { ${k}: ${v} } });`], ['by name', (k, v) => `const r = ${v};\nconst spec = apiSpec({ op: { ${k}: r } });`]];
    for (const [fn, f] of forms) {
      W.add(`${m} ${fn}`, AS, (x) => f(...x.split('@')), [`${m}@${route(M)}`, `['${m}']@${route(M)}`], METHODS.filter((o) => o !== m).filter((o) => fn !== 'next to another method' || o !== next(m)).map((o) => [`${o}@${route(M)}`, 'filed under another method']).concat(['head', 'options', 'trace', 'connect', 'link', M, `'GET '`, `'all'`, 'use', '0'].map((o) => [`${o}@${route(M)}`, 'no supported method']), ['HEAD', 'OPTIONS', 'TRACE', 'CONNECT', m, '', `${M} `].map((o) => [`${m}@${route(o)}`, 'route with another method']), [[`head@${route('HEAD')}`, 'no supported method']]));
    }
    W.add(`route with ${m}`, ['io-ts-http', 'httpRoute'], '«»', [`const r = ${route(M)};\nconst k: '${M}' = r.method;`], [[`const r = ${route(M)};\nconst k: '${next(m).toUpperCase()}' = r.method;`, 'method forgotten'], [route(m), 'lower case'], [`httpRoute({ path: '/x', method: '${M}', request: req });`, 'no response'], [`httpRoute({ path: '/x', method: '${M}', response: res });`, 'no request'], [`httpRoute({ method: '${M}', request: req, response: res });`, 'no path'], [`httpRoute({ path: 1, method: '${M}', request: req, response: res });`, 'path no text'], [`httpRoute({ path: '/x', method: '${M}', request: req, response: { 200: 'text' } });`, 'response no codec'], [`httpRoute({ path: '/x', method: '${M}', request: t.type({ a: t.string }), response: res });`, 'request no request codec'], [`httpRoute({ path: '/x', method: '${M}', request: t.string, response: res });`, 'request no request codec'], [`httpRoute({ path: '/x', method: '${M}', request: { params: {} }, response: res });`, 'request no codec'], [`httpRoute({ path: '/x', method: '${M}', request: t.type({ params: t.type({ a: t.number }), query: t.type({}) }), response: res });`, 'request encodes to numbers'], [`httpRoute({ path: '/x', method: '${M}', request: t.type({ params: t.type({}) }), response: res });`, 'request encodes no query']]);
  }
  W.add('spec', AS, '«»', [`apiSpec({});`, `apiSpec({ a: {} });`, `const s = apiSpec({ a: { get: ${route('GET')} }, b: { post: ${route('POST')} } });\nconst p: 'POST' = s.b.post.method; const q: 'GET' = s.a.get.method;`], [[`apiSpec({ a: { get: 1 } });`, 'no route'], [`apiSpec({ a: ${route('GET')} });`, 'operation is a route'], [`apiSpec({ a: { get: null } });`, 'null'], [`const s = apiSpec({ a: { get: ${route('GET')} } });\ns.b;`, 'operation forgotten'], [`const s = apiSpec({ a: { get: ${route('GET')} } });\ns.a.post;`, 'method not declared']]);
  // what params, query and headers can hold
  const H = ['io-ts-http', 'httpRequest'];
  const text = ['t.string', 'NumberFromString', 'DateFromISOString', 'BooleanFromString', 'NonEmptyString', `t.literal('a')`, `t.keyof({ a: 1, b: 1 })`, 'optional(t.string)', 'optional(NumberFromString)', 't.union([t.string, NumberFromString])', `t.union([t.literal('a'), t.literal('b')])`, `t.intersection([t.string, NonEmptyString])`, `withFallback(t.string, 'a')`, 't.union([t.undefined, DateFromISOString])'];
  const lists = ['t.array(t.string)', 't.array(NumberFromString)', 'optional(t.array(t.string))', 't.union([t.string, t.array(t.string)])', `t.array(t.keyof({ a: 1 }))`];
  const never = ['t.number', 't.boolean', 't.null', 't.type({ a: t.string })', 't.partial({})', 't.record(t.string, t.string)', 'DateCodec', 't.unknown', 't.literal(1)', 't.literal(true)', 'optional(t.number)', 't.union([t.string, t.number])', 't.union([t.string, t.null])', 't.array(t.number)', 'optional(t.array(t.number))', 't.union([t.array(t.string), t.array(t.boolean)])', 't.array(t.array(t.string))', 't.Int', 't.bigint', 't.UnknownArray', 't.UnknownRecord', 't.Function', 'withFallback(t.number, 1)', 't.array(optional(t.string))', 't.union([t.string, t.type({ a: t.string })])', 't.exact(t.type({ a: t.string }))'];
  // what JSON cannot carry is no body of a route
  const NOJSON = ['DateCodec', 't.unknown', 't.bigint', 't.UnknownArray', 't.UnknownRecord', 't.Function', 't.array(optional(t.string))'];
  for (const sec of ['params', 'query', 'headers', 'body']) {
    const good = sec === 'body' ? text.concat(lists, never) : sec === 'query' ? text.concat(lists) : text;
    const bad = sec === 'body' ? [] : sec === 'query' ? never : lists.concat(never);
    const all = { params: 'a: t.string', query: 'b: t.array(t.string)', headers: 'c: t.string', body: 'd: t.number' };
    const places = [['alone', (x) => `httpRequest({ ${sec}: { p: ${x} } });`], ['after another property', (x) => `httpRequest({ ${sec}: { ok: t.string, p: ${x} } });`], ['before another property', (x) => `httpRequest({ ${sec}: { p: ${x}, ok: t.string } });`],
      ['with the other sections', (x) => `httpRequest({ ${Object.entries(all).map(([k, v]) => `${k}: { ${v}${k === sec ? `, p: ${x}` : ''} }`).join(', ')} });`], ['in a spec', (x) => `apiSpec({ op: { get: httpRoute({ path: '/x', method: 'GET', request: httpRequest({ ${sec}: { p: ${x} } }), response: res }) } });`], ['by name', (x) => `const props = { p: ${x} };\nhttpRequest({ ${sec}: props });`]];
    for (const [pn, put] of places) W.add(`${sec} ${pn}`, H, put, pn === 'in a spec' ? good.filter((c) => !NOJSON.includes(c)) : good, bad.map((b) => [b, 'cannot be sent as text']).concat(['1', `'text'`, 'null', '{}'].map((b) => [b, 'no codec'])));
    W.add(`section ${sec}`, H, (x) => `httpRequest({ ${sec}: ${x} });`, ['{}', '{ p: t.string }', 'undefined'], [['t.string', 'codec as section'], ['null', 'null'], ['1', 'number'], ['[t.string]', 'list']]);
  }
  // types derived from requests and routes
  const R = ['io-ts-http', 'RequestType'];
  for (const sec of ['params', 'query', 'headers', 'body']) for (const [codec, type, value, wrongT, wrong] of sec === 'body' ? CODECS.concat(BODY) : CODECS) {
    const opt = / \| undefined$/.test(type);
    const head = `const route = httpRoute({ path: '/x', method: 'GET', request: httpRequest({ ${sec}: { other: t.string, p: ${codec} } }), response: res });\ntype Req = RequestType<typeof route>;\ndeclare const r: Req;\n`;
    W.add(`request type of ${sec} ${codec}`, R, head + '«»', [`const v: ${type} = r.p;`, `const v: string = r.other;`, `const v: Req = { other: 'o', p: ${value} };`, `const v: { other: string; p${opt ? '?' : ''}: ${type} } = r; const w: Req = v;`, `const k: 'other' | 'p' = null as unknown as keyof Req; const l: keyof Req = null as unknown as 'other' | 'p';`].concat(opt ? [`const v: Req = { other: 'o' };`] : []),
      [[`const v: ${wrongT} = r.p;`, 'wrong type'], [`const v: Req = { other: 'o', p: ${wrong} };`, 'wrong value'], [`const v: Req = { p: ${value} };`, 'missing'], [`const v: Req = {};`, 'missing'], ['const v: never = r;', 'never'], ['r.q;', 'not declared'], [`r.${sec};`, 'section']].concat(opt ? [] : [[`const v: Req = { other: 'o' };`, 'missing'], [`const v: Req = { other: 'o', p: undefined };`, 'undefined']]));
  }
  const full = `const route = httpRoute({ path: '/x', method: 'GET', request: httpRequest({ params: { a: NumberFromString }, query: { b: optional(t.string), c: t.array(t.string) }, headers: { d: optional(DateFromISOString) }, body: { e: t.boolean, f: optional(t.number) } }), response: { 200: t.type({ ok: t.boolean }), 404: t.string } });\ntype Req = RequestType<typeof route>;\ntype Res = ResponseType<typeof route>;\ndeclare const r: Req;\ndeclare const s: Res;\n`;
  W.add('request type of every section', R, full + '«»', ['const v: { a: number; b?: string; c: string[]; d?: Date; e: boolean; f?: number } = r; const w: Req = v;', `const v: Req = { a: 1, c: [], e: true };`, `const v: Req = { a: 1, b: 'b', c: ['c'], d: new Date(), e: false, f: 1 };`], [['const v: Req = { c: [], e: true };', 'path parameter missing'], ['const v: Req = { a: 1, e: true };', 'query missing'], ['const v: Req = { a: 1, c: [] };', 'body property missing'], [`const v: Req = { a: 1, c: [], e: true, d: '2020' };`, 'encoded header'], ['const v: string = r.b;', 'optional taken as present']]);
  const RT = ['io-ts-http', 'ResponseType'];
  W.add('response type', RT, full + '«»', [`const v: { type: 200; payload: { ok: boolean } } | { type: 404; payload: string } = s; const w: Res = v;`, `const v: Res = { type: 200, payload: { ok: true } };`, `const v: Res = { type: 404, payload: 'x' };`, `if (s.type === 200) { const v: boolean = s.payload.ok; }`, `const v: Res = h.Response.ok({ ok: true });`, `const v: Res = h.Response.notFound('x');`], [[`const v: Res = { type: 201, payload: { ok: true } };`, 'status not declared'], [`const v: Res = { type: 200, payload: 'x' };`, 'payload of another status'], [`const v: Res = { type: 404, payload: { ok: true } };`, 'payload of another status'], [`const v: Res = { type: 200, payload: { ok: 1 } };`, 'wrong payload'], ['s.payload.ok;', 'without checking'], ['const v: never = s;', 'never'], [`const v: Res = h.Response.created({ ok: true });`, 'status not declared'], [`const v: Res = h.Response.ok('x');`, 'wrong payload'], [`if (s.type === 201) {}`, 'status not declared']]);
  for (const [codec, type, value, wrongT, wrong] of RESP) for (const k of ['200', '404', 'ok', 'notFound']) {
    const key = /\d/.test(k) ? k : `'${k}'`;
    W.add(`response type of ${k} ${codec}`, RT, `const route = httpRoute({ path: '/x', method: 'GET', request: req, response: { ${k}: ${codec} } });\ntype Res = ResponseType<typeof route>;\ndeclare const s: Res;\n«»`, [`const v: Res = { type: ${key}, payload: ${value} };`, `const v: ${type} = s.payload; const w: Res['payload'] = v;`, `const v: ${key} = s.type;`], [[`const v: Res = { type: ${key}, payload: ${wrong} };`, 'wrong payload'], [`const v: ${wrongT} = s.payload;`, 'wrong type'], [`const v: Res = { type: 500, payload: ${value} };`, 'status not declared'], [`const v: Res = { type: ${key} };`, 'no payload']]);
  }
  // combinators
  const O = ['io-ts-http', 'optionalized'];
  W.add('optionalized', O, `const c = optionalized({ a: t.string, b: optional(NumberFromString), c: t.undefined, d: t.union([t.undefined, t.string]) });\ntype C = t.TypeOf<typeof c>;\ntype D = t.OutputOf<typeof c>;\ndeclare const v: C;\n«»`, [`const x: C = { a: 'a' };`, `const x: C = { a: 'a', b: 1, d: 'd' };`, 'const x: string = v.a; const y: number | undefined = v.b;', `const x: D = { a: 'a', b: '1' };`], [['const x: C = {};', 'missing'], ['const x: C = { a: 1 };', 'wrong type'], ['const x: number = v.b;', 'optional taken as present'], [`const x: C = { a: 'a', b: '1' };`, 'encoded'], [`const x: D = { a: 'a', b: 1 };`, 'decoded'], ['const x: string = v.d;', 'optional taken as present']]);
  W.add('optional', ['io-ts-http', 'optional'], `const c = optional(NumberFromString);\ntype C = t.TypeOf<typeof c>;\ndeclare const v: C;\n«»`, ['const x: C = undefined;', 'const x: C = 1;', 'const x: number | undefined = v;'], [['const x: number = v;', 'optional taken as present'], [`const x: C = '1';`, 'encoded'], ['const x: C = null;', 'null'], ['optional(1);', 'no codec']]);
  W.add('flattened', ['io-ts-http', 'flattened'], `const c = flattened('f', { p: { a: NumberFromString }, q: { b: optional(t.string) } });\ntype C = t.TypeOf<typeof c>;\ntype D = t.OutputOf<typeof c>;\ndeclare const v: C;\n«»`, ['const x: C = { a: 1 };', `const x: D = { p: { a: '1' }, q: {} };`, `const x: { a: number; b?: string } = v; const y: C = x;`], [['const x: C = {};', 'missing'], [`const x: C = { a: '1' };`, 'encoded'], [`const x: D = { p: { a: 1 }, q: {} };`, 'decoded'], [`const x: D = { a: '1' };`, 'not nested'], ['const x: string = v.b;', 'optional taken as present'], ['v.p;', 'nested']]);
  const F = ['io-ts-http', 'HttpRequestCodec'];
  W.add('own request codecs', F, '«»', [`const c: HttpRequestCodec<{ a: number }> = httpRequest({ params: { a: NumberFromString } });`, `const r = httpRoute({ path: '/x', method: 'GET', request: t.union([httpRequest({}), httpRequest({ query: { a: t.string } })]), response: res });`, `const r = httpRoute({ path: '/x', method: 'GET', request: t.intersection([httpRequest({}), httpRequest({ query: { a: t.string } })]), response: res });`], [[`const c: HttpRequestCodec<{ a: string }> = httpRequest({ params: { a: NumberFromString } });`, 'wrong type'], [`const c: HttpRequestCodec<any> = t.type({ params: t.string, query: t.string });`, 'params as text'], [`const c: HttpRequestCodec<any> = t.type({ params: t.record(t.string, t.number), query: t.record(t.string, t.string) });`, 'params as numbers'], [`const c: HttpRequestCodec<any> = t.type({ params: t.record(t.string, t.string), query: t.record(t.string, t.boolean) });`, 'query as booleans'], [`const c: HttpRequestCodec<any> = t.type({ params: t.record(t.string, t.string), query: t.record(t.string, t.string), headers: t.record(t.string, t.number) });`, 'headers as numbers']]);
  W.run();
}

function Y05(ctx) {
  const W = new Witnesses(ctx, WRAPPER);
  const S = ['express-wrapper', 'ServiceFunction'];
  const K = ['express-wrapper', 'KeyedResponseType'];
  const entry = [['createServer', (v) => `createServer(spec, (app) => (${v}));`, ['express-wrapper', 'createServer']], ['routerForApiSpec', (v) => `routerForApiSpec({ spec, routeHandlers: ${v} });`, ['express-wrapper', 'routerForApiSpec']]];
  const other = (m) => `${next(m)}: async (input) => Response.accepted({ sibling: input.sibling })`;
  const two = (m) => `'op.two': { ${next(m, 2)}: (input) => ({ type: 203 as const, payload: { two: input.two } }) }`;
  const given = (m, en, more) => (en === 'createServer' ? '' : `<(typeof spec)['op.one']['${m}']${more || ''}>`);
  const wraps = [['function', (f) => f], ['routeHandler', (f, m, en) => `routeHandler${given(m, en)}({ handler: ${f} })`], ['routeHandler with middleware', (f, m, en) => `routeHandler${given(m, en, ', [ReturnType<typeof middlewareFn<{ extra: number }>>]')}({ middleware: [middlewareFn(async () => ({ extra: 1 }))], handler: ${f} })`], ['with middleware', (f, m) => `{ middleware: [], handler: ${f.replace('(input)', `(input: h.RequestType<(typeof spec)['op.one']['${m}']>)`)} }`]];
  for (const m of METHODS) for (const [en, ev, EA] of entry) {
    if (en !== 'createServer' && m !== 'get' && m !== 'post' && ctx.tier === 'quick') continue;
    for (const [kn, res] of KINDS) {
      if (kn[1] === 'a' && m !== 'get' && m !== 'put' && ctx.tier === 'quick') continue;
      const num = res === RES;
      const head = spec2(m, REQ, res);
      for (const [wn, wv] of wraps) {
        const name = `${en}, ${kn}, ${wn}, ${m}`;
        const table = (f) => `{ 'op.one': { ${m}: ${wv(f, m, en)}, ${other(m)} }, ${two(m)} }`;
        const typ = (n, k) => (num ? n : `'${k}'`);
        const forms = [['sync', (x) => `(input) => (${x})`], ['async', (x) => `async (input) => (${x})`], ['block', (x) => `async (input) => { if (input.b) { return ${num ? `Response.notFound('x')` : `KeyedResponse.notFound('x')`}; } return ${x}; }`]];
        for (const [fn, f] of forms) {
          if (wn !== 'function' && fn === 'block') continue;
          const good = num ? [`Response.ok({ ok: true })`, `Response.notFound('x')`, `Response.internalError({ d: new Date() })`, `h.Response.ok({ ok: input.b })`, `{ type: 200 as const, payload: { ok: true } }`] : [];
          const keyed = [`KeyedResponse.ok({ ok: true })`, `KeyedResponse.notFound('x')`, `KeyedResponse.internalError({ d: new Date() })`, `{ type: 'ok' as const, payload: { ok: true } }`];
          const bad = [[`{ type: ${typ(201, 'created')} as const, payload: { ok: true } }`, 'status not declared'], [`{ type: ${typ(200, 'ok')} as const, payload: { ok: 1 } }`, 'wrong payload'], [`{ type: ${typ(200, 'ok')} as const, payload: 'x' }`, 'payload of another status'], [`{ type: ${typ(404, 'notFound')} as const, payload: { ok: true } }`, 'payload of another status'], [`{ type: ${typ(500, 'internalError')} as const, payload: { d: '2020' } }`, 'encoded payload'], [`{ type: ${typ(200, 'ok')} as const }`, 'no payload'], [`{ payload: { ok: true } }`, 'no status'], ['undefined', 'nothing'], ['{ ok: true }', 'payload alone'], [num ? `Response.created({ ok: true })` : `KeyedResponse.created({ ok: true })`, 'status not declared'], [num ? `Response.ok('x')` : `KeyedResponse.ok('x')`, 'payload of another status'], [num ? `Response.accepted({ sibling: 's' })` : `KeyedResponse.accepted({ sibling: 's' })`, 'response of another method'],
            [num ? `Response.nonAuthoritativeInformation({ two: 's' })` : `KeyedResponse.nonAuthoritativeInformation({ two: 's' })`, 'response of another operation']];
          const sample = num ? 'Response.ok({ ok: true })' : 'KeyedResponse.ok({ ok: true })';
          W.add(`${name}, ${fn}: responses`, S, (x) => head + ev(table(f(x))), num ? good : keyed, bad);
          if (num && fn !== 'block') W.add(`${name}, ${fn}: responses by name`, K, (x) => head + ev(table(f(x))), keyed, [[`KeyedResponse.created({ ok: true })`, 'status not declared'], [`KeyedResponse.ok('x')`, 'payload of another status'], [`KeyedResponse.notFound({ ok: true })`, 'payload of another status'], [`KeyedResponse.ok({ ok: 1 })`, 'wrong payload'], [`{ type: 'nothing' as const, payload: { ok: true } }`, 'no status']]);
          if (fn === 'sync') W.add(`${name}: input`, S, (x) => head + ev(table(`(input) => { ${x} return ${sample}; }`)), ['const v: number = input.id;', 'const v: string | undefined = input.q;', 'const v: string[] = input.tags;', 'const v: string = input.hd;', 'const v: boolean = input.b;', 'const v: number = input.nested.x;'], [['const v: string = input.id;', 'wrong type'], ['const v: string = input.q;', 'optional taken as present'], ['input.nope;', 'not declared'], ['input.sibling;', 'of another method'], ['input.two;', 'of another operation']]);
        }
      }
      const ok = num ? '(input) => Response.ok({ ok: true })' : '(input) => KeyedResponse.ok({ ok: true })';
      W.add(`${en}, ${kn}, ${m}: table`, EA, (x) => head + ev(x), [`{ 'op.one': { ${m}: ${ok}, ${other(m)} }, ${two(m)} }`, `{ ${two(m)}, 'op.one': { ${other(m)}, ${m}: ${ok} } }`], [[`{ 'op.one': { ${m}: ${ok}, ${other(m)} } }`, 'operation missing'], [`{ 'op.one': { ${m}: ${ok} }, ${two(m)} }`, 'method missing'], [`{ 'op.one': { ${other(m)} }, ${two(m)} }`, 'method missing'], [`{ ${two(m)} }`, 'operation missing'], ['{}', 'empty'], [`{ 'op.one': { ${m}: undefined, ${other(m)} }, ${two(m)} }`, 'handler undefined'], [`{ 'op.one': { ${m}: null, ${other(m)} }, ${two(m)} }`, 'handler null'], [`{ 'op.one': { ${m}: 1, ${other(m)} }, ${two(m)} }`, 'handler no function'], [`{ 'op.one': {}, 'op.two': {} }`, 'methods missing'], [`{ 'op.one': { ${next(m)}: ${ok}, ${m}: (input) => Response.accepted({ sibling: 's' }) }, ${two(m)} }`, 'handlers exchanged']]);
    }
  }
  for (const [codec, type, value, , wrong] of RESP) {
    const one = (x) => `const spec = apiSpec({ op: { get: httpRoute({ path: '/x', method: 'GET', request: httpRequest({}), response: { 200: ${codec}, 400: ${other400(type)} } }) } });\ncreateServer(spec, () => ({ op: { get: async () => (${x}) } }));`;
    W.add(`response ${codec}`, S, one, [`Response.ok(${value})`, `Response.invalidRequest(${value400(type)})`, `KeyedResponse.ok(${value})`, `Response.ok(null as unknown as ${type})`], [[`Response.ok(${wrong})`, 'wrong payload'], [`Response.invalidRequest(${value})`, 'payload of another status'], [`Response.ok(${value400(type)})`, 'payload of another status'], [`KeyedResponse.ok(${wrong})`, 'wrong payload'], [`KeyedResponse.invalidRequest(${value})`, 'payload of another status'], ['Response.ok(undefined)', 'no payload'], ['Response.ok({})', 'empty']]);
  }
  // service functions declared by their type
  const sf = spec2('get', REQ, RES) + `type R = (typeof spec)['op.one']['get'];\n`;
  W.add('declared service function', S, sf + '«»', [`const f: ServiceFunction<R> = (input) => Response.ok({ ok: input.b });`, `const f: ServiceFunction<R> = async (input) => KeyedResponse.notFound(input.hd);`, `const f: ServiceFunction<R, { a: string }> = async ({ a }) => Response.notFound(a);`, `const k: KeyedResponseType<R> = KeyedResponse.ok({ ok: true });`, `const k: { type: 'ok'; payload: { ok: boolean } } | { type: 'notFound'; payload: string } | { type: 'internalError'; payload: { d: Date } } = null as unknown as KeyedResponseType<R>; const l: KeyedResponseType<R> = k;`], [[`const f: ServiceFunction<R> = (input) => Response.ok({ ok: input.id });`, 'wrong payload'], [`const f: ServiceFunction<R> = (input) => Response.created({ ok: true });`, 'status not declared'], [`const f: ServiceFunction<R, { a: number }> = async ({ a }) => Response.notFound(a);`, 'wrong payload'], [`const k: KeyedResponseType<R> = KeyedResponse.created({ ok: true });`, 'status not declared'], [`const k: KeyedResponseType<R> = { type: 200, payload: { ok: true } };`, 'by number'], ['const k: never = null as unknown as KeyedResponseType<R>;', 'never']]);
  W.run();
}

module.exports = { Y01, Y02, Y03, Y04, Y05, Witnesses };
