'use strict';
// Rules over what single expressions are described as: literals, enums and the codecs known by name.
const { T, P, scenario } = require('./lib');
const { L, N, key, get, cv } = require('./shapes');
const { VP } = require('./source');
const { entry, lib, marks, runs, outcome, response, operation, said, at, PACKAGES } = require('./project');
const { ofIR, ofDoc, diff, text, UNDEF } = require('./openapi');
const ts = P.ts;
const K = T.K;
const str = (...vs) => ({ type: 'string', enum: vs });
const num = (...vs) => ({ type: 'number', enum: vs });
const bool = (...vs) => ({ type: 'boolean', enum: vs });
const NULL = { type: 'null' };
const ANY = { type: 'any' };
const object = (properties, required) => ({ type: 'object', properties, required: required || Object.keys(properties) });
const union = (...schemas) => ({ type: 'union', schemas });
const inter = (...schemas) => ({ type: 'intersection', schemas });
const array = (items) => ({ type: 'array', items });
// the schema without the constraints compared separately
const means = (d) => { const issues = []; const c = ofDoc(d, issues); return { c, issues }; };
// like judgeOne, but an error will do as well
const unlessError = (ctx, name, src, want, where, kind, f) => scenario(ctx, name, () => runs(ctx, typeof src === 'string' ? { '/p/index.ts': src } : src, (r) => {
  const oc = outcome(ctx, r, name);
  if (oc === 'error') ctx.check(true);
  if (oc !== 'doc') return;
  const { c, issues } = means(response(r.doc));
  const d = issues[0] || (want && diff(ofIR(want, (s) => s.name), c, 'the schema'));
  ctx.check(!d, `${name}: ${d}`, where, kind);
}, { packages: PACKAGES }));
// one run of the generator, expected to give the response the meaning want (IR); want undefined: an error
function judgeOne(ctx, name, src, want, where, kind, f, o) {
  scenario(ctx, name, () => runs(ctx, typeof src === 'string' ? { '/p/index.ts': src } : src, (r) => {
    const oc = outcome(ctx, r, name);
    if (!oc) return;
    if (want === undefined) { ctx.check(oc === 'error', `${name}: the generator describes it as ${oc === 'doc' ? key(response(r.doc) || { V: T.undef }).slice(0, 200) : ''}`, where, kind); return; }
    if (!ctx.check(oc === 'doc', `${name}: the generator fails: ${oc === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, kind)) return;
    const d = response(r.doc);
    if (!ctx.check(!!d, `${name}: the response has no schema`, where, kind)) return;
    if (want !== null) {
      const wants = Array.isArray(want) ? want : [want];
      const { c, issues } = means(d);
      for (const i of issues) ctx.check(false, `${name}: ${i}`, where, kind);
      const ds = wants.map((w) => diff(ofIR(w, (s) => s.name), c, 'the schema'));
      ctx.check(ds.some((x) => x === undefined), `${name}: ${ds[0]}`, where, kind);
    }
    if (f) f(r, d);
  }, Object.assign({ packages: PACKAGES }, o || {})));
}

// ---------- G15: literals, lists, objects, enums
const LITERALS = {
  text: [`'$txt'`, () => str(L('txt'))], 'double-quoted text': [`"$txt"`, () => str(L('txt'))], 'empty text': [`''`, () => str('')], 'text with spaces': [`'a b'`, () => str('a b')], 'text of digits': [`'0'`, () => str('0')], 'text true': [`'true'`, () => str('true')], 'text null': [`'null'`, () => str('null')], 'text undefined': [`'undefined'`, () => str('undefined')],
  number: [`$num(n)`, () => num(N('n'))], zero: ['0', () => num(0)], one: ['1', () => num(1)], fraction: ['1.5', () => num(1.5)], hex: ['0x10', () => num(16)], exponent: ['1e3', () => num(1000)],
  true: ['true', () => bool(true)], false: ['false', () => bool(false)], null: ['null', () => NULL],
  template: ['`$txt`', () => str(L('txt'))], 'empty template': ['``', () => str('')], 'template with a text': ["`a ${'b'} c`", () => str('a b c')], 'template of two texts': ["`${'a'}${'b'}`", () => str('ab')], 'nested template': ["`a${`b${'c'}`}d`", () => str('abcd')],
  'template with an unknown text': ["`a ${'$txt'} c`", () => ({ type: 'string', enum: [T.concat([K('a '), L('txt'), K(' c')])] })],
  'template with a name': ["`a ${Part} c`", () => str('a part c'), `const Part = 'part';`], 'template with two names': ["`${Part}/${Other}`", () => str('part/other'), `const Part = 'part'; const Other = 'other';`], 'template with a template': ["`<${Part}>`", () => str('<[x]>'), "const Inner = 'x'; const Part = `[${Inner}]`;"], 'template with an asserted name': ["`a ${Part} c`", () => str('a part c'), `const Part = 'part' as const;`],
};
const OPEN = { sum: '1 + 2', difference: '3 - 1', 'joined texts': `'a' + 'b'`, negation: '!true', minus: '-1', plus: '+1', condition: `true ? 1 : 2`, or: `'a' || 'b'`, 'a bigint': '1n', 'a regular expression': '/a/', 'a new object': 'new Thing()', 'a class': 'class {}', 'a function': 'function () { return 1; }', typeof: 'typeof 1' };
const WRAPPED = { parenthesised: (x) => `(${x})`, 'not null': (x) => `${x}!`, 'type assertion': (x) => `<any>${x}` };
// ways to write a literal: [expression, more declarations, more files]
const WAYS = {
  itself: (x) => [x], 'const assertion': (x) => [`${x} as const`], 'type assertion': (x) => [`${x} as any`], 'two assertions': (x) => [`${x} as unknown as const`.replace('as unknown as const', 'as unknown as any')],
  name: (x, pre) => ['V', `${pre}\nconst V = ${x};`], 'asserted name': (x, pre) => ['V', `${pre}\nconst V = ${x} as const;`], 'asserted use of a name': (x, pre) => ['V as any', `${pre}\nconst V = ${x};`], 'exported name': (x, pre) => ['V', `${pre}\nexport const V = ${x};`],
  import: (x, pre) => ['V', `import { V } from './b';`, { '/p/b.ts': lib(`${pre}\nexport const V = ${x};`) }], 'renaming import': (x, pre) => ['V', `import { W as V } from './b';`, { '/p/b.ts': lib(`${pre}\nexport const V = 'other'; export const W = ${x};`) }], namespace: (x, pre) => ['b.V', `import * as b from './b';`, { '/p/b.ts': lib(`${pre}\nexport const V = ${x};`) }],
  'member of an object': (x, pre) => ['O.key', `${pre}\nconst O = { other: 'other', key: ${x}, last: 1 };`], 'member of an asserted object': (x, pre) => ['O.key', `${pre}\nconst O = { other: 'other', key: ${x} } as const;`], 'member of an imported object': (x, pre) => ['O.key', `import { O } from './b';`, { '/p/b.ts': lib(`${pre}\nexport const O = { other: 'other', key: ${x} };`) }],
};
const ENUMS = {
  texts: [`A = 'x', B = 'y', C = '$txt'`, { A: 'x', B: 'y', C: L('txt') }], automatic: [`A, B, C`, { A: 0, B: 1, C: 2 }], numbers: [`A = 5, B = 7, C = 1`, { A: 5, B: 7, C: 1 }], 'automatic after a number': [`A, B = 5, C, D`, { A: 0, B: 5, C: 6, D: 7 }], 'number then automatic twice': [`A = 1, B, C = 10, D`, { A: 1, B: 2, C: 10, D: 11 }],
  'texts after numbers': [`A, B, C = 'c'`, { A: 0, B: 1, C: 'c' }], 'number after text': [`A = 'a', B = 3, C`, { A: 'a', B: 3, C: 4 }], 'quoted names': [`A = 'x', 'B-b' = 'y', C = 'z'`, { A: 'x', C: 'z' }, ['A', 'B-b', 'C']], 'one member': [`A`, { A: 0 }], 'a fraction': [`A = 1.5, B`, { A: 1.5, B: 2.5 }], 'equal values': [`A = 'x', B = 'x'`, { A: 'x', B: 'x' }],
  'a negative number': [`A = -2, B, C = 4`, { A: -2, B: -1, C: 4 }, undefined, true], 'computed': [`A = 1 << 1, B = 1 << 2, C = 9`, { A: 2, B: 4, C: 9 }, undefined, true], 'automatic after computed': [`A = 1 << 1, B, C = 9, D`, { A: 2, B: 3, C: 9, D: 10 }, undefined, true], 'template': ['A = `x`, B = `y`', { A: 'x', B: 'y' }],
};
const judge = judgeOne;
const lit = (v) => (typeof v === 'number' || (v && v.n && /^lit:number/.test(v.n)) ? num(v) : typeof v === 'boolean' ? bool(v) : str(v));
function G15(ctx) {
  ctx.limit = 30e3;
  const where = at('codec.ts');
  const thorough = ctx.tier === 'thorough';
  // every literal, written in every way, in every position of a literal
  const POS = {
    'a literal': [(x) => `t.literal(${x})`, (s) => s], 'a property': [(x) => `t.type({ p: t.literal(${x}) })`, (s) => object({ p: s })], 'an alternative': [(x) => `t.union([t.literal(${x}), t.type({ o: t.string })])`, (s) => union(s, object({ o: { type: 'string' } }))], 'an item': [(x) => `t.array(t.literal(${x}))`, (s) => array(s)],
    'a value': [(x) => `t.record(t.string, t.literal(${x}))`, (s) => ({ type: 'record', codomain: s })],
  };
  for (const [ln, [x, want, pre]] of Object.entries(LITERALS)) for (const [wn, way] of Object.entries(WAYS)) for (const [pn, [use, wrap]] of Object.entries(POS)) {
    if (!thorough && pn !== 'a literal' && wn !== 'itself' && ln !== 'text' && ln !== 'number') continue;
    const [e, decl, files] = way(x, pre || '');
    judge(ctx, `${ln} (${wn}) as ${pn}`, Object.assign({ '/p/index.ts': entry(decl === undefined ? pre || '' : decl, use(e)) }, files || {}), wrap(want()), where, `literal: ${ln}`);
  }
  // expressions that cannot be described are left open, or what they mean
  for (const [on, x] of Object.entries(OPEN)) {
    judge(ctx, `${on} as a property`, entry('class Thing {}', `t.type({ a: t.string, p: ${x}, b: t.number })`), object({ a: { type: 'string' }, p: ANY, b: { type: 'number' } }), where, 'open: ' + on);
    judge(ctx, `${on} as a literal`, entry('class Thing {}', `t.literal(${x})`), undefined, where, 'open literal: ' + on);
    judge(ctx, `${on} as an item`, entry('class Thing {}', `t.array(${x})`), array(ANY), where, 'open: ' + on);
    judge(ctx, `${on} as a property through a name`, entry(`class Thing {} const O = { p: ${x} };`, `t.type({ ...O, q: t.string })`), object({ p: ANY, q: { type: 'string' } }), where, 'open: ' + on);
  }
  for (const [wn, w] of Object.entries(WRAPPED)) for (const [c, want] of [['t.string', { type: 'string' }], ['t.type({ p: t.number })', object({ p: { type: 'number' } })]]) judge(ctx, `${wn} ${c}`, entry('', `t.type({ p: ${w(c)} })`), [object({ p: ANY }), object({ p: want })], where, 'open: ' + wn);
  // lists: every element, in order
  const el = (n) => `t.type({ n: t.literal('$${n}') })`;
  const order = (names, f) => (r, d) => {
    const xs = ((get(d, 'oneOf') || get(d, 'anyOf') || get(d, 'allOf') || {}).A || []).map((x) => [...marks(r.doc, x)].join());
    ctx.check(f ? f(xs) : xs.join() === names.join(), `the elements ${names.join()} are listed as ${xs.join()}`, where, 'order');
  };
  const el2 = (n) => object({ n: str(L(n)) });
  const LISTS = {
    'one element': [`[${el('e1')}]`, ['e1']], 'two elements': [`[${el('e1')}, ${el('e2')}]`, ['e1', 'e2']], 'three elements': [`[${el('e1')}, ${el('e2')}, ${el('e3')}]`, ['e1', 'e2', 'e3']], 'five elements': [`[${['e1', 'e2', 'e3', 'e4', 'e5'].map(el).join()}]`, ['e1', 'e2', 'e3', 'e4', 'e5']],
    'spread first': [`[...[${el('e1')}, ${el('e2')}], ${el('e3')}]`, ['e1', 'e2', 'e3']], 'spread last': [`[${el('e1')}, ...[${el('e2')}, ${el('e3')}]]`, ['e1', 'e2', 'e3']], 'spread in the middle': [`[${el('e1')}, ...[${el('e2')}], ${el('e3')}]`, ['e1', 'e2', 'e3']], 'two spreads': [`[...[${el('e1')}], ...[${el('e2')}]]`, ['e1', 'e2']], 'nested spread': [`[...[...[${el('e1')}], ${el('e2')}]]`, ['e1', 'e2']],
    'spread of a name': [`[${el('e1')}, ...More, ${el('e4')}]`, ['e1', 'e2', 'e3', 'e4'], `const More = [${el('e2')}, ${el('e3')}];`], 'spread of an asserted name': [`[...More, ${el('e3')}]`, ['e1', 'e2', 'e3'], `const More = [${el('e1')}, ${el('e2')}] as const;`], 'a name': ['All', ['e1', 'e2'], `const All = [${el('e1')}, ${el('e2')}];`], 'asserted list': [`[${el('e1')}, ${el('e2')}] as const`, ['e1', 'e2']], 'empty spread': [`[...[], ${el('e1')}, ${el('e2')}]`, ['e1', 'e2']],
    'names': ['[A, B, C]', ['e1', 'e2', 'e3'], `const B = ${el('e2')}; const A = ${el('e1')}; const C = ${el('e3')};`, true],
  };
  for (const [n, [x, names, pre, refs]] of Object.entries(LISTS)) {
    judge(ctx, `a union of a list with ${n}`, entry(pre || '', `t.union(${x})`), refs ? null : union(...names.map(el2)), where, 'list: ' + n, names.length > 1 ? order(names) : undefined);
    judge(ctx, `alternatives of a property: ${n}`, entry(pre || '', `t.type({ p: t.union(${x}) })`), refs ? null : object({ p: union(...names.map(el2)) }), where, 'list: ' + n);
    judge(ctx, `members of an intersection: ${n}`, entry(pre || '', `t.intersection(${x})`), null, where, 'list: ' + n, (r, d) => { if (refs) order(names)(r, d); else { const m = [...marks(r.doc, d)]; ctx.check(m.length > 0 && m.every((y) => names.includes(y)), `an intersection of ${names.join()} is described as ${m.join()}`, where, 'list: ' + n); } });
  }
  judge(ctx, 'a list with a hole', entry('', `t.union([t.string, , t.number])`), undefined, where, 'list: hole');
  for (const [n, vs] of Object.entries({ texts: [`'b'`, `'a'`, `'c'`], numbers: ['3', '1', '2'], 'texts and numbers': [`'b'`, '2', `'a'`, '1'] })) judge(ctx, `a union of literal ${n}`, entry('', `t.union([${vs.map((v) => `t.literal(${v})`).join()}])`), union(...vs.map((v) => (/'/.test(v) ? str(v.replace(/'/g, '')) : num(Number(v))))), where, 'list: literals ' + n, (r, d) => {
    const ens = []; const go = (x) => { const e = get(x, 'enum'); if (e && e.A) ens.push(e.A.map((y) => key(y)).join()); for (const k of ['oneOf', 'anyOf']) for (const y of (get(x, k) || {}).A || []) go(y); };
    go(d);
    const want = [vs.filter((v) => /'/.test(v)).map((v) => v.replace(/'/g, '"')).join(), vs.filter((v) => !/'/.test(v)).join()].filter(Boolean);
    ctx.check(ens.join(' ') === want.join(' '), `the literals ${vs.join()} are listed as ${ens.join(' ')}`, where, 'order');
  });
  // objects: every property under its own name
  const P1 = (n) => `t.literal('$${n}')`; const W1 = (n) => str(L(n));
  const OBJECTS = {
    'identifiers': [`{ a: ${P1('m1')}, b: ${P1('m2')}, _c$: ${P1('m3')} }`, { a: 'm1', b: 'm2', _c$: 'm3' }], 'quoted names': [`{ 'a-b': ${P1('m1')}, 'c d': ${P1('m2')}, "e": ${P1('m3')}, '': ${P1('m4')} }`, { 'a-b': 'm1', 'c d': 'm2', e: 'm3', '': 'm4' }], 'numbers': [`{ 1: ${P1('m1')}, 0x10: ${P1('m2')}, 1.5: ${P1('m3')}, 1e3: ${P1('m4')} }`, { 1: 'm1', 16: 'm2', 1.5: 'm3', 1000: 'm4' }],
    'computed texts': [`{ ['a']: ${P1('m1')}, ['b c']: ${P1('m2')} }`, { a: 'm1', 'b c': 'm2' }, '', true], 'computed name': [`{ [Key]: ${P1('m1')}, other: ${P1('m2')} }`, { thekey: 'm1', other: 'm2' }, `const Key = 'thekey';`], 'two computed names': [`{ [Key]: ${P1('m1')}, [Other]: ${P1('m2')} }`, { thekey: 'm1', theother: 'm2' }, `const Key = 'thekey'; const Other = 'theother';`], 'computed member': [`{ [O.Key]: ${P1('m1')} }`, { thekey: 'm1' }, `const O = { Other: 'other', Key: 'thekey' };`], 'computed enum member': [`{ [E.B]: ${P1('m1')}, [E.A]: ${P1('m2')} }`, { y: 'm1', x: 'm2' }, `enum E { A = 'x', B = 'y' }`], 'computed automatic enum member': [`{ [E.B]: ${P1('m1')}, [E.A]: ${P1('m2')} }`, { 1: 'm1', 0: 'm2' }, `enum E { A, B }`], 'computed asserted name': [`{ [Key]: ${P1('m1')} }`, { thekey: 'm1' }, `const Key = 'thekey' as const;`], 'computed number': [`{ [Key]: ${P1('m1')} }`, { 7: 'm1' }, `const Key = 7;`],
    'shorthand': [`{ a, b: ${P1('m2')}, c }`, { a: 'm1', b: 'm2', c: 'm3' }, `const c = ${P1('m3')}; const a = ${P1('m1')};`], 'spread first': [`{ ...{ a: ${P1('m1')}, b: ${P1('m2')} }, c: ${P1('m3')} }`, { a: 'm1', b: 'm2', c: 'm3' }], 'spread last': [`{ c: ${P1('m3')}, ...{ a: ${P1('m1')}, b: ${P1('m2')} } }`, { a: 'm1', b: 'm2', c: 'm3' }], 'two spreads': [`{ ...A, ...B }`, { a: 'm1', b: 'm2' }, `const A = { a: ${P1('m1')} }; const B = { b: ${P1('m2')} };`], 'nested spread': [`{ ...{ ...{ a: ${P1('m1')} }, b: ${P1('m2')} } }`, { a: 'm1', b: 'm2' }], 'spread of a spreading name': [`{ ...B, c: ${P1('m3')} }`, { a: 'm1', b: 'm2', c: 'm3' }, `const A = { a: ${P1('m1')} }; const B = { ...A, b: ${P1('m2')} };`],
    'a later property of the name': [`{ a: ${P1('m1')}, b: ${P1('m2')}, a: ${P1('m3')} }`.replace(', a:', `, ['a']:`), { a: 'm3', b: 'm2' }, '', true], 'a property after a spread of the name': [`{ ...A, a: ${P1('m2')} }`, { a: 'm2', b: 'm3' }, `const A = { a: ${P1('m1')}, b: ${P1('m3')} };`], 'a spread after a property of the name': [`{ a: ${P1('m2')}, ...A }`, { a: 'm1', b: 'm3' }, `const A = { a: ${P1('m1')}, b: ${P1('m3')} };`], 'the later of two spreads': [`{ ...A, ...B }`, { a: 'm2' }, `const A = { a: ${P1('m1')} }; const B = { a: ${P1('m2')} };`],
    'names of the format': [`{ type: ${P1('m1')}, properties: ${P1('m2')}, required: ${P1('m3')}, items: ${P1('m4')}, enum: ${P1('m5')}, comment: ${P1('m6')} }`, { type: 'm1', properties: 'm2', required: 'm3', items: 'm4', enum: 'm5', comment: 'm6' }], asserted: [`{ a: ${P1('m1')} } as const`, { a: 'm1' }], 'a name': ['O', { a: 'm1', b: 'm2' }, `const O = { a: ${P1('m1')}, b: ${P1('m2')} };`], 'empty': ['{}', {}], 'many': [`{ ${[...Array(9).keys()].map((i) => `p${i}: ${P1('m' + i)}`).join()} }`, Object.fromEntries([...Array(9).keys()].map((i) => ['p' + i, 'm' + i]))],
    'a template name': ["{ [`a-${Part}`]: " + P1('m1') + ' }', { 'a-part': 'm1' }, `const Part = 'part';`, true], 'a spread of a call': [`{ ...f(), b: ${P1('m2')} }`, { a: 'm1', b: 'm2' }, `const f = () => ({ a: ${P1('m1')} });`, true],
  };
  for (const [n, [x, props, pre, maybe]] of Object.entries(OBJECTS)) {
    const judge = maybe ? unlessError : judgeOne;
    const want = object(Object.fromEntries(Object.entries(props).map(([k, m]) => [k, W1(m)])));
    judge(ctx, `an object with ${n}`, entry(pre || '', `t.type(${x})`), want, where, 'object: ' + n);
    judge(ctx, `a partial object with ${n}`, entry(pre || '', `t.partial(${x})`), object(want.properties, []), where, 'object: ' + n);
    judge(ctx, `a nested object with ${n}`, entry(pre || '', `t.type({ o: t.type(${x}), l: t.string })`), object({ o: want, l: { type: 'string' } }), where, 'object: ' + n);
    if (Object.keys(props).length) judge(ctx, `the names of an object with ${n}`, entry(pre || '', `t.keyof(${x})`), union(...Object.keys(props).map((k) => str(k))), where, 'names: ' + n);
    judge(ctx, `a spread of an object with ${n}`, entry(pre || '', `t.type({ zz: t.string, ...${x} })`), object(Object.assign({ zz: { type: 'string' } }, want.properties)), where, 'object: ' + n);
  }
  // enums: names and values of the members
  for (const [n, [body, values, names, open]] of Object.entries(ENUMS)) for (const [dn, decl, files] of [['declared', `enum E { ${body} }`], ['exported', `export enum E { ${body} }`], ['const', `const enum E { ${body} }`], ['declared later', '', undefined], ['imported', `import { E } from './b';`, { '/p/b.ts': `export enum E { ${body} }` }], ['renamed', `import { F as E } from './b';`, { '/p/b.ts': `export enum E { Z = 'z' }\nenum G { ${body} }\nexport { G as F };` }]]) {
    const src = (use) => Object.assign({ '/p/index.ts': entry(decl, use) + (dn === 'declared later' ? `\nenum E { ${body} }` : '') }, files || {});
    for (const [m, v] of Object.entries(values)) {
      const name = `member ${m} of an enum (${n}, ${dn})`;
      if (open) scenario(ctx, name, () => runs(ctx, src(`t.type({ p: t.literal(E.${m}) })`), (r) => { const oc = outcome(ctx, r, name); if (oc === 'doc') { const d = diff(ofIR(object({ p: lit(v) })), means(response(r.doc)).c, 'the schema'); const d2 = diff(ofIR(object({ p: ANY })), means(response(r.doc)).c); ctx.check(!d || !d2, `${name}: ${d}`, where, 'enum: ' + n); } else if (oc) ctx.check(true); }, { packages: PACKAGES }));
      else judge(ctx, name, src(`t.literal(E.${m})`), lit(v), where, 'enum: ' + n);
    }
    const ns = names || Object.keys(values);
    judge(ctx, `the names of an enum (${n}, ${dn})`, src('t.keyof(E)'), union(...ns.map((k) => str(k))), where, 'enum names: ' + n);
    if (!open && !names && !/declared later|const/.test(dn)) judge(ctx, `a union of the members of an enum (${n}, ${dn})`, src(ns.length > 1 ? `t.union([${ns.map((k) => `t.literal(E.${k})`).join()}])` : `t.literal(E.${ns[0]})`), union(...ns.map((k) => lit(values[k]))), where, 'enum: ' + n);
  }
}

// ---------- G08: the codecs known by name
const STRING = { type: 'string' }; const NUMBER = { type: 'number' }; const BOOLEAN = { type: 'boolean' };
const AA = `t.type({ a: t.literal('$ma') })`; const aa = object({ a: str(L('ma')) });
const BB = `t.type({ b: t.literal('$mb') })`; const bb = object({ b: str(L('mb')) });
const props = `{ a: t.literal('$ma'), b: t.literal('$mb') }`; const pp = { a: str(L('ma')), b: str(L('mb')) };
const record = (codomain, domain) => (domain ? { type: 'record', domain, codomain } : { type: 'record', codomain });
// what each codec decodes from, by the documentation of its package: [use, meaning]
const IO = {
  string: ['t.string', STRING], number: ['t.number', NUMBER], bigint: ['t.bigint', NUMBER], boolean: ['t.boolean', BOOLEAN], null: ['t.null', NULL], nullType: ['t.nullType', NULL], unknown: ['t.unknown', ANY], any: ['t.any', ANY], object: ['t.object', object({})], UnknownRecord: ['t.UnknownRecord', record(ANY)],
  array: [`t.array(${AA})`, array(aa)], readonlyArray: [`t.readonlyArray(${AA})`, array(aa)], type: [`t.type(${props})`, object(pp)], strict: [`t.strict(${props})`, object(pp)], partial: [`t.partial(${props})`, object(pp, [])], exact: [`t.exact(${AA})`, aa], 'exact partial': [`t.exact(t.partial(${props}))`, object(pp, [])],
  record: [`t.record(t.string, ${AA})`, record(aa)], 'record of names': [`t.record(t.union([t.literal('k1'), t.literal('k2')]), ${AA})`, object({ k1: aa, k2: aa })], 'record of keys': [`t.record(t.keyof({ k1: null, k2: null }), ${AA})`, object({ k1: aa, k2: aa })], 'record of one name': [`t.record(t.literal('k1'), ${AA})`, object({ k1: aa })],
  union: [`t.union([${AA}, ${BB}])`, union(aa, bb)], 'union of three': [`t.union([${AA}, t.string, ${BB}])`, union(aa, STRING, bb)], intersection: [`t.intersection([${AA}, ${BB}])`, object(pp)], 'intersection of three': [`t.intersection([${AA}, t.partial({ c: t.string }), ${BB}])`, object(Object.assign({ c: STRING }, pp), ['a', 'b'])], 'intersection with a record': [`t.intersection([${AA}, t.record(t.string, t.number)])`, inter(aa, record(NUMBER))],
  literal: [`t.literal('$ma')`, str(L('ma'))], 'literal number': ['t.literal($num(n))', num(N('n'))], 'literal true': ['t.literal(true)', bool(true)], keyof: [`t.keyof({ k1: null, k2: 1 })`, union(str('k1'), str('k2'))], 'keyof one': [`t.keyof({ k1: null })`, str('k1')], brand: [`t.brand(${AA}, n => true, 'Brand')`, aa],
};
const SPECIAL = { JsonFromString: STRING, UUID: STRING, NonEmptyString: STRING, date: STRING, DateFromISOString: STRING, DateFromNumber: NUMBER, DateFromUnixTime: NUMBER, BooleanFromNumber: num(0, 1), BooleanFromString: BOOLEAN, Json: ANY, JsonRecord: record(ANY) };
const NUMBERS = ['NumberFromString', 'NaturalFromString', 'Negative', 'NegativeFromString', 'NegativeInt', 'NegativeIntFromString', 'NonNegative', 'NonNegativeFromString', 'NonNegativeInt', 'NonNegativeIntFromString', 'NonPositive', 'NonPositiveFromString', 'NonPositiveInt', 'NonPositiveIntFromString', 'NonZero', 'NonZeroFromString', 'NonZeroInt', 'NonZeroIntFromString', 'Positive', 'PositiveFromString', 'Zero', 'ZeroFromString'];
const BIGINTS = ['BigIntFromString', 'NegativeBigInt', 'NegativeBigIntFromString', 'NonNegativeBigInt', 'NonNegativeBigIntFromString', 'NonPositiveBigInt', 'NonPositiveBigIntFromString', 'NonZeroBigInt', 'NonZeroBigIntFromString', 'PositiveBigInt', 'PositiveBigIntFromString', 'ZeroBigInt', 'ZeroBigIntFromString', 'NonEmptyString'];
const TYPES = ['NumberFromString', 'BigIntFromString', 'BooleanFromNumber', 'BooleanFromString', 'DateFromISOString', 'DateFromNumber', 'DateFromUnixTime', 'IntFromString', 'JsonFromString', 'NonEmptyString', 'UUID', 'Json', 'JsonRecord', 'date'];
// wire type and bounds a name stands for
function ofName(n) {
  if (SPECIAL[n]) return { wire: SPECIAL[n], minLength: n === 'NonEmptyString' ? 1 : undefined };
  const m = /^(Non)?(Negative|Positive|Zero|Natural|Number|BigInt|Int)?(BigInt|Int)?(FromString)?$/.exec(n);
  if (!m) return undefined;
  const sign = (m[1] || '') + (m[2] || '');
  const whole = /Int/.test(n) || /Natural/.test(n);
  const b = { Negative: ['max', 0, true], NonNegative: ['min', 0, false], Natural: ['min', 0, false], Positive: ['min', 0, true], NonPositive: ['max', 0, false] }[sign];
  return { wire: m[4] ? STRING : NUMBER, bound: b, whole, zero: sign === 'Zero', decoded: m[4] ? (/BigInt/.test(n) ? 'bigint' : 'number') : undefined };
}
const BOUNDS = ['minimum', 'maximum', 'exclusiveMinimum', 'exclusiveMaximum', 'minLength', 'maxLength', 'minItems', 'maxItems', 'multipleOf', 'minProperties', 'maxProperties', 'uniqueItems'];
function bounds(ctx, name, d, want, where, kind) {
  const v = {}; for (const k of BOUNDS) { const x = get(d, k); if (x !== undefined && !(x.V && x.V === T.undef)) v[k] = cv(x); }
  const said = BOUNDS.filter((k) => k in v).map((k) => `${k} ${v[k]}`).join(', ') || 'no bounds';
  let { bound } = want;
  const sides = { min: v.minimum, max: v.maximum };
  const ex = { min: v.exclusiveMinimum === true, max: v.exclusiveMaximum === true };
  // for whole numbers x > 0 is x >= 1
  for (const s of ['min', 'max']) {
    const have = sides[s] === undefined ? undefined : want.whole && ex[s] ? sides[s] + (s === 'min' ? 1 : -1) + ' inclusive' : sides[s] + (ex[s] ? ' exclusive' : ' inclusive');
    const b = bound && bound[0] === s ? (want.whole && bound[2] ? bound[1] + (s === 'min' ? 1 : -1) + ' inclusive' : bound[1] + (bound[2] ? ' exclusive' : ' inclusive')) : undefined;
    const ok = have === b || (want.zero && have === '0 inclusive');
    ctx.check(ok, `${name} is described with ${said} instead of a ${s}imum of ${b || 'none'}`, where, kind);
    ctx.check(!(ex[s] && sides[s] === undefined), `${name} has an exclusive bound without a bound`, where, kind);
  }
  for (const k of ['minLength', 'minItems']) ctx.check(v[k] === want[k], `${name} is described with ${said} instead of ${want[k] === undefined ? 'no ' + k : k + ' ' + want[k]}`, where, kind);
  for (const k of ['maxLength', 'maxItems', 'multipleOf', 'minProperties', 'maxProperties', 'uniqueItems']) ctx.check(!(k in v), `${name} is described with ${said}`, where, kind);
}
function G08(ctx) {
  ctx.limit = 30e3;
  const where = at('knownImports.ts');
  const pre = `import * as n from 'io-ts-numbers';\nimport * as bi from 'io-ts-bigint';\nimport * as tt from 'io-ts-types';`;
  // in every position a codec can take
  const POS = { response: [(x) => x, (w) => w, (d) => d], property: [(x) => `t.type({ p: ${x}, q: t.string })`, (w) => object({ p: w, q: STRING }), (d) => get(d, 'properties', 'p')], 'optional property': [(x) => `t.type({ p: h.optional(${x}) })`, (w) => object({ p: w }, []), (d) => get(d, 'properties', 'p')], item: [(x) => `t.array(${x})`, (w) => array(w), (d) => get(d, 'items')], value: [(x) => `t.record(t.string, ${x})`, (w) => record(w), (d) => get(d, 'additionalProperties')] };
  const imports = [['namespace', pre, (ns, n) => `${ns}.${n}`], ['named', '', (ns, n) => n], ['renamed', '', (ns, n) => 'Renamed']];
  const MODS = { n: 'io-ts-numbers', bi: 'io-ts-bigint', tt: 'io-ts-types', t: 'io-ts', h: '@api-ts/io-ts-http' };
  const each = (ns, n, f) => { for (const [iname, ipre, use] of imports) f(iname, iname === 'namespace' ? ipre : iname === 'named' ? `import { ${n} } from '${MODS[ns]}';` : `import { ${n} as Renamed } from '${MODS[ns]}';`, use(ns, n)); };
  let names = 0;
  for (const [ns, list] of [['n', NUMBERS], ['bi', BIGINTS], ['tt', TYPES]]) for (const n of list) {
    const want = ofName(n); names++;
    const name0 = `${n} of ${MODS[ns]}`;
    each(ns, n, (iname, ipre, use) => { for (const [pn, [wrap, w, take]] of Object.entries(POS)) {
      if (iname !== 'namespace' && pn !== 'property') continue;
      const name = `${name0} (${iname}, ${pn})`;
      judgeOne(ctx, name, entry(ipre, wrap(use)), w(want.wire), where, `wire: ${name0}`, (r, d) => {
        const s = take(d); if (!ctx.check(!!s, `${name}: no schema`, where, `wire: ${name0}`)) return;
        bounds(ctx, name, s, want, where, `bounds: ${name0}`);
        const text = [get(s, 'title'), get(s, 'description')].filter(Boolean).map(key).join(' ');
        if (n === 'DateFromNumber') ctx.check(/millisecond/i.test(text) || !/second/i.test(text), `${name} is described as ${text}`, where, 'unit: ' + n);
        if (n === 'DateFromUnixTime') ctx.check(!/millisecond/i.test(text), `${name} is described as ${text}`, where, 'unit: ' + n);
        const f = get(s, 'format') && cv(get(s, 'format'));
        const fs = n === 'DateFromISOString' ? ['date-time'] : n === 'date' ? ['date', 'date-time'] : want.decoded ? ['number', 'integer', undefined, 'int64', 'int32', 'bigint'] : n === 'UUID' ? [undefined, 'uuid'] : n === 'DateFromNumber' || n === 'DateFromUnixTime' ? ['number', 'integer', undefined, 'int64'] : [undefined, 'number', 'integer'];
        ctx.check(fs.includes(f), `${name} has the format ${f}`, where, 'format: ' + n);
      });
    } });
    // text that stands for a number is known to decode to one: next to plain numbers it is one
    if (want.decoded === 'number') judgeOne(ctx, `a union of number and ${name0}`, entry(pre, `t.type({ p: t.union([t.number, ${ns}.${n}]) })`), [object({ p: NUMBER }), object({ p: union(NUMBER, want.wire) })], where, `decoded: ${name0}`);
    if (want.decoded) for (const [on, o, w] of [['string', 't.string', STRING], ['boolean', 't.boolean', BOOLEAN]]) judgeOne(ctx, `a union of ${on} and ${name0}`, entry(pre, `t.type({ p: t.union([${o}, ${ns}.${n}]) })`), object({ p: union(w, STRING) }), where, `decoded: ${name0}`);
    if (want.decoded === 'bigint') judgeOne(ctx, `a union of number and ${name0}`, entry(pre, `t.type({ p: t.union([t.number, ${ns}.${n}]) })`), object({ p: union(NUMBER, STRING) }), where, `decoded: ${name0}`);
    if (want.decoded) judgeOne(ctx, `a union of an object and ${name0}`, entry(pre, `t.type({ p: t.union([${AA}, ${ns}.${n}]) })`), object({ p: union(aa, STRING) }), where, `decoded: ${name0}`);
  }
  judgeOne(ctx, 'a union of dates and texts', entry(pre, `t.type({ p: t.union([${AA}, tt.DateFromISOString, t.number]) })`), object({ p: union(aa, STRING, NUMBER) }), where, 'decoded: dates');
  judgeOne(ctx, 'a union of dates of two kinds', entry(pre, `t.type({ p: t.union([tt.DateFromISOString, tt.DateFromNumber]) })`), object({ p: union(STRING, NUMBER) }), where, 'decoded: dates');
  // io-ts
  for (const [n, [x, want]] of Object.entries(IO)) {
    names++;
    for (const [pn, [wrap, w]] of Object.entries(POS)) judgeOne(ctx, `${n} of io-ts (${pn})`, entry('', wrap(x)), n === 'null' && pn === 'x' ? null : w(want), where, `io-ts: ${n}`);
    const first = /^t\.(\w+)/.exec(x)[1];
    judgeOne(ctx, `${n} of io-ts (named import)`, entry(`import { ${first} as Renamed } from 'io-ts';`, `t.type({ p: ${x.replace(/^t\.\w+/, 'Renamed')} })`), object({ p: want }), where, `io-ts: ${n}`);
    // through a name it is a component with the same meaning
    judgeOne(ctx, `${n} of io-ts (component)`, entry(`const C = ${x};`, `t.type({ p: C })`), null, where, `io-ts: ${n}`, (r) => { const c = get(r.doc, 'components', 'schemas', 'C'); const dd = c && diff(ofIR(want), means(c).c, 'the schema'); ctx.check(!!c && !dd, `${n} of io-ts (component): ${c ? dd : 'no component'}`, where, `io-ts: ${n}`); });
  }
  for (const n of ['undefined', 'void']) judgeOne(ctx, `a property that is t.${n}`, entry('', `t.type({ p: t.${n}, q: t.string })`), object({ q: STRING }), where, `io-ts: ${n}`);
  for (const n of ['undefined', 'void']) judgeOne(ctx, `an alternative that is t.${n}`, entry('', `t.type({ p: t.union([${AA}, t.${n}]) })`), object({ p: aa }, []), where, `io-ts: ${n}`);
  // combinators of the other packages keep their arguments
  const COMB = {
    nonEmptyArray: [`tt.nonEmptyArray(${AA})`, array(aa), { minItems: 1 }], readonlyNonEmptyArray: [`tt.readonlyNonEmptyArray(${AA})`, array(aa), { minItems: 1 }], withFallback: [`tt.withFallback(${AA}, ${BB})`, union(aa, bb)], 'withFallback of a literal': [`tt.withFallback(${AA}, 'fallback')`, union(aa, str('fallback'))], fromNullable: [`tt.fromNullable(${AA}, 'x')`, union(aa, NULL)],
    optional: [`t.type({ p: h.optional(${AA}), q: ${BB} })`, object({ p: aa, q: bb }, ['q'])], optionalized: [`h.optionalized({ p: h.optional(${AA}), q: ${BB}, r: t.union([t.string, t.undefined]), s: t.union([t.number, t.union([t.null, t.undefined])]) })`, object({ p: aa, q: bb, r: STRING, s: union(NUMBER, NULL) }, ['q'])], 'optionalized without optional properties': [`h.optionalized(${props})`, object(pp)], 'optionalized with optional properties only': [`h.optionalized({ p: h.optional(${AA}) })`, object({ p: aa }, [])],
    'Object.assign': [`t.type(Object.assign({ a: t.literal('$ma') }, { b: t.literal('$mb') }))`, object(pp)], 'Object.assign of three': [`t.type(Object.assign({}, { a: t.literal('$ma') }, { b: t.literal('$mb') }))`, object(pp)], 'Object.assign that overrides': [`t.type(Object.assign({ a: t.string }, { b: t.literal('$mb') }, { a: t.literal('$ma') }))`, object(pp)], 'array of array': [`t.array(t.array(${AA}))`, array(array(aa))], 'type of partial': [`t.type({ p: t.partial(${props}), q: ${BB} })`, object({ p: object(pp, []), q: bb })], 'partial of type': [`t.partial({ p: t.type(${props}) })`, object({ p: object(pp) }, [])],
    'intersection of type and partial': [`t.intersection([t.type({ a: t.literal('$ma') }), t.partial({ b: t.literal('$mb') })])`, object(pp, ['a'])], 'union in an intersection': [`t.intersection([${AA}, t.union([${BB}, t.type({ c: t.string })])])`, inter(aa, union(bb, object({ c: STRING })))], 'record of records': [`t.record(t.string, t.record(t.string, ${AA}))`, record(record(aa))], 'exact strict': [`t.exact(t.strict(${props}))`, object(pp)], 'brand of a number': [`t.brand(t.number, n => true, 'B')`, NUMBER],
  };
  for (const [n, [x, want, b]] of Object.entries(COMB)) { names++; for (const [pn, [wrap, w, take]] of Object.entries(POS)) judgeOne(ctx, `${n} (${pn})`, entry(pre, wrap(x)), w(want), where, `combinator: ${n}`, b && ((r, d) => { if (pn === 'response' || pn === 'property') bounds(ctx, `${n} (${pn})`, take(d), b, where, 'bounds: ' + n); })); }
  for (const ns of ['n', 'bi', 'tt', 't', 'h']) judgeOne(ctx, `an unknown name of ${MODS[ns]}`, entry(pre, `t.type({ p: ${ns}.Nope })`), undefined, where, 'unknown: ' + ns);
  ctx.extra.names = names;
  // entries of the table beyond the documented names must agree with their names, too
  const table = knownNames(ctx);
  const listed = { 'io-ts-numbers': NUMBERS, 'io-ts-bigint': BIGINTS, 'io-ts-types': TYPES };
  for (const [mod, n] of table) {
    if (!listed[mod] || listed[mod].includes(n) || n in COMB) continue;
    const want = ofName(n);
    if (!want || SPECIAL[n]) continue;
    judgeOne(ctx, `${n} of ${mod}`, entry(`import { ${n} } from '${mod}';`, `t.type({ p: ${n} })`), object({ p: want.wire }), where, `wire: ${n} of ${mod}`, (r, d) => bounds(ctx, `${n} of ${mod}`, get(d, 'properties', 'p'), want, where, `bounds: ${n} of ${mod}`));
  }
  ctx.extra.table_entries = table.length;
}
// [module, name] of every property of an exported table of tables of functions, read from the syntax tree
function knownNames() {
  const out = [];
  const sf = P.sourceFile('openapi-generator', 'knownImports.ts');
  const visit = (n) => {
    if (ts.isPropertyAssignment(n) && ts.isObjectLiteralExpression(n.initializer) && n.parent.parent && (ts.isVariableDeclaration(n.parent.parent) || ts.isSatisfiesExpression && ts.isSatisfiesExpression(n.parent.parent))) for (const p of n.initializer.properties) if (p.name) out.push([n.name.text, p.name.text]);
    ts.forEachChild(n, visit);
  };
  if (sf) visit(sf);
  return out;
}

// ---------- G07, the codec part: which properties a codec demands
function required(ctx) {
  const where = at('knownImports.ts');
  const PROP = {
    plain: (m) => [`t.literal('$${m}')`, true, str(L(m))], optional: (m) => [`h.optional(t.literal('$${m}'))`, false, str(L(m))], 'union with undefined': (m) => [`t.union([t.literal('$${m}'), t.undefined])`, false, str(L(m))], 'undefined first': (m) => [`t.union([t.undefined, t.literal('$${m}')])`, false, str(L(m))], 'nested undefined': (m) => [`t.union([t.number, t.union([t.literal('$${m}'), t.undefined])])`, false, union(NUMBER, str(L(m)))],
    'optional union': (m) => [`h.optional(t.union([t.number, t.literal('$${m}')]))`, false, union(NUMBER, str(L(m)))], 'optional optional': (m) => [`h.optional(h.optional(t.literal('$${m}')))`, false, str(L(m))], nullable: (m) => [`t.union([t.type({ x: t.literal('$${m}') }), t.null])`, true, union(object({ x: str(L(m)) }), NULL)], void: (m) => [`t.union([t.literal('$${m}'), t.void])`, false, str(L(m))], array: (m) => [`t.array(t.literal('$${m}'))`, true, array(str(L(m)))], 'array of optional': (m) => [`t.array(h.optional(t.literal('$${m}')))`, true, null],
    'object of optional': (m) => [`t.type({ x: h.optional(t.literal('$${m}')) })`, true, object({ x: str(L(m)) }, [])], open: () => ['t.unknown', true, ANY],
  };
  const FORM = {
    type: (b) => [`t.type({ ${b} })`], strict: (b) => [`t.strict({ ${b} })`], partial: (b) => [`t.partial({ ${b} })`, true], optionalized: (b) => [`h.optionalized({ ${b} })`], exact: (b) => [`t.exact(t.type({ ${b} }))`], 'exact partial': (b) => [`t.exact(t.partial({ ${b} }))`, true], 'named properties': (b) => ['t.type(O)', false, `const O = { ${b} };`], spread: (b) => [`t.type({ ...{ ${b} } })`], 'named spread': (b) => ['t.type({ ...O })', false, `const O = { ${b} };`], 'partial spread': (b) => ['t.partial({ ...O })', true, `const O = { ${b} };`],
    'in an intersection': (b) => [`t.intersection([t.type({ zz: t.string }), t.type({ ${b} })])`, false, '', { zz: true }], 'partial in an intersection': (b) => [`t.intersection([t.type({ zz: t.string }), t.partial({ ${b} })])`, true, '', { zz: true }], 'before a partial': (b) => [`t.intersection([t.type({ ${b} }), t.partial({ zz: t.string })])`, false, '', { zz: false }], 'in a nested intersection': (b) => [`t.intersection([t.partial({ zz: t.string }), t.intersection([t.type({ ${b} }), t.partial({ yy: t.string })])])`, false, '', { zz: false, yy: false }],
    assigned: (b) => [`t.type(Object.assign({ zz: t.string }, { ${b} }))`, false, '', { zz: true }], 'assigned partial': (b) => [`t.partial(Object.assign({ zz: t.string }, { ${b} }))`, true, '', { zz: false }], brand: (b) => [`t.brand(t.type({ ${b} }), n => true, 'B')`],
  };
  const kinds = Object.keys(PROP);
  const WRAP = { response: [(x) => x, (w) => w], property: [(x) => `t.type({ o: ${x} })`, (w) => object({ o: w })], item: [(x) => `t.array(${x})`, array], optional: [(x) => `t.type({ o: h.optional(${x}) })`, (w) => object({ o: w }, [])] };
  for (const [fn, form] of Object.entries(FORM)) for (const list of kinds.map((k) => [k]).concat(kinds.map((k) => ['plain', k]), kinds.map((k) => [k, 'plain']), [kinds])) for (const [wn, [wrap, w]] of Object.entries(WRAP)) {
    if (ctx.tier !== 'thorough' && list !== kinds && (wn !== 'response' || (list.length === 2 && list[1] === 'plain'))) continue;
    const ps = list.map((k, i) => ['p' + i, PROP[k]('m' + i)]);
    const [x, partial, pre, more] = form(ps.map(([n, [c]]) => `${n}: ${c}`).join(', '));
    const name = `${fn} of ${list.join(', ')} (${wn})`;
    const po = Object.fromEntries(ps.map(([n, [, , s]]) => [n, s]).concat(Object.keys(more || {}).map((n) => [n, STRING])));
    const req = ps.filter(([, [, r]]) => r && !partial).map(([n]) => n).concat(Object.keys(more || {}).filter((n) => more[n]));
    const exact = ps.every(([, [, , s]]) => s !== null);
    if (exact) judgeOne(ctx, name, entry(pre || '', wrap(x)), w(object(po, req)), where, `required: ${fn}`);
    else judgeOne(ctx, name, entry(pre || '', wrap(x)), null, where, `required: ${fn}`, (r, d) => {
      const o = wn === 'response' ? d : wn === 'item' ? get(d, 'items') : get(d, 'properties', 'o');
      const got = ((o && get(o, 'required')) || { A: [] }).A.map((y) => cv(y)).sort();
      ctx.check(got.join() === req.slice().sort().join(), `${name}: ${got.join() || 'nothing'} is listed as required instead of ${req.join() || 'nothing'}`, where, `required: ${fn}`);
    });
  }
  // sections of a request
  for (const [k, p] of Object.entries(PROP)) for (const [sn, sec] of [['object', (b) => `{ ${b} }`], ['type', (b) => `t.type({ ${b} })`], ['partial', (b) => `t.partial({ ${b} })`], ['name', () => 'B']]) {
    const [c, req] = p('m1'); const body = `p: ${c}, q: t.string`;
    const name = `a body with a ${k} property (${sn})`;
    scenario(ctx, name, () => runs(ctx, { '/p/index.ts': entry(sn === 'name' ? `const B = t.type({ ${body} });` : '', undefined, { method: 'POST', request: `h.httpRequest({ body: ${sec(body)} })` }) }, (r) => {
      const oc = outcome(ctx, r, name);
      if (!oc) return;
      if (!ctx.check(oc === 'doc', `${name}: the generator fails: ${oc === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, 'required: body')) return;
      const d = get(operation(r.doc, '/path', 'post'), 'requestBody', 'content', 'application/json', 'schema');
      const got = ((d && get(d, 'required')) || { A: [] }).A.map((y) => cv(y)).sort().join();
      const want = sn === 'partial' ? '' : req ? 'p,q' : 'q';
      ctx.check(!!d && got === want, `${name}: ${got || 'nothing'} is listed as required instead of ${want || 'nothing'}`, where, 'required: body');
    }, { packages: PACKAGES }));
  }
}
module.exports = { G08, G15, required, judge: judgeOne, object, union, inter, array, str, num, bool };
