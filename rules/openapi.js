'use strict';
// openapi-generator: rendering of schemas (G03, G04, G06, G07, G16), operations (G13).
const { T, P, scenario } = require('./lib');
const { GW, L, N, plain, key, isOpen, get, cv, isTerm, PKG } = require('./shapes');
const anchor = (name) => { const s = P.findExport(PKG, 'index.ts', name); const d = s && (s.valueDeclaration || (s.declarations && s.declarations[0])); return d ? `${P.loc(d)} (${name})` : `${PKG} (${name} missing)`; };

// ---------- what a schema means: a canonical form of the IR and of the rendered document
const tx = (t) => (isTerm(t) ? T.show(t) : JSON.stringify(t));
const REF = '#/components/schemas/';
const prim = (type, en) => ({ c: 'prim', type, en: en ? [...new Set(en)].sort() : null });
const ANY = { c: 'any' }; const NONE = { c: 'none' };
function text(n) {
  switch (n.c) {
    case 'prim': return n.type + (n.en ? `<${n.en.join(',')}>` : '');
    case 'arr': return `[${text(n.items)}]`;
    case 'obj': return `{${[...n.props].map(([k, v]) => `${k}${n.req.has(k) ? '' : '?'}:${text(v)}`).sort().join(',')}}`;
    case 'rec': return `{*:${text(n.v)}}`;
    case 'alts': return `(${n.m.map(text).sort().join('|')}${n.nullable ? '|null' : ''})`;
    case 'all': return `(${n.m.map(text).sort().join('&')})`;
    case 'ref': return `ref ${n.name}`;
    default: return n.c + (n.why ? ':' + n.why : '');
  }
}
function alts(ms, nullable) {
  const flat = []; const enums = new Map(); const seen = new Set();
  const add = (m) => {
    if (m.c === 'none') return;
    if (m.c === 'alts') { if (m.nullable) nullable = true; m.m.forEach(add); return; }
    if (m.c === 'prim' && m.en) { enums.set(m.type, (enums.get(m.type) || []).concat(m.en)); return; }
    const t = text(m);
    if (!seen.has(t)) { seen.add(t); flat.push(m); }
  };
  ms.forEach(add);
  for (const [type, en] of enums) { const p = prim(type, en); const q = type === 'boolean' && p.en.length === 2 ? prim('boolean') : p; if (!seen.has(text(q))) { seen.add(text(q)); flat.push(q); } }
  // an alternative that admits everything says nothing next to others
  const m = flat.some((x) => x.c !== 'any') ? flat.filter((x) => x.c !== 'any') : flat;
  if (!nullable && m.length === 1) return m[0];
  if (!nullable && m.length === 0) return NONE;
  return { c: 'alts', m, nullable: !!nullable };
}
function all(ms) {
  const flat = []; const seen = new Set(); let obj;
  const add = (m) => {
    if (m.c === 'any' || m.c === 'none') return;
    if (m.c === 'all') { m.m.forEach(add); return; }
    if (m.c === 'obj') { if (!obj) { obj = { c: 'obj', props: new Map(), req: new Set() }; } for (const [k, v] of m.props) obj.props.set(k, v); for (const k of m.req) obj.req.add(k); return; }
    const t = text(m); if (!seen.has(t)) { seen.add(t); flat.push(m); }
  };
  ms.forEach(add);
  if (obj && (obj.props.size || !flat.length)) flat.push(obj);
  return flat.length === 1 ? flat[0] : flat.length === 0 ? ANY : { c: 'all', m: flat };
}
const admitsUndefined = (s) => s.type === 'undefined' || (s.type === 'union' && s.schemas.some(admitsUndefined));
// of the IR (JS data with terms); names: (ref schema) -> component name
function ofIR(s, names) {
  const en = s.enum ? s.enum.map(tx) : null;
  switch (s.type) {
    case 'string': case 'number': case 'boolean': return prim(s.type, en);
    case 'integer': return prim('number', en);
    case 'null': return { c: 'alts', m: [], nullable: true };
    case 'undefined': return NONE;
    case 'ref': return { c: 'ref', name: T.show(T.concat([T.K(REF), names(s)])) };
    case 'array': return { c: 'arr', items: ofIR(s.items, names) };
    case 'record': {
      const dom = s.domain && ofIR(s.domain, names); const v = ofIR(s.codomain, names);
      if (dom && dom.c === 'prim' && dom.type === 'string' && dom.en) return { c: 'obj', props: new Map(dom.en.map((k) => [k, v])), req: new Set(dom.en) };
      return { c: 'rec', v };
    }
    case 'object': {
      const props = new Map(); const req = new Set(); const rq = s.required.map(tx);
      for (const [k, p] of s.properties instanceof Map ? s.properties : Object.entries(s.properties)) { const q = ofIR(p, names); if (q.c === 'none') continue; props.set(tx(k), q); if (rq.includes(tx(k)) && !admitsUndefined(p)) req.add(tx(k)); }
      return { c: 'obj', props, req };
    }
    case 'union': return alts(s.schemas.map((x) => ofIR(x, names)));
    case 'intersection': return all(s.schemas.map((x) => ofIR(x, names)));
    default: return ANY; // any, tuple
  }
}
// of a rendered schema; issues: what makes it malformed
function ofDoc(d, issues) {
  if (!d || !d.O) { issues.push(d ? `a schema is ${key(d)}` : 'a schema is missing'); return NONE; }
  const has = (k) => get(d, k) !== undefined;
  if (has('$ref')) {
    if (d.O.size > 1) issues.push(`a $ref has sibling fields ${[...d.O.keys()].map((k) => T.show(k)).join(', ')}, which are ignored`);
    return { c: 'ref', name: key(get(d, '$ref')) };
  }
  const nullable = cv(get(d, 'nullable')) === true;
  const wrap = (n) => (nullable ? alts([n], true) : n);
  const list = (k) => { const x = get(d, k); if (!x.A) { issues.push(`${k} is ${key(x)}`); return []; } return x.A.map((y) => ofDoc(y, issues)); };
  const kinds = ['type', 'oneOf', 'anyOf', 'allOf'].filter(has);
  if (kinds.length > 1) issues.push(`a schema has ${kinds.join(' and ')}`);
  if (has('allOf')) return wrap(all(list('allOf')));
  if (has('oneOf') || has('anyOf')) return wrap(alts(list(has('oneOf') ? 'oneOf' : 'anyOf')));
  const en = get(d, 'enum'); const ens = en && en.A ? en.A.map(key) : null;
  if (!has('type')) {
    if (nullable) return { c: 'alts', m: ens && ens.length ? [{ c: 'weird', why: 'enum without type' }] : [], nullable: true };
    return ANY;
  }
  const type = cv(get(d, 'type'));
  switch (type) {
    case 'string': case 'number': case 'boolean': case 'integer':
      for (const k of ['items', 'properties', 'additionalProperties', 'required']) if (has(k)) issues.push(`a ${type} has ${k}`);
      return wrap(prim(type === 'integer' ? 'number' : type, ens));
    case 'array': if (!has('items')) issues.push('an array has no items'); return wrap({ c: 'arr', items: has('items') ? ofDoc(get(d, 'items'), issues) : ANY });
    case 'object': {
      const props = new Map(); const req = new Set();
      const rq = get(d, 'required');
      if (has('additionalProperties') && !has('properties')) { if (rq) issues.push('a record has a required list'); const a = get(d, 'additionalProperties'); return wrap({ c: 'rec', v: a.V ? (a.V === T.false_ ? NONE : ANY) : ofDoc(a, issues) }); }
      for (const [k, p] of (get(d, 'properties') || { O: new Map() }).O || []) if (!(p.V && p.V === T.undef)) props.set(k.k === 'const' ? JSON.stringify(k.v) : T.show(k), ofDoc(p, issues));
      if (rq && rq.A) for (const r of rq.A) { const k = key(r); if (req.has(k)) issues.push(`required lists ${k} twice`); req.add(k); if (!props.has(k)) issues.push(`required lists ${k}, which is not a property`); } else if (rq) issues.push(`required is ${key(rq)}`);
      if (rq && rq.A && !rq.A.length) issues.push('required is an empty list');
      return wrap({ c: 'obj', props, req });
    }
    default: issues.push(`type is ${key(get(d, 'type'))}`); return NONE;
  }
}
// first difference between two canonical forms, as text
function diff(a, b, at) {
  at = at || 'the schema';
  if (text(a) === text(b)) return undefined;
  if (a.c === b.c) {
    if (a.c === 'arr') return diff(a.items, b.items, at + "'s items");
    if (a.c === 'rec') return diff(a.v, b.v, at + "'s values");
    if (a.c === 'obj') {
      for (const k of a.props.keys()) if (!b.props.has(k)) return `${at}: property ${k} is lost`;
      for (const k of b.props.keys()) if (!a.props.has(k)) return `${at}: property ${k} is made up`;
      for (const [k, v] of a.props) { const d = diff(v, b.props.get(k), `${at}'s property ${k}`); if (d) return d; }
      for (const k of a.props.keys()) if (a.req.has(k) !== b.req.has(k)) return `${at}: property ${k} is ${a.req.has(k) ? 'required and not listed as' : 'optional and listed as'} required`;
    }
  }
  return `${at}: ${text(a)} becomes ${text(b)}`;
}
const show = (s) => (isTerm(s) ? T.show(s).replace(/lit:(string|number):/g, '') : Array.isArray(s) ? '[' + s.map(show).join(', ') + ']' : s instanceof Map ? '{' + [...s].map(([k, v]) => `${show(k)}: ${show(v)}`).join(', ') + '}' : s && typeof s === 'object' ? '{' + Object.entries(s).map(([k, v]) => `${k}: ${show(v)}`).join(', ') + '}' : JSON.stringify(s));
const clean = (x) => x.replace(/lit:(string|number):/g, '');

// ---------- shapes
const ref = (n) => ({ type: 'ref', name: L(n || 'Name'), location: L('File') });
const leaves = {
  string: () => ({ type: 'string', primitive: true }), number: () => ({ type: 'number', primitive: true }), boolean: () => ({ type: 'boolean', primitive: true }), integer: () => ({ type: 'integer' }),
  any: () => ({ type: 'any' }), null: () => ({ type: 'null' }), ref: () => ref(), literal: () => ({ type: 'string', enum: [L('value')] }), numLiteral: () => ({ type: 'number', enum: [N('num')] }), encoded: () => ({ type: 'string', format: 'number', decodedType: 'number' }), date: () => ({ type: 'string', format: 'date-time', title: L('title') }), integerEnum: () => ({ type: 'integer', enum: [N('i1'), N('i2')] }),
};
const obj = (props, required) => ({ type: 'object', properties: new Map(Object.entries(props).map(([k, v]) => [L(k), v])), required: (required || Object.keys(props)).map(L) });
const union = (...schemas) => ({ type: 'union', schemas });
const inter = (...schemas) => ({ type: 'intersection', schemas });
const tuple = (...schemas) => ({ type: 'tuple', schemas });
const arr = (items) => ({ type: 'array', items });
const UNDEF = { type: 'undefined' };
let fresh = 0;
const other = () => obj({ ['o' + (fresh += 1)]: leaves.number() });
// every way of putting a schema inside another
const wraps = {
  array: (s) => arr(s), record: (s) => ({ type: 'record', codomain: s }), recordOf: (s) => ({ type: 'record', domain: { type: 'string' }, codomain: s }), recordKeys: (s) => ({ type: 'record', domain: { type: 'string', enum: [L('k1'), L('k2')] }, codomain: s }),
  property: (s) => obj({ p: s, q: leaves.string() }), optionalProperty: (s) => obj({ p: union(s, UNDEF), q: leaves.string() }), optionalFirst: (s) => obj({ p: union(UNDEF, s) }), lastProperty: (s) => obj({ a: leaves.string(), b: leaves.number(), p: s }, ['p', 'b']),
  unionFirst: (s) => union(s, other()), unionLast: (s) => union(other(), s), unionMiddle: (s) => union(other(), s, leaves.literal()), nestedUnion: (s) => union(other(), union(s, obj({ deep: leaves.boolean() }))),
  interFirst: (s) => inter(s, other()), interLast: (s) => inter(other(), s), interMiddle: (s) => inter(other(), s, ref('Third')), interRefs: (s) => inter(ref('First'), s), nestedInter: (s) => inter(other(), inter(ref('Second'), s)), nullable: (s) => union(s, { type: 'null' }),
};
const namesOf = (s) => s.name;

class Gen {
  constructor(ctx) { this.ctx = ctx; }
  // renders one component and judges the result: f(canonical form, issues, document schema, state)
  render(shape, f, o) {
    const { ctx } = this; o = o || {};
    const W = new GW(ctx, o); const { I } = W;
    const fn = W.exp(ctx, 'convertRoutesToOpenAPI');
    if (!fn) return;
    const schemas = new Map([[L('Comp'), shape], ...(o.others || [])]);
    const outs = I.callValue(fn, undefined, [W.mk({ title: L('api') }), W.mk([]), W.mk(o.routes || []), W.mk(schemas), ...(o.mapping === undefined ? [] : [W.mk(o.mapping)])], W.st.clone(), null);
    for (const r of outs) {
      ctx.paths++;
      if (r.ex) { if (o.throws) o.throws(r); else ctx.check(T.mentions(r.ex, (x) => x.k === 'top' || x.k === 'fold') ? undefined : false, `rendering ${show(shape)} throws ${T.show(r.ex)}`, anchor('convertRoutesToOpenAPI'), 'throws'); continue; }
      for (const d of plain(I, r.st, r.v)) f(get(d.v, 'components', 'schemas', L('Comp')), d.v, d.st, W);
    }
    ctx.use(I);
  }
  // the rendered component means what the schema means
  judge(shape, cause, o) {
    const { ctx } = this; o = o || {};
    this.render(shape, (d, doc, st) => {
      const what = `${clean(show(shape))}`;
      if (isOpen(doc)) { ctx.check(undefined, `${what}: ${clean(key(doc)).slice(0, 200)}`); return; }
      const want = ofIR(shape, o.names || namesOf);
      if (want.c === 'none') { ctx.check(d === undefined, `${what}: rendered as ${d && clean(key(d))}`, anchor('convertRoutesToOpenAPI'), cause); return; }
      const issues = []; const got = ofDoc(d, issues);
      const df = diff(want, got);
      const ok = ctx.check(!df && !issues.length, `${what}: ${clean(df || issues[0] || '')} (rendered as ${d ? clean(key(d)).slice(0, 300) : 'nothing'})`, anchor('convertRoutesToOpenAPI'), cause);
      if (ok) ctx.sample(`${what} -> ${clean(text(got))}`);
    }, o);
  }
  // optimize keeps the meaning
  optimized(shape, cause) {
    const { ctx } = this;
    const W = new GW(ctx); const { I } = W;
    const fn = W.exp(ctx, 'optimize');
    if (!fn) return;
    for (const r of I.callValue(fn, undefined, [W.mk(shape)], W.st.clone(), null)) {
      ctx.paths++;
      const A = anchor('optimize'); const what = `optimize(${clean(show(shape))})`;
      if (r.ex) { ctx.check(false, `${what} throws ${T.show(r.ex)}`, A, 'throws'); continue; }
      for (const d of plain(I, r.st, r.v)) {
        if (isOpen(d.v)) { ctx.check(undefined, `${what}: ${key(d.v).slice(0, 200)}`); continue; }
        const back = data(d.v);
        const df = diff(ofIR(shape, namesOf), ofIR(back, namesOf));
        ctx.check(!df, `${what}: ${clean(df || '')}`, A, cause);
        this.tidy(back, what, A);
      }
    }
    ctx.use(I);
  }
  // required lists of an optimised schema
  tidy(s, what, A) {
    if (!s || typeof s !== 'object' || isTerm(s)) return;
    if (s.type === 'object') {
      const ps = [...s.properties.keys()].map(tx); const rq = s.required.map(tx);
      this.ctx.check(new Set(rq).size === rq.length, `${what}: required lists a property twice: ${clean(rq.join(', '))}`, A, 'required');
      for (const k of rq) this.ctx.check(ps.includes(k), `${what}: required lists ${clean(k)}, which is not a property`, A, 'required');
      for (const p of s.properties.values()) this.tidy(p, what, A);
    }
    for (const x of s.schemas || []) this.tidy(x, what, A);
    for (const x of [s.items, s.codomain, s.domain]) if (x) this.tidy(x, what, A);
  }
}
// interpreted data back to JS data
function data(d, k) {
  if (d.V) return d.V.k === 'const' ? d.V.v : d.V;
  if (d.A) return d.A.map((x) => data(x));
  if (k === 'properties') return new Map([...d.O].map(([n, v]) => [n.k === 'const' ? n.v : n, data(v)]));
  return Object.fromEntries([...d.O].filter(([n]) => n.k === 'const').map(([n, v]) => [n.v, data(v, n.v)]));
}
// the references in a schema
function refsIn(s, acc) {
  acc = acc || [];
  if (s.type === 'ref') acc.push(s);
  if (s.type === 'object') for (const p of s.properties.values()) refsIn(p, acc);
  for (const x of s.schemas || []) refsIn(x, acc);
  for (const x of [s.items, s.domain, s.codomain]) if (x) refsIn(x, acc);
  return acc;
}

// ---------- G03: nothing is lost
function nest(ctx) {
  const out = []; fresh = 0;
  for (const [, leaf] of Object.entries(leaves)) out.push(leaf());
  for (const w of Object.keys(wraps)) for (const l of Object.keys(leaves)) out.push(wraps[w](leaves[l]()));
  for (const a of Object.keys(wraps)) for (const b of Object.keys(wraps)) out.push(wraps[a](wraps[b](ref())));
  if (ctx.tier !== 'quick') for (const a of Object.keys(wraps)) for (const b of Object.keys(wraps)) { out.push(wraps[a](wraps[b](leaves.literal()))); for (const c of Object.keys(wraps)) out.push(wraps[a](wraps[b](wraps[c](ref())))); }
  return out;
}
// what is outside the property: nullable or open alternatives inside an intersection or next to an undefined one
function outside(s) {
  const any = (x) => x.type === 'any' || x.type === 'tuple' || (x.type === 'union' && x.schemas.every(any));
  const nul = (x) => x.type === 'null' || (x.type === 'union' && x.schemas.some(nul));
  if (s.type === 'union') { const d = s.schemas; if (d.some(nul) && d.some((x) => x.type === 'undefined') && d.length < 4) return true; if (d.some(any) && d.some(nul) && d.filter((x) => !any(x) && !nul(x)).length < 2) return true; }
  if (s.type === 'object') return [...s.properties.values()].some((p) => (p.type === 'union' && p.schemas.some((x) => x.type === 'undefined') ? outside({ type: 'union', schemas: p.schemas.filter((x) => x.type !== 'undefined') }) : outside(p)));
  return (s.schemas || []).some(outside) || [s.items, s.codomain].some((x) => x && outside(x));
}
function G03(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3;
  const shapes = nest(ctx);
  shapes.push(inter(obj({ a: leaves.string() }), ref('A'), ref('B'), ref('C'), ref('D')), inter(ref('A'), ref('B'), ref('C'), ref('D'), ref('E'), ref('F')), inter(ref('A'), obj({ a: leaves.string() }), ref('B'), inter(ref('C'), ref('D'), obj({ b: leaves.string() }, [])), arr(ref('E')), leaves.string()));
  for (const s of shapes) scenario(ctx, clean(show(s)).slice(0, 160), () => { if (!outside(s)) { G.judge(s, 'rendered'); G.optimized(s, 'optimized'); } });
  // references: all of them are found, once or more, wherever they are
  const A = anchor('getRefs');
  const withTuples = shapes.concat(shapes.map((s) => tuple(leaves.string(), s)), [tuple(ref(), ref('Second')), arr(tuple(union(ref(), ref('Second')))), obj({ a: ref('A'), b: ref('B'), c: obj({ d: ref('D') }, []) }, ['b']), obj({ a: ref('A') }, []), { type: 'record', domain: ref('Keys'), codomain: ref() }, obj({ a: ref('A'), b: obj({ c: ref('C'), d: arr(ref('D')) }) }), union(ref('A'), inter(ref('B'), { type: 'record', domain: ref('K'), codomain: arr(ref('V')) })), tuple(ref('A'), ref('B'), ref('C'), ref('D'), ref('E'))]);
  for (const s of withTuples) for (const mode of ['file', 'package', 'unknown']) scenario(ctx, 'getRefs ' + clean(show(s)).slice(0, 120), () => {
    const W = new GW(ctx, { exists: () => mode === 'file' }); const { I } = W;
    const fn = W.exp(ctx, 'getRefs');
    if (!fn) return;
    const rs = refsIn(s);
    const types = new Map(mode === 'package' ? rs.map((r) => [r.name, T.sym('lit:string:path of ' + T.show(r.name))]) : []);
    for (const r of I.callValue(fn, undefined, [W.mk(s), W.mk(types)], W.st.clone(), null)) {
      ctx.paths++;
      const what = `getRefs(${clean(show(s))})`;
      if (r.ex) { ctx.check(false, `${what} throws ${T.show(r.ex)}`, A, 'throws'); continue; }
      for (const d of plain(I, r.st, r.v)) {
        if (isOpen(d.v) || !d.v.A) { ctx.check(undefined, `${what}: ${key(d.v).slice(0, 160)}`); continue; }
        const got = new Set(d.v.A.map((x) => `${key(get(x, 'name') || { V: T.undef })}@${key(get(x, 'location') || { V: T.undef })}`));
        const want = new Set(rs.map((x) => `${T.show(x.name)}@${T.show(mode === 'package' ? types.get(x.name) : x.location)}`));
        for (const w of want) ctx.check(got.has(w), `${what}: the reference ${clean(w)} is not found (found ${clean([...got].join(', '))})`, A, 'lost');
        for (const g of got) ctx.check(want.has(g), `${what}: finds ${clean(g)}, which is not a reference of the schema`, A, 'made up');
      }
    }
    ctx.use(I);
  });
}

// ---------- G07: required lists
function G07(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3;
  const S = leaves.string; const R = ref; fresh = 0;
  const opt = (s) => union(s, UNDEF); const opt2 = (s) => union(UNDEF, s);
  const shapes = [
    obj({ a: S() }), obj({ a: S() }, []), obj({ a: S(), b: R() }, ['b']), obj({ a: opt(S()) }), obj({ a: opt2(R()) }), obj({ a: opt(S()), b: S() }), obj({ a: UNDEF, b: S() }), obj({ a: UNDEF }),
    obj({ a: union(S(), leaves.number(), UNDEF), b: S() }), obj({ a: union(leaves.literal(), union(UNDEF, leaves.numLiteral())) }), obj({ a: union(UNDEF, { type: 'null' }, S()) }), obj({ a: union({ type: 'null' }, S()) }), obj({ a: leaves.any(), b: opt(leaves.any()) }),
    obj({ a: obj({ b: opt(S()), c: S() }), d: opt(obj({ e: S(), f: opt(S()) })) }), obj({ a: arr(obj({ b: opt(S()), c: S() })) }), obj({ a: { type: 'record', codomain: obj({ b: S(), c: opt(S()) }, ['b', 'c']) } }),
    inter(obj({ a: S() }), obj({ b: S() }, [])), inter(obj({ a: opt(S()) }), obj({ b: opt(R()), c: R() })), inter(obj({ a: S(), b: S() }, ['a']), obj({ c: S() }), ref()), inter(ref(), obj({ a: opt(S()), b: R() })), inter(obj({ a: S() }), inter(obj({ b: opt(S()) }), obj({ c: S() }))), inter(obj({ a: S() }, []), obj({ b: S() }, [])), inter(obj({}), obj({ a: S() }), obj({ b: opt(S()) })),
    // the same property declared by two members
    inter(obj({ a: S(), b: S() }), obj({ a: S(), c: S() })), inter(obj({ a: S() }), obj({ a: S() }), obj({ a: S() })),
    union(obj({ a: S() }), obj({ b: opt(S()), c: S() })), arr(obj({ a: opt(S()), b: S() })), tuple(obj({ a: S() })),
    obj({ a: opt(union(leaves.literal(), { type: 'string', enum: [L('v2')] })) }), obj({ a: opt(leaves.literal()) }), obj({ a: union(opt(S()), leaves.number()) }), obj({ a: opt(arr(opt(S()))) }), obj({ a: opt(inter(obj({ b: S() }), obj({ c: opt(S()) }))) }), obj({ a: opt({ type: 'boolean', enum: [true] }), b: union(leaves.boolean(), leaves.boolean()) }),
    // a domain of known keys
    { type: 'record', domain: { type: 'string', enum: [L('k1'), L('k2')] }, codomain: S() }, { type: 'record', domain: { type: 'string', enum: [L('only')] }, codomain: S() }, { type: 'record', domain: { type: 'string', enum: [L('k1'), L('k2'), L('k3'), L('k4')] }, codomain: leaves.number() }, { type: 'record', domain: union({ type: 'string', enum: [L('k1')] }, { type: 'string', enum: [L('k2')] }), codomain: R() },
    // documented properties
    obj({ a: Object.assign(opt(S()), { comment: block({ description: L('text') }) }), b: Object.assign(S(), { comment: block({ description: L('text') }) }) }), Object.assign(obj({ a: opt(S()), b: S() }), { comment: block({ description: L('text') }) }),
    // 'required' order and properties that are not declared in order
    obj({ a: S(), b: opt(S()), c: S(), d: opt(R()), e: R() }, ['e', 'd', 'c', 'b', 'a']),
  ];
  for (const s of shapes) scenario(ctx, clean(show(s)).slice(0, 160), () => { G.judge(s, 'required'); G.optimized(s, 'optimized'); });
  require('./codecs').required(ctx);
}
// ---------- G16: unions
function G16(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3; fresh = 0;
  const S = leaves.string; const lit = (n) => ({ type: 'string', enum: [L(n)] }); const num = (n) => ({ type: 'number', enum: [N(n)] }); const bool = (b) => ({ type: 'boolean', enum: [b] }); const NUL = { type: 'null' };
  const enc = (t) => ({ type: 'string', format: 'number', decodedType: t });
  const doc = (s) => Object.assign(s, { comment: block({ description: L('text') }) });
  const members = {
    ref: ref('A'), ref2: ref('B'), object: obj({ a: S() }), object2: obj({ b: S() }), array: arr(S()), array2: arr(leaves.number()), record: { type: 'record', codomain: S() }, lit: lit('x'), lit2: lit('y'), num: num('n'), num2: num('m'), bool: bool(true), string: S(), number: leaves.number(), boolean: leaves.boolean(), null: NUL, date: leaves.date(), inter: inter(ref('C'), obj({ z: S() })), union: union(lit('z'), ref('D')), docLit: doc(lit('w')), enums: { type: 'string', enum: [L('e1'), L('e2')] }, integer: leaves.integerEnum(), describedEnum: { type: 'string', enum: [L('d1'), L('d2')], enumDescriptions: new Map([[L('d1'), L('text')]]) }, bigint: { type: 'number' },
  };
  const names = Object.keys(members); const shapes = [];
  // the carve-outs: members of the same run-time type, one of them primitive, are one
  const merges = (ms) => { const rt = ms.map((m) => m.decodedType || m.type); return ms.some((m) => m.primitive) && new Set(rt).size === 1; };
  const add = (...ms) => { if (!merges(ms)) shapes.push(union(...ms)); };
  for (const a of names) for (const b of names) if (a !== b) add(members[a], members[b]);
  for (const a of names) { add(members[a], NUL, members.ref); add(members[a], members.ref, members.object); add(members[a], members[a], members.ref2); add(members.lit, members[a], members.lit2); add(members[a], union(members.ref2, union(members.object2, members.lit)));
    shapes.push(obj({ p: union(members[a], UNDEF), q: union(UNDEF, members[a], NUL), r: union(members[a], members.ref2, UNDEF) })); shapes.push(union(members[a])); shapes.push(obj({ p: doc(union(members[a], UNDEF)) })); shapes.push(obj({ p: doc(union(members[a], NUL)), q: doc(union(members[a], members.ref2)) })); }
  shapes.push(union(bool(true), bool(false)), union(lit('a'), lit('b'), lit('a')), union(lit('a'), num('n'), lit('b'), num('m'), bool(true)), union(S(), enc('number')), union(leaves.number(), enc('bigint')), union(S(), enc('number'), leaves.boolean()), union(enc('number'), enc('bigint')), union(enc('number'), leaves.date()), union(NUL, lit('a'), lit('b')), union(NUL, num('n')), union(NUL, bool(true), bool(false)), union(enc('number'), Object.assign(enc('number'), { title: L('t') })), union(enc('boolean'), Object.assign(enc('boolean'), { title: L('t') }), NUL), union(leaves.any(), ref('A'), ref('B'), NUL), union(NUL, ref('A'), leaves.any(), obj({ y: S() })), union(ref('A'), ref('B'), ref('C'), obj({ a: S() })), union(ref('A'), ref('B'), ref('C'), ref('D'), NUL), union(lit('a'), num('n'), ref('A'), bool(true), obj({ a: S() }), lit('b')), obj({ p: union(ref('A'), ref('B'), ref('C'), UNDEF), q: union(UNDEF, ref('A'), arr(S()), ref('C'), ref('D'), NUL), r: doc(union(ref('A'), UNDEF, ref('B'), lit('a'), num('n'))) }), arr(union(ref('A'), ref('B'), ref('C'), UNDEF)), inter(ref('Z'), union(ref('A'), ref('B'), ref('C'), ref('D'))), arr(union(lit('a'), NUL)), arr(union(ref('A'), ref('B'), NUL)), { type: 'record', codomain: union(ref('A'), NUL) }, union(S(), leaves.any()), union(ref('A'), ref('B'), leaves.any()), obj({ p: union(leaves.any(), UNDEF), q: union(ref('A'), leaves.any(), UNDEF) }), arr(union(lit('a'), UNDEF)), union(ref('A'), ref('B'), UNDEF), union(ref('A'), ref('B'), UNDEF, NUL), inter(union(ref('A'), ref('B')), union(ref('C'), ref('D'))), union(inter(ref('A'), ref('B')), inter(ref('A'), ref('C'))), union(arr(lit('a')), arr(lit('b'))), union(obj({ a: lit('a') }), obj({ a: lit('b') })), union({ type: 'boolean', primitive: true }, lit('a')), union(lit('a'), Object.assign(lit('b'), { comment: block({ description: L('text') }) })));
  // not described as one: texts that decode to different types
  for (const s of [union(S(), leaves.number()), union(S(), leaves.boolean()), union(leaves.number(), leaves.boolean()), union(S(), leaves.number(), leaves.boolean())]) shapes.push(s);
  const seen = new Set();
  for (const s of shapes) { const n = clean(show(s)); if (seen.has(n) || outside(s)) continue; seen.add(n); scenario(ctx, n.slice(0, 160), () => { G.judge(s, 'alternatives'); G.optimized(s, 'optimized'); }); }
}

// ---------- G04: annotations
const STRUCT = new Set(['type', 'enum', 'items', 'properties', 'additionalProperties', 'required', 'oneOf', 'anyOf', 'allOf', 'nullable', '$ref']);
// field -> kind of value
const FIELDS = { default: 'value', example: 'value', maxLength: 'num', minLength: 'num', pattern: 'str', minimum: 'num', maximum: 'num', minItems: 'num', maxItems: 'num', minProperties: 'num', maxProperties: 'num', exclusiveMinimum: 'flag', exclusiveMaximum: 'flag', multipleOf: 'num', uniqueItems: 'flag', readOnly: 'flag', writeOnly: 'flag', format: 'str', title: 'str', deprecated: 'flag' };
const ON_ARRAY = ['minItems', 'maxItems', 'uniqueItems'];
const annots = (d) => { const m = new Map(); if (d && d.O) for (const [k, v] of d.O) if (k.k === 'const' && !STRUCT.has(k.v) && !(v.V && v.V === T.undef)) m.set(k.v, clean(key(v)).replace(/^\+\((.*)\)$/, 'Number($1)')); return m; };
const tagText = (t) => (t.rest === undefined ? clean(T.show(asTerm(t.value))) : clean(T.show(T.concat([asTerm(t.value), T.K(' '), asTerm(t.rest)]))));
const kinds = () => ({
  string: { type: 'string', primitive: true }, number: { type: 'number', primitive: true }, integer: { type: 'integer' }, boolean: { type: 'boolean', primitive: true }, ref: ref(), object: obj({ x: { type: 'string' } }), record: { type: 'record', codomain: { type: 'string' } }, records: { type: 'record', domain: { type: 'string', enum: [L('k1'), L('k2')] }, codomain: { type: 'string' } }, inter: inter(ref('A'), ref('B')), interObjects: inter(obj({ x: { type: 'string' } }), obj({ y: { type: 'string' } })), union: union(ref('A'), ref('B')), nullableRef: union(ref('A'), { type: 'null' }), nullable: union({ type: 'string' }, { type: 'null' }), literals: union({ type: 'string', enum: [L('l1')] }, { type: 'string', enum: [L('l2')] }), mixed: union({ type: 'string', enum: [L('l1')] }, { type: 'number', enum: [N('l2')] }), literal: { type: 'string', enum: [L('l1')] }, any: { type: 'any' }, optional: union({ type: 'string', primitive: true }, UNDEF), optionalRef: union(ref('A'), UNDEF), optionalUnion: union(ref('A'), ref('B'), UNDEF), optionalArray: union(arr({ type: 'string' }), UNDEF), array: arr({ type: 'string' }), arrayRef: arr(ref()), arrayUnion: arr(union(ref('A'), ref('B'))), arrayArray: arr(arr({ type: 'string' })),
});
const valueType = (k) => ({ string: 'string', number: 'number', integer: 'number', boolean: 'boolean', literal: 'string', optional: 'string' }[k]);
// what the value of a field must look like in the document
function wanted(field, kind, k, raw) { // raw: text of the tag's value, or {builtin: term}
  if (kind === 'flag') return 'true';
  if (raw && raw.builtin !== undefined) return clean(T.show(raw.builtin));
  if (kind === 'num' || (kind === 'value' && valueType(k) === 'number')) return `Number(${raw})`;
  return raw;
}
function G04(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3;
  const A = anchor('convertRoutesToOpenAPI');
  // the rendered property against expected annotations; arrays: those of the array and those of its items
  const compare = (shape, k, want, what, cause) => G.render(obj({ p: shape, q: leaves.number() }), (comp, doc) => {
    if (isOpen(doc)) { ctx.check(undefined, `${what}: ${clean(key(doc)).slice(0, 200)}`); return; }
    const d = get(comp, 'properties', L('p'));
    if (!d) { ctx.check(false, `${what}: the property is not rendered`, A, cause); return; }
    const isArr = cv(get(d, 'type')) === 'array';
    const issues = []; ofDoc(d, issues);
    ctx.check(!issues.length, `${what}: ${clean(issues[0] || '')}`, A, cause);
    const own = annots(d); const inner = isArr ? annots(get(d, 'items')) : new Map();
    const seen = new Set();
    for (const [f, w] of want) {
      const arrayExample = f === 'example' && /^\[/.test(w);
      const place = isArr && !(ON_ARRAY.includes(f) || arrayExample) ? inner : own; const not = isArr ? (place === own ? inner : own) : undefined;
      seen.add(f);
      const got = place.get(f);
      ctx.check(got === w, `${what}: ${f} is ${got === undefined ? 'missing' : got} where it should be ${w}${isArr ? (place === own ? ' (on the array)' : ' (on the items)') : ''}`, A, cause);
      if (not && not.has(f)) ctx.check(false, `${what}: ${f} also appears on the ${not === own ? 'array' : 'items'}`, A, cause);
    }
    for (const m of [own, inner]) for (const f of m.keys()) if (!seen.has(f)) ctx.check(false, `${what}: ${f} (${m.get(f)}) appears and nothing in the source gives it`, A, cause);
    // nothing else of the schema changes
    const q = get(comp, 'properties', L('q'));
    ctx.check(q && annots(q).size === 0, `${what}: annotations appear on another property`, A, cause);
    if (ctx.samples.length < 8) ctx.sample(`${what} -> ${[...own, ...inner].map(([f, w]) => `${f}=${w}`).join(' ')}`);
  });
  const fields = Object.keys(FIELDS); const ks = kinds();
  const builtin = (f, n) => (FIELDS[f] === 'num' ? N(n || 'b_' + f) : FIELDS[f] === 'flag' ? true : L(n || 'b_' + f));
  const tagOf = (f, n) => (FIELDS[f] === 'flag' ? { tag: f } : { tag: f, value: L(n || 't_' + f) });
  const canBuiltin = (k) => ['string', 'number', 'integer', 'boolean', 'object', 'record', 'records', 'any', 'array', 'literal'].includes(k);
  for (const k of Object.keys(ks)) {
    const mk = () => kinds()[k];
    const run = (name, shape, want) => scenario(ctx, `${k}: ${name}`, () => compare(shape, k, new Map(want), `${k} with ${name}`, name.replace(/ .*/, '')));
    run('no annotations', mk(), []);
    run('description', Object.assign(mk(), { comment: block({ description: L('text') }) }), [['description', 'text']]);
    run('two lines of description', Object.assign(mk(), { comment: block({ description: L('text'), more: [L('second')] }) }), [['description', 'text']]);
    run('@private', Object.assign(mk(), { comment: block({ tags: [{ tag: 'private' }] }) }), [['x-internal', 'true']]);
    run('@public', Object.assign(mk(), { comment: block({ tags: [{ tag: 'public' }] }) }), [['x-internal', 'false']]);
    run('an unknown tag', Object.assign(mk(), { comment: block({ tags: [{ tag: 'other', value: L('v') }] }) }), []);
    for (const f of fields) {
      const t = tagOf(f); const w = [f, wanted(f, FIELDS[f], k, tagText(t))];
      if (!(f === 'default' || f === 'example') || valueType(k) !== 'boolean') run(`@${f}`, Object.assign(mk(), { comment: block({ tags: [t] }) }), [w]);
      if (FIELDS[f] === 'str') { const t2 = Object.assign(tagOf(f), { rest: L('more') }); run(`@${f} of two words`, Object.assign(mk(), { comment: block({ tags: [t2] }) }), [[f, tagText(t2)]]); }
      if (!canBuiltin(k)) continue;
      const b = builtin(f); const wb = [f, FIELDS[f] === 'value' && valueType(k) === 'number' ? undefined : wanted(f, FIELDS[f], k, { builtin: b })];
      if (wb[1] !== undefined && !(FIELDS[f] === 'value' && valueType(k))) run(`built-in ${f}`, Object.assign(mk(), { [f]: b }), [wb]);
      if (FIELDS[f] !== 'flag' && valueType(k) !== 'boolean') run(`@${f} and built-in ${f}`, Object.assign(mk(), { [f]: b, comment: block({ tags: [t] }) }), [w]);
      if (FIELDS[f] === 'num') { run(`built-in ${f} of zero`, Object.assign(mk(), { [f]: 0 }), [[f, '0']]); run(`@${f} 0`, Object.assign(mk(), { comment: block({ tags: [{ tag: f, value: '0' }] }) }), [[f, '0']]); }
      if (FIELDS[f] === 'flag') run(`built-in ${f} that is off`, Object.assign(mk(), { [f]: false }), []);
    }
    const noVal = fields.filter((f) => valueType(k) !== 'boolean' || FIELDS[f] !== 'value');
    run('all tags', Object.assign(mk(), { comment: block({ description: L('text'), tags: noVal.map((f) => tagOf(f)).concat([{ tag: 'public' }]) }) }), noVal.map((f) => [f, wanted(f, FIELDS[f], k, tagText(tagOf(f)))]).concat([['description', 'text'], ['x-internal', 'false']]));
    if (canBuiltin(k)) { const fs = fields.filter((f) => FIELDS[f] !== 'value'); run('all built-in', Object.assign(mk(), Object.fromEntries(fs.map((f) => [f, builtin(f)])), { description: L('b_descr') }), fs.map((f) => [f, wanted(f, FIELDS[f], k, { builtin: builtin(f) })]).concat([['description', 'b_descr']]));
      run('built-in description and text', Object.assign(mk(), { description: L('b_descr'), comment: block({ description: L('text') }) }), [['description', 'text']]);
      run('tags over built-ins', Object.assign(mk(), Object.fromEntries(fs.map((f) => [f, builtin(f)])), { comment: block({ tags: fs.filter((f) => FIELDS[f] !== 'flag').map((f) => tagOf(f)) }) }), fs.map((f) => [f, FIELDS[f] === 'flag' ? 'true' : wanted(f, FIELDS[f], k, tagText(tagOf(f)))])); }
    // values by type
    const vt = valueType(k);
    if (vt) for (const f of ['default', 'example']) {
      const cases = vt === 'string' ? [['"quoted"', '"quoted"'], ['plain', '"plain"'], ['0', '"0"'], ['false', '"false"']] : vt === 'number' ? [['0', '0'], ['12.5', '12.5'], ['-3', '-3']] : [['true', 'true'], ['false', 'false']];
      for (const [text, w] of cases) run(`@${f} ${text}`, Object.assign(mk(), { comment: block({ tags: [{ tag: f, value: text }] }) }), [[f, w]]);
      if (k !== 'optional' && k !== 'literal') for (const b of vt === 'string' ? ['x'] : vt === 'number' ? [0, 5] : [true, false]) run(`built-in ${f} ${b}`, Object.assign(mk(), { [f]: b }), [[f, JSON.stringify(b)]]);
    }
    for (const [text, w, lines] of [['[1,2]', '[1,2]'], ['{"a":1}', '{"a":1}'], ['', '{"a":[1,2]}', ['{', '"a": [1,', '2]', '}']], ['', '[1,{"b":null}]', ['[1,', '{"b": null}', ']']]]) run(`@example ${text || lines.join(' ')}`, Object.assign(mk(), { comment: block({ tags: [lines ? { tag: 'example', lines } : { tag: 'example', value: text }, { tag: 'title', value: L('after') }] }) }), [['example', w], ['title', 'after']]);
    // both public and private
    scenario(ctx, `${k}: public and private`, () => {
      let thrown = 0; let rendered = 0;
      const others = ['deprecated', 'readOnly'].map((tag) => ({ tag })).concat([{ tag: 'title', value: L('t') }]);
      for (const tags of [[{ tag: 'private' }, { tag: 'public' }], [{ tag: 'public' }, { tag: 'private' }], [{ tag: 'public' }, ...others, { tag: 'private' }], [...others, { tag: 'private' }, { tag: 'public' }]]) G.render(obj({ p: Object.assign(mk(), { comment: block({ tags }) }) }), (comp, doc) => { if (isOpen(doc)) ctx.check(undefined, `${k} marked public and private`); else rendered++; }, { throws: () => { thrown++; } });
      ctx.check(!rendered && thrown ? true : rendered ? false : undefined, `${k} marked both public and private is rendered`, A, 'public and private');
    });
  }
  // a documented schema used inside a documented one: the outer documentation wins
  const inner = () => ({ type: 'string', primitive: true, comment: block({ description: L('inner'), tags: [{ tag: 'minLength', value: L('i') }, { tag: 'pattern', value: L('ip') }] }) });
  for (const [n, s] of Object.entries({ 'union with undefined': union(inner(), UNDEF), 'undefined first': union(UNDEF, inner()), 'nested optional': union(union(inner(), UNDEF), UNDEF) })) scenario(ctx, n, () => compare(Object.assign(s, { comment: block({ description: L('outer'), tags: [{ tag: 'minLength', value: L('o') }, { tag: 'title', value: L('ot') }] }) }), 'optional', new Map([['description', 'outer'], ['minLength', 'Number(o)'], ['title', 'ot'], ['pattern', 'ip']]), `a documented ${n} of a documented schema`, 'outer'));
  scenario(ctx, 'only the inner schema is documented', () => compare(union(inner(), UNDEF), 'optional', new Map([['description', 'inner'], ['minLength', 'Number(i)'], ['pattern', 'ip']]), 'an optional documented schema', 'inner'));
  // each documented alternative keeps its own documentation
  for (const [n, mk] of [['literal', (i) => ({ type: 'string', enum: [L('l' + i)] })], ['number literal', (i) => ({ type: 'number', enum: [N('l' + i)] })], ['reference', (i) => ref('R' + i)], ['object', (i) => obj({ ['o' + i]: { type: 'string' } })], ['array', (i) => arr(ref('R' + i))]]) for (const count of [2, 3]) for (const which of ['all', 'first', 'last']) scenario(ctx, `documented ${n} alternatives: ${which} of ${count}`, () => {
    const has = (i) => which === 'all' || (which === 'first' ? i === 0 : i === count - 1);
    const ms = []; for (let i = 0; i < count; i++) { const m = mk(i); if (has(i)) m.comment = block({ description: L('text' + i), tags: [{ tag: 'title', value: L('title' + i) }] }); ms.push(m); }
    G.render(obj({ p: union(...ms) }), (comp, doc) => {
      if (isOpen(doc)) { ctx.check(undefined, `documented ${n} alternatives`); return; }
      const list = ((get(comp, 'properties', L('p'), 'oneOf') || {}).A || []);
      for (let i = 0; i < count; i++) if (has(i)) {
        const mark = n === 'array' || n === 'reference' ? `concat("#/components/schemas/", R${i})` : n === 'object' ? `o${i}` : `l${i}`;
        const d = list.find((x) => clean(key(x)).includes(mark));
        const a = d && annots(n === 'array' ? get(d, 'items') : d);
        ctx.check(!!a && a.get('description') === 'text' + i && a.get('title') === 'title' + i && a.size === 2, `alternative ${i + 1} of ${count} ${n}s has its documentation as ${d ? clean(key(d)).slice(0, 200) : 'nothing'}`, A, 'alternative');
      }
    });
  });
  // enumeration descriptions
  scenario(ctx, 'enum descriptions', () => compare({ type: 'string', enum: [L('e1'), L('e2')], enumDescriptions: new Map([[L('e1'), L('d1')]]), enumsDeprecated: [L('e2')] }, 'literal', new Map([['x-enumDescriptions', '{e1:d1}'], ['x-enumsDeprecated', '[e2]']]), 'a described enum', 'enum'));
  // the title of a component is its name unless it is documented or built in
  for (const k of ['string', 'object', 'union', 'ref', 'array', 'record', 'inter']) for (const mode of ['tag', 'built-in', 'none']) scenario(ctx, `title of a component: ${k} ${mode}`, () => {
    const s = kinds()[k]; if (mode === 'built-in' && !canBuiltin(k)) return;
    if (mode === 'tag') s.comment = block({ tags: [{ tag: 'title', value: L('t') }] }); else if (mode === 'built-in') s.title = L('t');
    if (mode !== 'none' && k === 'array') return; // on the items
    G.render(s, (comp, doc) => {
      if (isOpen(doc)) { ctx.check(undefined, `title of a component: ${k}`); return; }
      const inAll = ((get(comp, 'allOf') || {}).A || []).map((x) => get(x, 'title')).find(Boolean);
      const t = get(comp, 'title') || inAll; const w = mode === 'none' ? 'Comp' : 't';
      ctx.check(!!t && clean(key(t)) === w, `the title of a component that is a ${k}${mode === 'none' ? '' : mode === 'tag' ? ' with @title' : ' with a built-in title'} is ${t ? clean(key(t)) : 'missing'} where it should be ${w}`, A, 'component title');
    });
  });
  // annotations in other places
  for (const [n, place, take] of [['component', (s) => s, (c) => c], ['item', (s) => obj({ p: arr(s) }), (c) => get(c, 'properties', L('p'), 'items')], ['record value', (s) => ({ type: 'record', codomain: s }), (c) => get(c, 'additionalProperties')], ['alternative', (s) => union(ref('Z'), s), (c) => ((get(c, 'oneOf') || {}).A || [])[1]], ['nullable', (s) => union(s, { type: 'null' }), (c) => c], ['member', (s) => inter(ref('Z'), s), (c) => ((get(c, 'allOf') || {}).A || [])[1]]]) for (const k of ['string', 'ref', 'object']) for (const mode of ['tag', 'built-in']) scenario(ctx, `${n} ${k} ${mode}`, () => {
    if (k === 'ref' && mode === 'built-in') return;
    if (n === 'member' && k === 'object') return; // members that are objects are merged into one
    const s = kinds()[k]; if (mode === 'tag') s.comment = block({ tags: [{ tag: 'maxLength', value: L('v') }] }); else s.maxLength = N('v');
    G.render(place(s), (comp, doc) => {
      if (isOpen(doc)) { ctx.check(undefined, `${n} ${k}`); return; }
      const d = take(comp); const got = d && annots(d); if (got && (n === 'component' || n === 'nullable')) got.delete('title');
      const w = mode === 'tag' ? 'Number(v)' : 'v';
      ctx.check(!!got && got.size === 1 && got.get('maxLength') === w, `${mode} maxLength of a ${k} as ${n}: ${d ? clean(key(d)).slice(0, 200) : 'not rendered'}`, A, 'place');
    });
  });
}

// ---------- G05: references
function G05(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3;
  const A = anchor('convertRoutesToOpenAPI');
  const at = (n, l) => ({ type: 'ref', name: L(n), location: L(l) });
  const mapping = new Map([[L('F1'), new Map([[L('X'), L('X')], [L('Y'), L('Y')]])], [L('F2'), new Map([[L('X'), L('X1')], [L('Z'), L('Z')]])]]);
  const names = (s) => { for (const [l, m] of mapping) if (l === s.location) for (const [n, c] of m) if (n === s.name) return c; return s.name; };
  const pairs = [at('X', 'F1'), at('X', 'F2'), at('Y', 'F1'), at('Z', 'F2')];
  for (const w of Object.keys(wraps)) for (const r of pairs) { const s = wraps[w](r); scenario(ctx, `${w} ${clean(show(r))}`, () => G.judge(s, 'names', { mapping, names })); }
  for (const w of Object.keys(wraps)) scenario(ctx, `${w} of both`, () => { for (const s of [union(pairs[0], wraps[w](pairs[1])), obj({ a: pairs[0], b: wraps[w](pairs[1]), c: pairs[1] })]) if (!outside(s)) G.judge(s, 'names', { mapping, names }); });
  // in operations: bodies, responses and parameters use the same names
  scenario(ctx, 'operations', () => {
    const route = { path: L('path'), method: 'GET', parameters: [{ type: 'query', name: L('q'), required: true, schema: at('X', 'F2') }, { type: 'header', name: L('h'), required: false, schema: arr(at('X', 'F1')) }], body: obj({ a: at('X', 'F2'), b: at('X', 'F1') }), response: new Map([['200', at('X', 'F2')], ['400', union(at('X', 'F1'), at('X', 'F2'))]]) };
    G.render(ref('Other'), (comp, doc) => {
      if (isOpen(doc)) { ctx.check(undefined, 'an operation with references'); return; }
      const op = get(doc, 'paths', L('path'), 'get');
      const ps = ((get(op, 'parameters') || {}).A) || [];
      const json = (x) => get(x, 'content', 'application/json', 'schema');
      for (const [what, d, s] of [['first parameter', get(ps[0], 'schema'), route.parameters[0].schema], ['second parameter', get(ps[1], 'schema'), route.parameters[1].schema], ['request body', json(get(op, 'requestBody')), route.body], ['response 200', json(get(op, 'responses', '200')), route.response.get('200')], ['response 400', json(get(op, 'responses', '400')), route.response.get('400')]]) {
        const issues = []; const df = d ? diff(ofIR(s, names), ofDoc(d, issues)) : 'is missing';
        ctx.check(!df && !issues.length, `the ${what} of an operation: ${clean(df || issues[0] || '')} (${d ? clean(key(d)).slice(0, 200) : 'nothing'})`, A, 'operation');
      }
    }, { mapping, routes: [route] });
  });
  // without a mapping the name itself
  scenario(ctx, 'no mapping', () => { for (const w of ['array', 'property', 'record']) G.judge(wraps[w](at('X', 'F1')), 'names'); });
  // the component it came from
  require('./cli').G05(ctx);
}

// ---------- G06: inputs are left alone
function G06(ctx) {
  ctx.limit = 30e3;
  const doc = () => block({ description: L('text'), tags: [{ tag: 'minLength', value: L('n') }, { tag: 'deprecated' }, { tag: 'private' }] });
  const shapes = nest(ctx).concat(Object.values(kinds()), Object.values(kinds()).map((s) => Object.assign(s, { comment: doc() })), Object.values(kinds()).map((s) => obj({ p: Object.assign(s, { comment: doc(), minLength: N('b') }), q: union(Object.assign(kinds().string, { comment: doc() }), UNDEF) })));
  const unchanged = (W, st, what, where) => { const c = W.changed(st); ctx.check(!c, c && `${what} changes its argument: ${clean(c.before).slice(0, 200)} becomes ${clean(c.after).slice(0, 200)}`, where, 'mutation'); };
  const call = (name, args, what) => {
    const W = new GW(ctx, { exists: () => true }); const { I } = W;
    const fn = W.exp(ctx, name);
    if (!fn) return;
    for (const r of I.callValue(fn, undefined, args(W), W.st.clone(), null)) { ctx.paths++; if (!r.ex) unchanged(W, r.st, what, anchor(name)); }
    ctx.use(I);
  };
  for (const s of shapes) scenario(ctx, clean(show(s)).slice(0, 160), () => {
    call('optimize', (W) => [W.mk(s)], `optimize(${clean(show(s)).slice(0, 160)})`);
    call('getRefs', (W) => [W.mk(s), W.mk({})], `getRefs(${clean(show(s)).slice(0, 160)})`);
    call('convertRoutesToOpenAPI', (W) => [W.mk({ title: L('api') }), W.mk([{ url: L('url') }]), W.mk([{ path: L('path'), method: 'GET', comment: doc(), parameters: [{ type: 'query', name: L('q'), required: true, schema: s }], body: s, response: new Map([['200', s]]) }]), W.mk(new Map([[L('Comp'), s]])), W.mk(new Map([[L('File'), new Map([[L('Name'), L('Name1')]])]]))], `rendering ${clean(show(s)).slice(0, 160)}`);
  });
  require('./cli').G06(ctx);
}

// ---------- G13: operations
const REASONS = require('http').STATUS_CODES;
function G13(ctx) {
  const G = new Gen(ctx); ctx.limit = 20e3;
  const A = anchor('convertRoutesToOpenAPI');
  const run = (name, routes, f, o) => scenario(ctx, name, () => G.render(leaves.string(), (comp, doc) => { if (isOpen(doc)) ctx.check(undefined, `${name}: ${clean(key(doc)).slice(0, 200)}`); else f(doc); }, Object.assign({ routes }, o)));
  const route = (o) => Object.assign({ path: L('path'), method: 'GET', parameters: [], response: new Map([['200', leaves.string()]]) }, o);
  const is = (d, w) => (w === undefined ? d === undefined : d !== undefined && clean(key(d)) === w);
  const expectOp = (doc, path, method, want, what) => {
    const p = get(doc, 'paths', path); const op = get(p, method);
    if (!ctx.check(!!op, `${what}: no operation under ${clean(T.show(T.K(method)))} of its path (${p ? clean(key(p)).slice(0, 200) : 'the path is missing'})`, A, 'place')) return;
    for (const f of ['summary', 'description', 'operationId', 'tags', 'x-internal', 'x-unstable', 'x-unknown-tags']) ctx.check(is(get(op, f), want[f]), `${what}: ${f} is ${get(op, f) ? clean(key(get(op, f))) : 'missing'} where it should be ${want[f] === undefined ? 'absent' : want[f]}`, A, f);
    for (const k of op.O.keys()) ctx.check(['summary', 'description', 'operationId', 'tags', 'x-internal', 'x-unstable', 'x-unknown-tags', 'parameters', 'requestBody', 'responses'].includes(k.v) || get(op, k) === undefined, `${what}: the operation has a field ${clean(T.show(k))} that nothing gives`, A, 'extra');
    return op;
  };
  // places
  for (const m of ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'get', 'Post', 'OPTIONS', 'HEAD']) run(`method ${m}`, [route({ method: m })], (doc) => { expectOp(doc, L('path'), m.toLowerCase(), {}, `${m} without documentation`); const paths = get(doc, 'paths'); ctx.check(paths.O.size === 1 && get(paths, L('path')).O.size === 1, `one route gives ${clean(key(paths)).slice(0, 200)}`, A, 'place'); });
  const tagged = (n) => block({ description: L('sum ' + n), tags: [{ tag: 'operationId', value: L('id ' + n) }, { tag: 'tag', value: L('tag ' + n) }] });
  const many = [['p1', 'GET'], ['p1', 'POST'], ['p2', 'GET'], ['p3', 'PUT'], ['p2', 'DELETE'], ['p1', 'PATCH']];
  const manyRoutes = many.map(([p, m]) => route({ path: L(p), method: m, comment: tagged(p + m), response: new Map([['200', { type: 'string', enum: [L('of ' + p + m)] }]]), body: { type: 'string', enum: [L('body ' + p + m)] }, parameters: [{ type: 'query', name: L('param ' + p + m), required: true, schema: leaves.string() }] }));
  run('several routes', manyRoutes, (doc) => {
    for (const [p, m] of many) {
      const n = p + m; const op = expectOp(doc, L(p), m.toLowerCase(), { summary: 'sum ' + n, operationId: 'id ' + n, tags: `[tag ${n}]` }, `route ${n} of several`);
      if (!op) continue;
      ctx.check(clean(key(get(op, 'responses', '200', 'content', 'application/json', 'schema', 'enum') || { V: T.undef })) === `[of ${n}]`, `route ${n} of several has the response of another`, A, 'mixed up');
      ctx.check(clean(key(get(op, 'requestBody', 'content', 'application/json', 'schema', 'enum') || { V: T.undef })) === `[body ${n}]`, `route ${n} of several has the body of another`, A, 'mixed up');
      ctx.check((get(op, 'parameters') || { A: [] }).A.map((x) => clean(key(get(x, 'name')))).join() === `param ${n}`, `route ${n} of several has the parameters of another`, A, 'mixed up');
    }
    const paths = get(doc, 'paths');
    ctx.check(paths.O.size === 3 && [...paths.O.values()].reduce((a, x) => a + x.O.size, 0) === many.length, `${many.length} routes give ${clean(key(paths)).slice(0, 200)}`, A, 'place');
  });
  const wide = []; for (let i = 0; i < 18; i++) wide.push(['w' + (i % 9), i < 9 ? 'POST' : 'GET']);
  run('many paths', wide.map(([p, m]) => route({ path: L(p), method: m, response: new Map([['200', { type: 'string', enum: [L(p + m)] }]]) })), (doc) => {
    for (const [p, m] of wide) { const op = get(doc, 'paths', L(p), m.toLowerCase()); ctx.check(!!op && clean(key(get(op, 'responses', '200', 'content', 'application/json', 'schema', 'enum') || { V: T.undef })) === `[${p + m}]`, `${m} ${p}, one of ${wide.length} routes, is ${op ? 'another route' : 'missing'}`, A, 'place'); }
  });
  const verbs = ['GET', 'POST', 'PUT', 'DELETE', 'PATCH', 'OPTIONS', 'HEAD'];
  for (const a of verbs) for (const b of verbs) if (a !== b) run(`${a} and ${b} of one path`, [a, b].map((m) => route({ method: m, response: new Map([['200', { type: 'string', enum: [L(m)] }]]) })), (doc) => {
    for (const m of [a, b]) { const op = get(doc, 'paths', L('path'), m.toLowerCase()); ctx.check(!!op && clean(key(get(op, 'responses', '200', 'content', 'application/json', 'schema', 'enum') || { V: T.undef })) === `[${m}]`, `of ${a} and then ${b} of one path, ${m} is ${op ? 'mixed up' : 'missing'}`, A, 'place'); }
  });
  // documentation
  const docs = {
    summary: [block({ description: L('s') }), { summary: 's' }], 'summary and description': [block({ description: L('s'), more: [L('d')] }), { summary: 's', description: 'd' }], 'longer description': [block({ description: L('s'), more: [L('d1'), L('d2')] }), { summary: 's', description: 'concat(d1, "\\n", d2)' }],
    operationId: [block({ tags: [{ tag: 'operationId', value: L('id') }] }), { operationId: 'id' }], tag: [block({ tags: [{ tag: 'tag', value: L('t') }] }), { tags: '[t]' }], 'tag of two words': [block({ tags: [{ tag: 'tag', value: L('t'), rest: L('u') }] }), { tags: '[concat(t, " ", u)]' }], private: [block({ tags: [{ tag: 'private' }] }), { 'x-internal': 'true' }], public: [block({ tags: [{ tag: 'public' }] }), { 'x-internal': 'false' }], unstable: [block({ tags: [{ tag: 'unstable' }] }), { 'x-unstable': 'true' }],
    unknown: [block({ tags: [{ tag: 'version', value: L('v') }] }), { 'x-unknown-tags': '{"version":v}' }], 'unknown without a value': [block({ tags: [{ tag: 'optional' }] }), { 'x-unknown-tags': '{"optional":true}' }], 'several unknown': [block({ tags: [{ tag: 'version', value: L('v') }, { tag: 'since', value: L('w'), rest: L('x') }, { tag: 'flag' }] }), { 'x-unknown-tags': '{"flag":true,"since":concat(w, " ", x),"version":v}' }],
    url: [block({ tags: [{ tag: 'url', value: L('u') }] }), {}], everything: [block({ description: L('s'), more: [L('d')], tags: [{ tag: 'operationId', value: L('id') }, { tag: 'tag', value: L('t') }, { tag: 'private' }, { tag: 'unstable' }, { tag: 'version', value: L('v') }] }), { summary: 's', description: 'd', operationId: 'id', tags: '[t]', 'x-internal': 'true', 'x-unstable': 'true', 'x-unknown-tags': '{"version":v}' }], 'in another order': [block({ description: L('s'), tags: [{ tag: 'unstable' }, { tag: 'version', value: L('v') }, { tag: 'public' }, { tag: 'tag', value: L('t') }, { tag: 'operationId', value: L('id') }] }), { summary: 's', operationId: 'id', tags: '[t]', 'x-internal': 'false', 'x-unstable': 'true', 'x-unknown-tags': '{"version":v}' }],
  };
  for (const x of ['unstable', 'private']) docs[x + ' with text'] = [block({ description: L('s'), tags: [{ tag: x, value: L('until'), rest: L('spring') }] }), { summary: 's', [x === 'private' ? 'x-internal' : 'x-unstable']: 'true' }];
  for (const [n, [comment, want]] of Object.entries(docs)) run(n, [route({ comment })], (doc) => expectOp(doc, L('path'), 'get', want, `a route documented with ${n}`));
  run('documentation stays with its route', [route({ path: L('p1'), comment: docs.everything[0] }), route({ path: L('p2') }), route({ path: L('p1'), method: 'PUT', comment: docs.summary[0] })], (doc) => { expectOp(doc, L('p1'), 'get', docs.everything[1], 'the documented route'); expectOp(doc, L('p2'), 'get', {}, 'the route without documentation'); expectOp(doc, L('p1'), 'put', docs.summary[1], 'the other route'); });
  for (const tags of [[{ tag: 'private' }, { tag: 'public' }], [{ tag: 'public' }, { tag: 'private' }]]) scenario(ctx, 'public and private', () => { let thrown = 0; let rendered = 0; G.render(leaves.string(), (c, doc) => { if (!isOpen(doc)) rendered++; }, { routes: [route({ comment: block({ tags }) })], throws: () => { thrown++; } }); ctx.check(rendered ? false : thrown ? true : undefined, 'a route marked both public and private is rendered', A, 'public and private'); });
  // responses
  const codes = ctx.tier === 'quick' ? ['200', '201', '202', '204', '301', '400', '401', '403', '404', '409', '422', '429', '500', '503'] : Object.keys(REASONS);
  run('responses', [route({ response: new Map(codes.map((c) => [c, { type: 'string', enum: [L('of ' + c)] }])) })], (doc) => {
    const rs = get(doc, 'paths', L('path'), 'get', 'responses');
    for (const c of codes) {
      const r = get(rs, c);
      ctx.check(!!r && clean(key(get(r, 'content', 'application/json', 'schema') || { V: T.undef })) === `{"enum":[of ${c}],"type":"string"}`, `response ${c}: ${r ? clean(key(r)).slice(0, 200) : 'is missing'}`, A, 'responses');
      if (r) ctx.check(cv(get(r, 'description')) === REASONS[c] || new RegExp(`(^|:)http#STATUS_CODES\\.${c}$`).test(clean(key(get(r, 'description') || { V: T.undef }))), `response ${c} is described as ${clean(key(get(r, 'description') || { V: T.undef }))} and not as ${JSON.stringify(REASONS[c])}`, A, 'reason');
    }
    ctx.check(rs && rs.O.size === codes.length, `${codes.length} declared responses give ${rs ? rs.O.size : 0}`, A, 'responses');
  });
  // examples
  run('example', [route({ comment: block({ description: L('s'), tags: [{ tag: 'example', value: '{"a":1}' }] }), response: new Map([['200', leaves.string()], ['400', leaves.number()]]) })], (doc) => { const rs = get(doc, 'paths', L('path'), 'get', 'responses'); for (const c of ['200', '400']) ctx.check(clean(key(get(rs, c, 'content', 'application/json', 'example') || { V: T.undef })) === '{"a":1}', `the example of a route is missing from response ${c}`, A, 'example'); expectOp(doc, L('path'), 'get', { summary: 's' }, 'a route with an example'); });
  // bodies
  for (const [n, s] of Object.entries(kinds())) { if (n === 'optional' || n.startsWith('optional') || n === 'any') continue; run(`body ${n}`, [route({ body: s, response: new Map([['200', s]]) })], (doc) => {
    const op = get(doc, 'paths', L('path'), 'get');
    for (const [what, d] of [['request body', get(op, 'requestBody', 'content', 'application/json', 'schema')], ['response', get(op, 'responses', '200', 'content', 'application/json', 'schema')]]) { const issues = []; const df = d ? diff(ofIR(s, namesOf), ofDoc(d, issues)) : 'is missing'; ctx.check(!df && !issues.length, `${what} ${n}: ${clean(df || issues[0] || '')}`, A, 'body'); }
  }); }
  run('no body', [route({})], (doc) => ctx.check(get(doc, 'paths', L('path'), 'get', 'requestBody') === undefined, 'a route without a body has a request body', A, 'body'));
  // parameters of an operation
  const ps = [{ type: 'query', name: L('q1'), required: true, schema: leaves.string() }, { type: 'query', name: L('q2'), required: false, schema: arr(leaves.string()) }, { type: 'path', name: L('p1'), required: true, schema: leaves.encoded() }, { type: 'header', name: L('h1'), required: false, schema: ref() }, { type: 'query', name: L('u'), required: true, explode: true, schema: union(ref('A'), ref('B')) }, { type: 'query', name: L('u2'), required: false, explode: true, schema: arr(leaves.string()) }, { type: 'query', name: L('d'), required: true, schema: Object.assign(leaves.string(), { comment: block({ description: L('text'), tags: [{ tag: 'minLength', value: L('n') }] }) }) }, { type: 'query', name: L('i'), required: true, schema: Object.assign(leaves.string(), { comment: block({ tags: [{ tag: 'private' }] }) }) }, { type: 'query', name: L('o'), required: true, schema: Object.assign(leaves.string(), { comment: block({ description: L('open'), tags: [{ tag: 'public' }] }) }) }];
  run('parameters', [route({ parameters: ps })], (doc) => {
    const got = (get(doc, 'paths', L('path'), 'get', 'parameters') || { A: [] }).A || [];
    ctx.check(got.length === ps.length, `${ps.length} parameters give ${got.length}`, A, 'parameters');
    ps.forEach((p, i) => {
      const d = got.find((x) => clean(key(get(x, 'name') || { V: T.undef })) === clean(T.show(p.name)));
      const what = `parameter ${clean(T.show(p.name))}`;
      if (!ctx.check(!!d, `${what} is missing`, A, 'parameters')) return;
      ctx.check(cv(get(d, 'in')) === p.type, `${what} is in ${clean(key(get(d, 'in') || { V: T.undef }))} and not in ${p.type}`, A, 'parameters');
      ctx.check((cv(get(d, 'required')) === true) === p.required, `${what} is ${p.required ? 'required and not marked so' : 'optional and marked required'}`, A, 'parameters');
      ctx.check((cv(get(d, 'explode')) === true) === !!p.explode, `${what}: explode is ${clean(key(get(d, 'explode') || { V: T.undef }))}`, A, 'parameters');
      const issues = []; const df = diff(ofIR(p.schema, namesOf), ofDoc(get(d, 'schema'), issues));
      ctx.check(!df && !issues.length, `${what}: ${clean(df || issues[0] || '')}`, A, 'parameters');
      const text = p.schema.comment && p.schema.comment.description !== '' ? clean(T.show(p.schema.comment.description)) : undefined;
      const gotText = get(d, 'description');
      ctx.check(text === undefined ? !gotText || cv(gotText) === '' : !!gotText && clean(key(gotText)) === text, `${what}: description is ${gotText ? clean(key(gotText)) : 'missing'}`, A, 'parameters');
      const vis = i === 7 ? 'true' : i === 8 ? 'false' : undefined;
      ctx.check(is(get(d, 'x-internal'), vis), `${what}: x-internal is ${get(d, 'x-internal') ? clean(key(get(d, 'x-internal'))) : 'missing'}`, A, 'parameters');
      if (i === 6) ctx.check(clean(key(get(d, 'schema', 'minLength') || { V: T.undef })) === 'Number(n)', `${what}: minLength is lost`, A, 'parameters');
    });
  });
  // the parts of the document that are given
  run('info', [], (doc) => { ctx.check(clean(key(get(doc, 'info') || { V: T.undef })) === '{"title":api}', 'info is not the one given', A, 'document'); ctx.check(cv(get(doc, 'openapi')) !== undefined && /^3\.0\.\d$/.test(cv(get(doc, 'openapi'))), `openapi is ${clean(key(get(doc, 'openapi') || { V: T.undef }))}`, A, 'document'); ctx.check(get(doc, 'servers') === undefined, 'servers appear although none is given', A, 'document'); });
  // components keep their names and titles
  scenario(ctx, 'components', () => G.render(obj({ a: ref('Second') }), (comp, doc) => { const all = get(doc, 'components', 'schemas'); ctx.check(isOpen(doc) ? undefined : all && all.O.size === 3 && ['Comp', 'Second', 'Third'].every((n) => get(all, L(n))), `three components give ${all ? clean(key(all)).slice(0, 200) : 'none'}`, A, 'document'); }, { others: [[L('Second'), leaves.string()], [L('Third'), ref('Second')]] }));
}

// ---------- comments
const asTerm = (v) => (v === undefined ? T.K('') : isTerm(v) ? v : T.K(v));
// o: {description, tags: [{tag, value, rest, lines}]}; values are constants or literal atoms
function block(o) {
  const tags = o.tags || [];
  const lines = [];
  const tok = (t) => Object.assign({ start: ' ', delimiter: '*', postDelimiter: ' ', tag: '', name: '', type: '', description: '', end: '' }, t);
  if (o.description !== undefined) lines.push({ source: T.concat([T.K(' * '), asTerm(o.description)]), tokens: tok({ description: o.description }) });
  for (const d of o.more || []) lines.push({ source: T.concat([T.K(' * '), asTerm(d)]), tokens: tok({ description: d }) });
  for (const t of tags) {
    const first = (t.lines || [])[0];
    lines.push({ source: T.concat([T.K(` * @${t.tag} `), asTerm(first !== undefined ? first : t.value), ...(t.rest === undefined ? [] : [T.K(' '), asTerm(t.rest)])]), tokens: tok({ tag: '@' + t.tag, name: first !== undefined ? first : t.value === undefined ? '' : t.value, description: t.rest === undefined ? '' : t.rest }) });
    for (const l of (t.lines || []).slice(1)) lines.push({ source: T.concat([T.K(' * '), asTerm(l)]), tokens: tok({ description: l }) });
  }
  return { description: o.description === undefined ? '' : o.description, tags: tags.map((t) => ({ tag: t.tag, name: t.value === undefined ? '' : t.value, type: '', optional: false, description: t.rest === undefined ? '' : t.rest, problems: [], source: [] })), source: lines.map((l, i) => Object.assign({ number: i }, l)), problems: [] };
}
module.exports = { Gen, ofIR, ofDoc, diff, text, block, data, show, clean, anchor, leaves, wraps, obj, union, inter, tuple, arr, ref, UNDEF, refsIn, kinds, annots, G03, G04, G05, G06, G07, G13, G16 };
