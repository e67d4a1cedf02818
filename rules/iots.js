'use strict';
// A model of the io-ts combinators for the abstract interpreter: codecs are objects whose methods
// compute, over abstract values, what io-ts computes (type, partial, intersection, exact, strict,
// union and user-made codecs); leaf codecs stay symbolic. Used by the rules about codecs the
// repository builds.
const { T, Abort } = require('./lib');
const M = require('../engine/models');
const val = (st, v) => [{ st, v }];
const kv = (k, v, g) => (g && g.length ? { t: 'kv', key: T.K(k), v, g } : { t: 'kv', key: T.K(k), v });
const isExt = (c, name) => c.k === 'ext' && c.m === 'io-ts' && c.p === name;
const right = (I, st, v) => M.mkEither(I, st, 'Right', v);
const left = (I, st, v) => M.mkEither(I, st, 'Left', v);
// the conjunction of literals for a boolean term, or null when it is a constant
function guard(I, st, b) {
  b = T.simp(b, st.conds);
  const k = b.k === 'const' ? !!b.v : T.known(b, st.conds);
  if (k === true) return [];
  if (k === false) return null;
  return [I.asLit(b)];
}
const DICT = (u) => T.op('isdict', u);

// make a codec object; is/validate/encode are (st, args, node) => outcomes
function codec(I, st, o, extra) {
  const self = I.alloc('obj', [], st, { codec: o.tag });
  const ents = [kv('_tag', T.K(o.tag)), kv('name', o.name || T.sym('name'))];
  const nat = (n, f) => { const t = I.native(n, (s, _self, args, node) => f(s, args, node)); ents.push(kv(n, t)); return t; };
  nat('is', (s, a, n) => o.is(s, a[0] || T.undef, n));
  nat('validate', (s, a, n) => o.validate(s, a[0] || T.undef, a[1], n));
  nat('decode', (s, a, n) => o.validate(s, a[0] || T.undef, T.sym('context'), n));
  nat('encode', (s, a, n) => o.encode(s, a[0] || T.undef, n));
  for (const k of Object.keys(extra || {})) ents.push(kv(k, extra[k]));
  st.ents.set(self, ents);
  return self;
}
const call = (I, st, c, m, args, node) => {
  if (isExt(c, 'undefined') || isExt(c, 'null') || isExt(c, 'void') || isExt(c, 'nullType') || isExt(c, 'voidType')) {
    const w = /null/.test(c.p) ? T.K(null) : T.undef;
    if (m === 'is') return val(st, I.eq(args[0], w, st));
    if (m === 'encode') return val(st, args[0]);
    const outs = [];
    for (const b of I.branch(st, I.eq(args[0], w, st))) outs.push({ st: b.st, v: b.b ? right(I, b.st, args[0]) : left(I, b.st, T.op('errs', c, args[0])) });
    return outs;
  }
  return I.bind(I.leaves(st, c), (s, cc) => {
    const f = I.getProp(s, cc, T.K(m));
    return I.callValue(f, cc, args, s, node);
  });
};
function propsOf(I, st, props) {
  const es = props && props.k === 'obj' ? I.entsOf(st, props) : undefined;
  if (!es) throw new Abort('codec properties that are not a literal table');
  const out = new Map();
  for (const e of es) {
    if (e.t === 'spread' && e.v.k === 'obj') { for (const [k, v] of propsOf(I, st, e.v)) out.set(k, v); continue; }
    if (e.t !== 'kv' || e.key.k !== 'const') throw new Abort('codec property with an unknown name');
    const g = e.g && e.g.length ? T.knownConj(e.g, st.conds) : true;
    if (g === false) continue;
    if (g !== true) throw new Abort('codec property that is there only sometimes');
    out.set(String(e.key.v), e.v);
  }
  return out;
}
// properties that are there only under a condition: one state per case
function forkTable(I, st, props) {
  let cur = [st];
  const unknownGuard = (s) => { const e = (props && props.k === 'obj' && I.entsOf(s, props) || []).find((x) => x.t === 'kv' && x.g && x.g.length && T.knownConj(x.g, s.conds) === undefined); return e && e.g; };
  for (let again = true; again;) {
    again = false; const next = [];
    for (const s of cur) { const g = unknownGuard(s); if (!g) { next.push(s); continue; } again = true; const r = I.splitConj(s.clone(), g); next.push(...r.yes, ...r.no); }
    cur = I.cap(next);
  }
  return cur;
}
// validate each property: [{st, dec: Map | undefined, fails: [left]}]
function validateProps(I, st, props, u, ctx, node, tolerant) {
  let cur = [{ st, dec: new Map(), fail: false }];
  for (const [k, c] of props) {
    const next = [];
    for (const x of cur) {
      if (x.fail || x.ex) { next.push(x); continue; }
      const ak = I.getProp(x.st, u, T.K(k));
      for (const o of call(I, x.st, c, 'validate', [ak, T.sym('context')], node)) {
        if (o.ex) { next.push(Object.assign({ ex: o.ex }, x, { st: o.st })); continue; }
        for (const e of M.splitE(I, o.st, o.v)) {
          if (e.left) {
            if (tolerant) for (const b of I.branch(e.st, I.eq(ak, T.undef, e.st))) next.push({ st: b.st, dec: new Map(x.dec), fail: x.fail || !b.b });
            else next.push({ st: e.st, dec: new Map(x.dec), fail: true });
          } else next.push({ st: e.st, dec: new Map(x.dec).set(k, { v: I.getProp(e.st, e.e, 'right'), raw: ak }), fail: x.fail });
        }
      }
    }
    cur = I.cap(next);
  }
  return cur;
}
function record(I, st, u, f, node) {
  const outs = [];
  const isObj = u.k === 'obj' ? T.true_ : DICT(u);
  for (const b of I.branch(st, isObj)) { if (b.b) outs.push(...f(b.st)); else outs.push({ st: b.st, v: left(I, b.st, T.op('errs', T.K('UnknownRecord'), u)) }); }
  return outs;
}
// the result may be the very input: writing to it is a side effect
const mayAlias = (I, st, ents, u) => I.alloc('obj', ents, st, { alias: u });

function typeC(I, st, props, name, partial) {
  const ps = propsOf(I, st, props);
  const conj = (s, tests, node) => {
    let cur = [{ st: s, v: T.true_ }];
    for (const t of tests) {
      const next = [];
      for (const c of cur) {
        if (c.v.k === 'const' && c.v.v === false) { next.push(c); continue; }
        for (const o of t(c.st)) for (const b of o.ex ? [o] : I.branch(o.st, o.v)) next.push(b.ex ? b : { st: b.st, v: b.b ? T.true_ : T.false_ });
      }
      cur = I.cap(next);
    }
    return cur;
  };
  return codec(I, st, {
    tag: partial ? 'PartialType' : 'InterfaceType', name,
    is: (s, u, node) => conj(s, [(x) => val(x, u.k === 'obj' ? T.true_ : DICT(u))].concat([...ps].map(([k, c]) => (x) => {
      const uk = I.getProp(x, u, T.K(k));
      if (partial) { const out = []; for (const b of I.branch(x, I.eq(uk, T.undef, x))) out.push(...(b.b ? val(b.st, T.true_) : call(I, b.st, c, 'is', [uk], node))); return out; }
      const out = [];
      for (const b of I.branch(x, I.has(x, u, T.K(k)))) out.push(...(b.b ? call(I, b.st, c, 'is', [I.getProp(b.st, u, T.K(k))], node) : val(b.st, T.false_)));
      return out;
    })), node),
    validate: (s, u, ctx, node) => record(I, s, u, (x) => validateProps(I, x, ps, u, ctx, node, partial).map((o) => {
      if (o.ex) return { st: o.st, ex: o.ex };
      if (o.fail) return { st: o.st, v: left(I, o.st, T.op('errs', T.sym('props'), u)) };
      const ents = [{ t: 'spread', v: u }];
      for (const [k, d] of o.dec) {
        if (!partial) { ents.push(kv(k, d.v)); continue; }
        // set when changed; otherwise the input's own property stays
        const same = I.eq(d.v, d.raw, o.st);
        const g = guard(I, o.st, I.not(same));
        if (g) ents.push(kv(k, d.v, g));
      }
      return { st: o.st, v: right(I, o.st, mayAlias(I, o.st, ents, u)) };
    }), node),
    encode: (s, a, node) => {
      let cur = [{ st: s, ents: [{ t: 'spread', v: a }] }];
      for (const [k, c] of ps) {
        const next = [];
        for (const x of cur) {
          if (x.ex) { next.push(x); continue; }
          const ak = I.getProp(x.st, a, T.K(k));
          const bs = partial ? I.branch(x.st, I.eq(ak, T.undef, x.st)) : [{ st: x.st, b: false }];
          for (const b of bs) {
            if (b.b) { next.push({ st: b.st, ents: x.ents }); continue; }
            for (const o of call(I, b.st, c, 'encode', [ak], node)) next.push(o.ex ? o : { st: o.st, ents: x.ents.concat([kv(k, o.v)]) });
          }
        }
        cur = I.cap(next);
      }
      return cur.map((o) => (o.ex ? o : { st: o.st, v: mayAlias(I, o.st, o.ents, a) }));
    },
  }, { props });
}
function mergeAll(I, st, base, us) {
  if (us.every((u) => u === base)) return base;
  const ents = [];
  us.forEach((u, i) => {
    if (u === base) { if (!i) ents.push({ t: 'spread', v: u }); return; }
    const es = u.k === 'obj' ? I.entsOf(st, u) : undefined;
    if (!es || !es.length || es[0].t !== 'spread' || es[0].v !== base) { if (i === 0 && es) { ents.push({ t: 'spread', v: u }); return; } if (!es || es.some((e) => e.t !== 'kv')) throw new Abort('intersection of values of unknown origin ' + (process.env.VERIF_DEBUG ? JSON.stringify({ i, u: T.show(u), base: T.show(base), es: es && es.map((e) => e.t + ':' + T.show(e.key || e.v || e.src || T.undef) + ':' + T.showConds(e.g || [])) }) : '')); }
    es.forEach((e, j) => {
      if (j === 0 && e.t === 'spread' && e.v === base) { if (!i) ents.push(e); return; }
      if (e.t === 'kv') {
        // a later member only overrides what it changed
        if (i && ents.some((x) => x.t === 'kv' && x.key === e.key)) { const g = guard(I, st, I.not(I.eq(e.v, I.getProp(st, base, e.key), st))); if (g) ents.push({ t: 'kv', key: e.key, v: e.v, g: (e.g || []).concat(g) }); } else ents.push(e);
        return;
      }
      // removed from this member: the other members still have it, unless they are this very value
      if (e.t === 'each' && e.ents.every((x) => x.t === 'del') && !us.every((x) => x === u)) return;
      if (e.t === 'del') { if (us.every((x) => x === u)) ents.push(e); return; }
      throw new Abort('intersection of values of unknown origin ' + (process.env.VERIF_DEBUG ? JSON.stringify({ i, u: T.show(u), base: T.show(base), es: es && es.map((e) => e.t + ':' + T.show(e.key || e.v || e.src || T.undef) + ':' + T.showConds(e.g || [])) }) : ''));
    });
  });
  return mayAlias(I, st, ents, base);
}
// the values of the members may depend on conditions: one merge per combination
function mergeCases(I, st, base, us, f) {
  let cur = [{ st, us: [] }];
  for (const u of us) { const next = []; for (const x of cur) for (const l of I.leaves(x.st, u)) next.push({ st: l.st, us: x.us.concat([l.v]) }); cur = I.cap(next); }
  return cur.map((x) => ({ st: x.st, v: f(x.st, mergeAll(I, x.st, base, x.us)) }));
}
function intersectionC(I, st, types, name) {
  const segs = I.segsOf(st, types);
  if (!segs.every((x) => x.t === 'one' && !(x.g && x.g.length))) throw new Abort('intersection of an unknown list of codecs');
  const cs = segs.map((x) => x.v);
  return codec(I, st, {
    tag: 'IntersectionType', name,
    is: (s, u, node) => {
      let cur = [{ st: s, v: T.true_ }];
      for (const c of cs) cur = I.bind(cur, (x, v) => (v === T.false_ ? val(x, v) : call(I, x, c, 'is', [u], node)));
      return cur;
    },
    validate: (s, u, ctx, node) => {
      let cur = [{ st: s, us: [], fail: false }];
      for (const c of cs) {
        const next = [];
        for (const x of cur) for (const o of x.ex || x.fail ? [x] : call(I, x.st, c, 'validate', [u, ctx], node)) {
          if (o.ex || o.fail) { next.push(o); continue; }
          for (const e of M.splitE(I, o.st, o.v)) next.push(e.left ? { st: e.st, us: x.us, fail: true } : { st: e.st, us: x.us.concat([I.getProp(e.st, e.e, 'right')]), fail: x.fail });
        }
        cur = I.cap(next);
      }
      return [].concat(...cur.map((o) => (o.ex ? [o] : o.fail ? val(o.st, left(I, o.st, T.op('errs', T.sym('intersection'), u))) : mergeCases(I, o.st, u, o.us, (x, v) => right(I, x, v)))));
    },
    encode: (s, a, node) => {
      let cur = [{ st: s, us: [] }];
      for (const c of cs) { const next = []; for (const x of cur) for (const o of x.ex ? [x] : call(I, x.st, c, 'encode', [a], node)) next.push(o.ex ? o : { st: o.st, us: x.us.concat([o.v]) }); cur = I.cap(next); }
      return [].concat(...cur.map((o) => (o.ex ? [o] : mergeCases(I, o.st, a, o.us, (x, v) => v))));
    },
  }, { types });
}
function tableOf(I, st, c) {
  const info = c.k === 'obj' ? I.objs.get(c.id) : undefined;
  const tag = info && info.codec ? T.K(info.codec) : I.getProp(st, c, T.K('_tag'));
  const t = tag.k === 'const' ? tag.v : undefined;
  if (t === 'InterfaceType' || t === 'PartialType' || t === 'StrictType') return [...propsOf(I, st, I.getProp(st, c, T.K('props'))).keys()];
  if (t === 'IntersectionType') { const segs = I.segsOf(st, I.getProp(st, c, T.K('types'))); return [...new Set([].concat(...segs.map((x) => tableOf(I, st, x.v))))]; }
  throw new Abort('exact of a codec of unknown properties');
}
function strip(I, s, o, keys) {
  let cur = [{ st: s, ents: [] }];
  for (const k of keys) {
    const next = [];
    for (const x of cur) for (const b of I.branch(x.st, I.has(x.st, o, T.K(k)))) next.push({ st: b.st, ents: b.b ? x.ents.concat([kv(k, I.getProp(b.st, o, T.K(k)))]) : x.ents });
    cur = I.cap(next);
  }
  return cur.map((x) => ({ st: x.st, v: mayAlias(I, x.st, x.ents, o) }));
}
function exactC(I, st, c, name) {
  const keys = tableOf(I, st, c);
  return codec(I, st, {
    tag: 'ExactType', name,
    is: (s, u, n) => call(I, s, c, 'is', [u], n),
    validate: (s, u, ctx, n) => record(I, s, u, (x) => {
      const out = [];
      for (const o of call(I, x, c, 'validate', [u, ctx], n)) {
        if (o.ex) { out.push(o); continue; }
        for (const e of M.splitE(I, o.st, o.v)) {
          if (e.left) { out.push({ st: e.st, v: e.e }); continue; }
          for (const r of strip(I, e.st, I.getProp(e.st, e.e, 'right'), keys)) out.push({ st: r.st, v: right(I, r.st, r.v) });
        }
      }
      return out;
    }, n),
    encode: (s, a, n) => I.bind(strip(I, s, a, keys), (x, v) => call(I, x, c, 'encode', [v], n)),
  }, { type: c });
}
function unionC(I, st, types, name) {
  const segs = I.segsOf(st, types);
  if (!segs.every((x) => x.t === 'one' && !(x.g && x.g.length))) throw new Abort('union of an unknown list of codecs');
  const cs = segs.map((x) => x.v);
  return codec(I, st, {
    tag: 'UnionType', name,
    is: (s, u, node) => {
      let cur = [{ st: s, v: T.false_ }];
      for (const c of cs) { const next = []; for (const x of cur) for (const b of x.ex ? [x] : I.branch(x.st, x.v)) next.push(...(b.ex ? [b] : b.b ? val(b.st, T.true_) : call(I, b.st, c, 'is', [u], node))); cur = next; }
      return cur;
    },
    validate: (s, u, ctx, node) => {
      let cur = [{ st: s }]; const done = [];
      for (const c of cs) {
        const next = [];
        for (const x of cur) for (const o of call(I, x.st, c, 'validate', [u, ctx], node)) { if (o.ex) { done.push(o); continue; } for (const e of M.splitE(I, o.st, o.v)) (e.left ? next : done).push({ st: e.st, v: e.e }); }
        cur = next;
      }
      return done.concat(cur.map((x) => ({ st: x.st, v: left(I, x.st, T.op('errs', T.sym('union'), u)) })));
    },
    encode: (s, a, node) => {
      let cur = [{ st: s }]; const done = [];
      for (const c of cs) { const next = []; for (const x of cur) for (const o of call(I, x.st, c, 'is', [a], node)) for (const b of o.ex ? [o] : I.branch(o.st, o.v)) { if (b.ex) done.push(b); else if (b.b) done.push(...call(I, b.st, c, 'encode', [a], node)); else next.push({ st: b.st }); } cur = next; }
      return done.concat(cur.map((x) => ({ st: x.st, ex: T.op('exc', T.op('encunion', a)) })));
    },
  }, { types });
}
// a list of codecs whose members depend on conditions: one list per case
function splitList(I, st, list) {
  const segs = I.segsOf(st, list);
  if (!segs.every((x) => x.t === 'one' && !(x.g && x.g.length)) || !segs.some((x) => x.v.k === 'cond')) return [{ st, v: list }];
  let cur = [{ st, vs: [] }];
  for (const x of segs) { const next = []; for (const c of cur) for (const l of I.leaves(c.st, x.v)) next.push({ st: l.st, vs: c.vs.concat([l.v]) }); cur = I.cap(next); }
  return cur.map((c) => ({ st: c.st, v: I.alloc('arr', c.vs.map((v) => ({ t: 'one', v })), c.st) }));
}
// hooks for Interp: calls of and constructions from io-ts
function ext(I, st, fn, self, args, node) {
  if (fn.m !== 'io-ts') return undefined;
  const a = args.map((x) => x.spread ? undefined : x);
  switch (fn.p) {
    case 'type': case 'interface': return forkTable(I, st, a[0]).map((s) => ({ st: s, v: typeC(I, s, a[0], a[1], false) }));
    case 'partial': return forkTable(I, st, a[0]).map((s) => ({ st: s, v: typeC(I, s, a[0], a[1], true) }));
    case 'strict': return forkTable(I, st, a[0]).map((s) => ({ st: s, v: exactC(I, s, typeC(I, s, a[0], a[1], false), a[1]) }));
    case 'exact': return I.leaves(st, a[0]).map((l) => ({ st: l.st, v: exactC(I, l.st, l.v, a[1]) }));
    case 'intersection': return splitList(I, st, a[0]).map((l) => ({ st: l.st, v: intersectionC(I, l.st, l.v, a[1]) }));
    case 'union': return val(st, unionC(I, st, a[0], a[1]));
    case 'success': return val(st, right(I, st, a[0]));
    case 'failure': case 'failures': return val(st, left(I, st, T.op('errs', T.K('failure'), a[0])));
    case 'identity': return val(st, a[0]);
    case 'appendContext': return val(st, T.sym('context'));
    case 'UnknownRecord.is': return val(st, a[0].k === 'obj' ? T.true_ : DICT(a[0]));
    case 'UnknownRecord.validate': case 'UnknownRecord.decode': return record(I, st, a[0], (s) => val(s, right(I, s, a[0])), node);
    default:
  }
  const m = /^(undefined|null|void|nullType|voidType)\.(is|validate|decode|encode)$/.exec(fn.p);
  if (m) return call(I, st, T.ext('io-ts', m[1]), m[2], a, node);
  return undefined;
}
const CTORS = { Type: '', PartialType: 'PartialType', IntersectionType: 'IntersectionType', InterfaceType: 'InterfaceType', ExactType: 'ExactType', UnionType: 'UnionType', RefinementType: 'RefinementType' };
function construct(I, st, c, args, node) {
  if (c.k !== 'ext' || c.m !== 'io-ts' || !(c.p in CTORS)) return undefined;
  const [name, is, validate, encode, x] = args;
  const self = I.alloc('obj', [], st, { codec: CTORS[c.p] || 'Type' });
  const dec = I.native('decode', (s, _s, a, n) => I.callValue(validate, self, [a[0] || T.undef, T.sym('context')], s, n));
  const ents = [kv('name', name), kv('is', is), kv('validate', validate), kv('encode', encode), kv('decode', dec)];
  if (CTORS[c.p]) ents.push(kv('_tag', T.K(CTORS[c.p])));
  const extra = { PartialType: 'props', InterfaceType: 'props', IntersectionType: 'types', UnionType: 'types', ExactType: 'type', RefinementType: 'type' }[c.p];
  if (extra) ents.push(kv(extra, x || T.undef));
  st.ents.set(self, ents);
  return val(st, self);
}
// a symbolic leaf codec. acc: {is: does it accept undefined as a value, dec: 'Right'|'Left'|value for absent input}
function leaf(I, st, name, acc) {
  const c = T.sym('codec:' + name);
  const self = I.alloc('obj', [], st, { codec: 'leaf', leaf: c });
  const isU = (s, u) => I.eq(u, T.undef, s);
  const nat = (n, f) => I.native(`${name}.${n}`, (s, _self, args, node) => f(s, args[0] || T.undef, node));
  const validate = (s, u) => {
    const outs = [];
    for (const b of I.branch(s, isU(s, u))) {
      if (b.b) {
        if (acc.dec === 'Left') outs.push({ st: b.st, v: left(I, b.st, T.op('errs', c, T.undef)) });
        else outs.push({ st: b.st, v: right(I, b.st, acc.dec === 'default' ? T.sym('default:' + name) : T.undef) });
        continue;
      }
      for (const r of I.branch(b.st, T.op('valid', c, u))) outs.push({ st: r.st, v: r.b ? right(I, r.st, T.op('dec', c, u)) : left(I, r.st, T.op('errs', c, u)) });
    }
    return outs;
  };
  st.ents.set(self, [{ t: 'spread', v: c },
    kv('is', nat('is', (s, u) => { const outs = []; for (const b of I.branch(s, isU(s, u))) outs.push({ st: b.st, v: b.b ? T.K(!!acc.is) : T.op('is', c, u) }); return outs; })),
    kv('validate', nat('validate', validate)), kv('decode', nat('decode', validate)),
    kv('encode', nat('encode', (s, a) => val(s, T.op('enc', c, a)))),
  ]);
  return { self, c, acc };
}
module.exports = { ext, construct, leaf, kv, DICT, call, right, left };
