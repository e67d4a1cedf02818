'use strict';
// Abstract transfer functions of the standard library and of the fp-ts / io-ts functions the
// packages use. Everything not listed is an opaque effect (see Interp.opaqueCall).
const T = require('./terms');
const { ts } = require('./program');

let nextAcc = 1;
const callable = (x) => !!x && (x.k === 'fn' || x.k === 'nat' || x.k === 'ext' || (x.k === 'op' && x.op === 'bind'));
const one = (v) => ({ t: 'one', v });
const val = (st, v) => [{ st, v }];

// ---- helpers on outcomes of iterate(): convert statement outcomes to value outcomes
function finish(outs, onReturn, onEnd) {
  return outs.map((r) => (r.c === 'throw' ? { st: r.st, ex: r.v } : r.c === 'return' ? { st: r.st, v: onReturn(r.st, r.v) } : { st: r.st, v: onEnd(r.st) }));
}
const asStmt = (outs) => outs.map((o) => (o.ex ? { st: o.st, c: 'throw', v: o.ex } : o));
const push = (I, st, arr, seg) => st.ents.set(arr, (I.entsOf(st, arr) || []).concat([seg]));

// ---- Either
function mkEither(I, st, tag, v) { return I.alloc('obj', [{ t: 'kv', key: T.K('_tag'), v: T.K(tag) }, { t: 'kv', key: T.K(tag === 'Left' ? 'left' : 'right'), v }], st, { either: true }); }
const isLeft = (I, st, e) => I.eq(I.getProp(st, e, '_tag'), T.K('Left'), st);
// split on the tag: [{st, left: bool, e}]
function splitE(I, st, e) {
  const out = [];
  for (const { st: s, v } of I.leaves(st, e)) for (const b of I.branch(s, isLeft(I, s, v))) out.push({ st: b.st, left: b.b, e: v });
  return out;
}
function overE(I, st, e, onL, onR) {
  const out = [];
  for (const x of splitE(I, st, e)) out.push(...(x.left ? onL(x.st, I.getProp(x.st, x.e, 'left'), x.e) : onR(x.st, I.getProp(x.st, x.e, 'right'), x.e)));
  return I.merge(out);
}
const wrap = (I, outs, tag) => I.bind(outs, (s, v) => val(s, mkEither(I, s, tag, v)));
const either = {
  left: (I, st, a) => val(st, mkEither(I, st, 'Left', a[0] || T.undef)),
  right: (I, st, a) => val(st, mkEither(I, st, 'Right', a[0] || T.undef)),
  of: (I, st, a) => val(st, mkEither(I, st, 'Right', a[0] || T.undef)),
  isLeft: (I, st, a) => val(st, isLeft(I, st, a[0])),
  isRight: (I, st, a) => val(st, I.not(isLeft(I, st, a[0]))),
};
// data-last operators: name -> (I, st, either, params, node)
const eitherOps = {
  map: (I, st, e, [f], n) => overE(I, st, e, (s, l, x) => val(s, x), (s, r) => wrap(I, I.callValue(f, undefined, [r], s, n), 'Right')),
  mapLeft: (I, st, e, [f], n) => overE(I, st, e, (s, l) => wrap(I, I.callValue(f, undefined, [l], s, n), 'Left'), (s, r, x) => val(s, x)),
  bimap: (I, st, e, [f, g], n) => overE(I, st, e, (s, l) => wrap(I, I.callValue(f, undefined, [l], s, n), 'Left'), (s, r) => wrap(I, I.callValue(g, undefined, [r], s, n), 'Right')),
  chain: (I, st, e, [f], n) => overE(I, st, e, (s, l, x) => val(s, x), (s, r) => I.callValue(f, undefined, [r], s, n)),
  match: (I, st, e, [f, g], n) => overE(I, st, e, (s, l) => I.callValue(f, undefined, [l], s, n), (s, r) => I.callValue(g, undefined, [r], s, n)),
  getOrElse: (I, st, e, [f], n) => overE(I, st, e, (s, l) => I.callValue(f, undefined, [l], s, n), (s, r) => val(s, r)),
  orElse: (I, st, e, [f], n) => overE(I, st, e, (s, l) => I.callValue(f, undefined, [l], s, n), (s, r, x) => val(s, x)),
  chainFirst: (I, st, e, [f], n) => overE(I, st, e, (s, l, x) => val(s, x), (s, r, x) => I.bind(I.callValue(f, undefined, [r], s, n), (s2, y) => overE(I, s2, y, (s3, l, z) => val(s3, z), (s3) => val(s3, x)))),
  swap: (I, st, e) => overE(I, st, e, (s, l) => val(s, mkEither(I, s, 'Right', l)), (s, r) => val(s, mkEither(I, s, 'Left', r))),
  filterOrElse: (I, st, e, [p, f], n) => overE(I, st, e, (s, l, x) => val(s, x), (s, r, x) => I.bind(I.callValue(p, undefined, [r], s, n), (s2, c) => I.bind(I.branchOn(s2, c), (s3, b) => (b === T.true_ ? val(s3, x) : wrap(I, I.callValue(f, undefined, [r], s3, n), 'Left'))))),
};
const alias = { mapW: 'map', chainW: 'chain', flatMap: 'chain', flatMapW: 'chain', matchW: 'match', fold: 'match', foldW: 'match', matchE: 'match', getOrElseW: 'getOrElse', orElseW: 'orElse', mapError: 'mapLeft', chainFirstW: 'chainFirst', tap: 'chainFirst', mapBoth: 'bimap', filterOrElseW: 'filterOrElse' };
const arity = { map: 1, mapLeft: 1, bimap: 2, chain: 1, match: 2, getOrElse: 1, orElse: 1, chainFirst: 1, swap: 0, filterOrElse: 2 };

function callEither(I, st, name, args, node) {
  if (either[name]) return either[name](I, st, args);
  const op = alias[name] || name;
  if (eitherOps[op] && op !== 'swap') {
    if (args.length === arity[op] + 1) return eitherOps[op](I, st, args[0], args.slice(1), node);
    return val(st, I.native('E.' + op, (s, self, a, n) => eitherOps[op](I, s, a[0], args, n || node)));
  }
  if (op === 'swap') return eitherOps.swap(I, st, args[0]);
  if (name === 'tryCatch' || name === 'tryCatchK') {
    if (name === 'tryCatchK') return undefined;
    st.tryD++;
    const outs = I.callValue(args[0], undefined, [], st, node);
    const r = [];
    for (const o of outs) {
      o.st.tryD--;
      if (!o.ex) r.push({ st: o.st, v: mkEither(I, o.st, 'Right', o.v) });
      else r.push(...wrap(I, I.callValue(args[1], undefined, [o.ex], o.st, node), 'Left'));
    }
    return I.merge(r);
  }
  if (name === 'fromNullable') {
    const f = (s, x, e, n) => I.bind(I.branchOn(s, I.nullish(x, s)), (s2, b) => val(s2, b === T.true_ ? mkEither(I, s2, 'Left', e) : mkEither(I, s2, 'Right', T.simp(x, s2.conds))));
    if (args.length === 2) return f(st, args[0], args[1]);
    return val(st, I.native('E.fromNullable', (s, self, a) => f(s, a[0], args[0])));
  }
  if (name === 'fromPredicate' && args.length === 2) return val(st, I.native('E.fromPredicate', (s, self, a, n) => I.bind(I.callValue(args[0], undefined, [a[0]], s, n), (s2, c) => I.bind(I.branchOn(s2, c), (s3, b) => (b === T.true_ ? val(s3, mkEither(I, s3, 'Right', a[0])) : wrap(I, I.callValue(args[1], undefined, [a[0]], s3, n), 'Left'))))));
  if (name === 'sequenceArray') return traverse(I, st, args[0], undefined, node);
  if (name === 'traverseArray') return val(st, I.native('E.traverseArray', (s, self, a, n) => traverse(I, s, a[0], args[0], n || node)));
  return undefined;
}
function traverse(I, st, arr, f, node) {
  const acc = I.alloc('arr', [], st);
  const body = (s, item) => asStmt(f ? I.callValue(f, undefined, [item], s, node) : val(s, item)).flatMap((o) => {
    if (o.c) return [o];
    return splitE(I, o.st, o.v).map((x) => { if (x.left) return { st: x.st, c: 'return', v: x.e }; push(I, x.st, acc, one(I.getProp(x.st, x.e, 'right'))); return { st: x.st }; });
  });
  return I.merge(finish(I.iterate(st, I.segsOf(st, arr), body, {}), (s, v) => v, (s) => mkEither(I, s, 'Right', acc)));
}

// ---- arrays
function arrayLike(I, st, b, name, args, node) {
  const f = args[0];
  const segs = () => I.segsOf(st, b);
  const call = (s, item, idx) => asStmt(I.callValue(f, undefined, [item, idx, b], s, node));
  switch (name) {
    case 'map': {
      const acc = I.alloc('arr', [], st);
      return I.merge(finish(I.iterate(st, segs(), (s, item, idx) => call(s, item, idx).map((o) => { if (!o.c) push(I, o.st, acc, one(o.v)); return o.c ? o : { st: o.st }; }), {}), undefined, () => acc));
    }
    case 'filter': {
      const acc = I.alloc('arr', [], st);
      return I.merge(finish(I.iterate(st, segs(), (s, item, idx) => call(s, item, idx).flatMap((o) => (o.c ? [o] : I.branch(o.st, o.v).map((x) => { if (x.b) push(I, x.st, acc, one(item)); return { st: x.st }; }))), {}), undefined, () => acc));
    }
    case 'forEach': return I.merge(finish(I.iterate(st, segs(), (s, item, idx) => call(s, item, idx).map((o) => (o.c ? o : { st: o.st })), {}), undefined, () => T.undef));
    case 'flatMap': {
      const acc = I.alloc('arr', [], st);
      return I.merge(finish(I.iterate(st, segs(), (s, item, idx) => call(s, item, idx).map((o) => {
        if (o.c) return o;
        const v = T.simp(o.v, o.st.conds);
        const sg = isArrVal(I, v) ? I.segsOf(o.st, v) : v.k === 'const' ? [one(v)] : I.segsOf(o.st, v);
        for (const q of sg) push(I, o.st, acc, q);
        return { st: o.st };
      }), {}), undefined, () => acc));
    }
    case 'reduce': case 'reduceRight': {
      if (args.length < 2) return undefined;
      const cell = `acc:${nextAcc++}`;
      st.vars.set(cell, args[1]);
      return I.merge(finish(I.iterate(st, segs(), (s, item, idx) => asStmt(I.callValue(f, undefined, [s.vars.get(cell), item, idx, b], s, node)).map((o) => { if (!o.c) { o.st.vars.set(cell, o.v); return { st: o.st }; } return o; }), {}), undefined, (s) => s.vars.get(cell)));
    }
    case 'some': case 'every': case 'find': case 'findIndex': {
      const stop = name !== 'every';
      const outs = I.iterate(st, segs(), (s, item, idx) => call(s, item, idx).flatMap((o) => (o.c ? [o] : I.branch(o.st, o.v).map((x) => (x.b === stop ? { st: x.st, c: 'return', v: name === 'find' ? item : name === 'findIndex' ? idx : T.K(stop) } : { st: x.st })))), {});
      return I.merge(finish(outs, (s, v) => v, () => (name === 'find' ? T.undef : name === 'findIndex' ? T.K(-1) : T.K(!stop))));
    }
    default: return undefined;
  }
}
const isArrVal = (I, v) => I.kind(v) === 'arr' || (v.k === 'cond' && isArrVal(I, v.a) && isArrVal(I, v.b));
const HOF = ['map', 'filter', 'forEach', 'flatMap', 'reduce', 'reduceRight', 'some', 'every', 'find', 'findIndex'];
const plain = (segs) => segs.every((s) => s.t === 'one' && (!s.g || !s.g.length));
function heapArray(I, st, b, name, args, node) {
  const segs = I.entsOf(st, b);
  if (HOF.includes(name) && args.length) return arrayLike(I, st, b, name, args, node);
  switch (name) {
    case 'push': for (const a of args) { if (a.spread) for (const q of I.segsOf(st, a.spread)) push(I, st, b, q); else push(I, st, b, one(a)); } if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K('push'), v: args[0] && !args[0].spread ? args[0] : T.undef, node }); return val(st, I.getProp(st, b, 'length'));
    case 'unshift': { const front = args.flatMap((a) => (a.spread ? I.segsOf(st, a.spread) : [one(a)])); st.ents.set(b, front.concat(segs)); if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K('unshift'), v: T.undef, node }); return val(st, I.getProp(st, b, 'length')); }
    case 'pop': { if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K('pop'), v: T.undef, node }); if (plain(segs)) { const l = segs[segs.length - 1]; st.ents.set(b, segs.slice(0, -1)); return val(st, l ? l.v : T.undef); } st.ents.set(b, segs.concat([{ t: 'unknown' }])); return val(st, T.op('pop', b)); }
    case 'shift': { if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K('shift'), v: T.undef, node }); if (segs.length && segs[0].t === 'one' && !(segs[0].g && segs[0].g.length)) { st.ents.set(b, segs.slice(1)); return val(st, segs[0].v); } if (!segs.length) return val(st, T.undef); st.ents.set(b, segs.concat([{ t: 'unknown' }])); return val(st, T.op('shift', b)); }
    case 'concat': { const o = I.alloc('arr', segs.concat(args.flatMap((a) => (isArrVal(I, a) || !['const', 'obj', 'fn'].includes(a.k) ? I.segsOf(st, a) : [one(a)]))), st); return val(st, o); }
    case 'slice': {
      if (!args.length || args[0] === T.K(0) && args.length === 1) return val(st, I.alloc('arr', segs, st));
      if (args[0].k === 'const' && args.length === 1 && args[0].v > 0 && plain(segs.slice(0, args[0].v))) return val(st, I.alloc('arr', segs.slice(args[0].v), st));
      if (plain(segs) && args.every((a) => a.k === 'const')) return val(st, I.alloc('arr', segs.slice(...args.map((a) => a.v)), st));
      return val(st, T.op('slice', b, ...args));
    }
    case 'reverse': case 'sort': {
      if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K(name), v: T.undef, node });
      if (I.opts.shapes && name === 'sort' && plain(segs)) {
        const sorted = [];
        for (const q of segs) {
          let i = sorted.length;
          for (; i > 0; i--) {
            let c;
            if (args.length) { const r = I.callValue(args[0], undefined, [sorted[i - 1].v, q.v], st, node); c = r.length === 1 && !r[0].ex && T.simp(r[0].v, st.conds).k === 'const' ? Number(T.simp(r[0].v, st.conds).v) : undefined; } else c = sorted[i - 1].v.k === 'const' && q.v.k === 'const' ? (String(sorted[i - 1].v.v) < String(q.v.v) ? -1 : 1) : T.isLit(sorted[i - 1].v) && T.isLit(q.v) ? (sorted[i - 1].v.n < q.v.n ? -1 : 1) : undefined;
            if (c === undefined) { st.ents.set(b, segs.concat([{ t: 'unknown' }])); return val(st, b); }
            if (c <= 0) break;
          }
          sorted.splice(i, 0, q);
        }
        st.ents.set(b, sorted);
      }
      if (name === 'reverse' && plain(segs)) st.ents.set(b, segs.slice().reverse());
      return val(st, b);
    }
    case 'includes': case 'indexOf': {
      if (name === 'indexOf' && !segs.every((s) => s.t === 'one' && !(s.g && s.g.length) && (I.opts.shapes || s.v.k === 'const'))) return val(st, T.op('indexOf', b, args[0]));
      if (name === 'indexOf') { let r = T.K(-1); segs.map((s, i) => [s, i]).reverse().forEach(([s, i]) => { const e = I.eq(s.v, args[0], st); r = e === T.true_ ? T.K(i) : e === T.false_ ? r : T.cond([I.asLit(e)], T.K(i), r); }); return val(st, r); }
      if (plain(segs)) { let r = T.false_; for (const s of segs.slice().reverse()) { const e = T.simp(I.eq(s.v, args[0], st), st.conds); r = e === T.true_ ? T.true_ : e === T.false_ ? r : e.k === 'cond' ? T.op('in', args[0], b) : T.cond([I.asLit(e)], T.true_, r); if (r === T.true_) break; } return val(st, r); }
      return val(st, T.op('in', args[0], b));
    }
    case 'join': {
      if (plain(segs) && segs.length && segs.every((s) => !(s.v.k === 'const' && (s.v.v === null || s.v.v === undefined)))) { if (!args.length) args = [T.K(',')]; const parts = []; segs.forEach((s, i) => { if (i) parts.push(args[0]); parts.push(s.v); }); return val(st, T.concat(parts)); }
      if (!segs.length) return val(st, T.K(''));
      return val(st, T.op('m:join', b, ...args));
    }
    case 'keys': return val(st, T.op('m:keys', b));
    case 'entries': { const o = I.alloc('arr', segs.map((s, i) => (s.t === 'one' ? { t: 'one', g: s.g, v: I.alloc('arr', [one(T.K(i)), one(s.v)], st) } : s)), st); return plain(segs) ? val(st, o) : val(st, T.op('m:entries', b)); }
    case 'values': return val(st, b);
    case 'flat': return val(st, I.alloc('arr', segs.flatMap((s) => (s.t === 'one' && isArrVal(I, s.v) ? I.segsOf(st, s.v) : [s])), st));
    case 'at': return val(st, plain(segs) && args[0].k === 'const' ? ((segs.map((s) => s.v)).at(args[0].v) || T.undef) : T.op('m:at', b, args[0]));
    case 'splice': if (plain(segs) && args.every((a) => !a.spread) && args.slice(0, 2).every((a) => T.simp(a, st.conds).k === 'const')) {
      if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K(name), v: T.undef, node });
      const rest = segs.slice(); const gone = rest.splice(...args.slice(0, 2).map((a) => T.simp(a, st.conds).v), ...args.slice(2).map(one));
      st.ents.set(b, rest);
      return val(st, I.alloc('arr', gone, st));
    } // falls through
    case 'fill': case 'copyWithin': if (I.watch && I.watch(b)) st.event({ t: 'set', base: b, key: T.K(name), v: T.undef, node }); st.ents.set(b, segs.concat([{ t: 'unknown' }])); return val(st, T.op('m:' + name, b, ...args.filter((a) => !a.spread)));
    default: return undefined;
  }
}
// adds to a set, once
function addOnce(I, st, b, x) {
  let outs = [{ st, in: false }];
  for (const sg of I.entsOf(st, b)) outs = outs.flatMap((o) => (o.in ? [o] : I.branch(o.st, I.eq(sg.v, x, o.st)).map((c) => ({ st: c.st, in: c.b }))));
  for (const o of outs) if (!o.in) push(I, o.st, b, one(x));
  return outs.map((o) => ({ st: o.st, v: b }));
}
// ---- JSON: a structural term 'json'(...) of a value of known shape
function jsonTerm(I, st, v, depth) { // [{st, t}]; t undefined: not serialised
  if (depth > 40) return undefined;
  const out = [];
  for (const l of I.settled(st, v)) {
    const x = l.v;
    if (x.k === 'const') { out.push({ st: l.st, t: x.v === undefined ? undefined : T.op('jc', x) }); continue; }
    if (x.k === 'fn' || x.k === 'nat' || x.k === 'cls') { out.push({ st: l.st, t: undefined }); continue; }
    if (x.k !== 'obj') { out.push({ st: l.st, t: T.op('jv', x) }); continue; }
    const kind = I.kind(x);
    let outs = [{ st: l.st, parts: [] }];
    if (kind === 'arr') {
      const segs = I.entsOf(l.st, x);
      if (!segs.every((q) => q.t === 'one')) return undefined;
      for (const q of segs) {
        if (q.g && q.g.length && T.knownConj(q.g, l.st.conds) === false) continue;
        const next = [];
        for (const o of outs) { const r = jsonTerm(I, o.st, q.v, depth + 1); if (!r) return undefined; for (const y of r) next.push({ st: y.st, parts: o.parts.concat([y.t || T.op('jc', T.K(null))]) }); }
        outs = next;
      }
      for (const o of outs) out.push({ st: o.st, t: T.op('jarr', ...o.parts) });
    } else if (kind === 'obj') {
      const f = I.fields(l.st, x);
      if (!f || f.split) return undefined;
      for (const { key, v: y } of f) {
        const next = [];
        for (const o of outs) { const r = jsonTerm(I, o.st, y, depth + 1); if (!r) return undefined; for (const z of r) next.push({ st: z.st, parts: z.t ? o.parts.concat([key, z.t]) : o.parts }); }
        outs = next;
      }
      for (const o of outs) out.push({ st: o.st, t: T.op('jobj', ...o.parts) });
    } else if (kind === 'set' || kind === 'map') out.push({ st: l.st, t: T.op('jobj') });
    else return undefined;
  }
  return out;
}
function fromJS(I, st, v) {
  if (v === null || typeof v !== 'object') return T.K(v);
  if (Array.isArray(v)) return I.alloc('arr', v.map((x) => one(fromJS(I, st, x))), st);
  return I.alloc('obj', Object.entries(v).map(([k, x]) => ({ t: 'kv', key: T.K(k), v: fromJS(I, st, x) })), st);
}
function jsonBack(I, st, t) {
  if (t.op === 'jc' || t.op === 'jv') return t.a[0];
  if (t.op === 'jarr') return I.alloc('arr', t.a.map((x) => one(jsonBack(I, st, x))), st);
  const ents = [];
  for (let i = 0; i < t.a.length; i += 2) ents.push({ t: 'kv', key: t.a[i], v: jsonBack(I, st, t.a[i + 1]) });
  return I.alloc('obj', ents, st);
}
// do two serialised values certainly differ?
function jsonDiffers(I, a, b, st) {
  if (a === b) return false;
  if (a.op !== b.op) return !(a.op === 'jv' && !T.isLit(a.a[0])) && !(b.op === 'jv' && !T.isLit(b.a[0]));
  if (a.op === 'jc') return true;
  if (a.op === 'jv') return I.eq(a.a[0], b.a[0], st) === T.false_;
  if (a.a.length !== b.a.length) return true;
  return a.a.some((x, i) => (x.k === 'op' && /^j(c|v|arr|obj)$/.test(x.op) && b.a[i].k === 'op' ? jsonDiffers(I, x, b.a[i], st) : x !== b.a[i]));
}
function heapSet(I, st, b, name, args, node) {
  const segs = I.entsOf(st, b);
  if (I.opts.shapes && name === 'add' && plain(segs)) return addOnce(I, st, b, args[0]);
  switch (name) {
    case 'add': push(I, st, b, one(args[0])); return val(st, b);
    case 'has': return heapArray(I, st, b, 'includes', args, node);
    case 'forEach': return arrayLike(I, st, b, name, args, node);
    case 'values': case 'keys': case 'entries': return val(st, I.alloc('arr', segs, st));
    case 'clear': st.ents.set(b, []); return val(st, T.undef);
    case 'delete': {
      const eqs = plain(segs) && segs.every((q) => !(q.g && q.g.length)) ? segs.map((q) => I.eq(q.v, args[0], st)) : [undefined];
      if (eqs.every((x) => x === T.true_ || x === T.false_)) { st.ents.set(b, segs.filter((_, i) => eqs[i] === T.false_)); return val(st, T.K(eqs.includes(T.true_))); }
      st.ents.set(b, segs.concat([{ t: 'unknown' }])); return val(st, T.op('m:' + name, b, ...args));
    }
    default: return undefined;
  }
}
function heapMap(I, st, b, name, args, node) {
  const ents = I.entsOf(st, b);
  switch (name) {
    case 'get': return val(st, I.lookup(st, b, ents, args[0], T.undef));
    case 'set': st.ents.set(b, ents.concat([{ t: 'kv', key: args[0], v: args[1] }])); return val(st, b);
    case 'has': return val(st, I.has(st, b, args[0]));
    case 'delete': st.ents.set(b, ents.concat([{ t: 'del', key: args[0] }])); return val(st, T.op('m:delete', b, args[0]));
    case 'clear': st.ents.set(b, []); return val(st, T.undef);
    case 'forEach': return I.merge(finish(I.iterate(st, I.segsOf(st, b), (s, pair) => asStmt(I.callValue(args[0], undefined, [I.getProp(s, pair, T.K(1)), I.getProp(s, pair, T.K(0)), b], s, node)).map((o) => (o.c ? o : { st: o.st })), {}), undefined, () => T.undef));
    case 'entries': return val(st, I.alloc('arr', I.segsOf(st, b), st));
    case 'keys': case 'values': { const i = name === 'keys' ? 'key' : 'v'; const cv = (e) => (e.t === 'kv' ? { t: 'one', v: e[i], g: e.g } : e.t === 'each' ? { t: 'each', src: e.src, item: e.item, segs: e.ents.map(cv), g: e.g } : { t: 'unknown' }); return val(st, I.alloc('arr', ents.map(cv), st)); }
    default: return undefined;
  }
}

const STR = ['toLowerCase', 'toUpperCase', 'trim', 'trimStart', 'trimEnd', 'split', 'replace', 'replaceAll', 'startsWith', 'endsWith', 'slice', 'substring', 'substr', 'indexOf', 'lastIndexOf', 'padStart', 'padEnd', 'charCodeAt', 'codePointAt', 'charAt', 'match', 'matchAll', 'test', 'exec', 'localeCompare', 'toString', 'toLocaleLowerCase', 'repeat', 'includes', 'concat', 'join', 'normalize', 'toFixed', 'valueOf', 'search', 'isPrototypeOf'];
function constString(st, b, name, args) {
  if (!args.every((a) => !a.spread && (a.k === 'const' || a.k === 'regex'))) return undefined;
  const jsArgs = args.map((a) => (a.k === 'regex' ? new RegExp(a.src, a.flags) : a.v));
  try {
    const r = b.v[name](...jsArgs);
    if (r === null || ['string', 'number', 'boolean', 'undefined'].includes(typeof r)) return T.K(r);
    if (Array.isArray(r) && name === 'split') return r;
  } catch (e) { /* not constant */ }
  return undefined;
}
// string functions whose pieces are constants and percent-encoded values. The encoded values are
// stood for by private-use characters; the result is only taken when no match can touch their text
// (percent-encoding yields nothing but A-Z a-z 0-9 - _ . ! ~ * ' ( ) %).
const ENC = /^[A-Za-z0-9\-_.!~*'()%]*$/;
const isEnc = (t) => t.k === 'op' && t.op === 'encodeURIComponent';
function pieces(b) {
  const ps = b.k === 'op' && b.op === 'concat' ? b.a : [b];
  if (!ps.every((x) => x.k === 'const' || isEnc(x))) return undefined;
  const vals = [];
  let s = '';
  for (const x of ps) { if (x.k === 'const') s += String(x.v); else { s += String.fromCharCode(0xe000 + vals.length); vals.push(x); } }
  const back = (str) => { const out = []; let cur = ''; for (const c of str) { const i = c.charCodeAt(0) - 0xe000; if (i >= 0 && i < vals.length && c.length === 1) { if (cur) out.push(T.K(cur)); cur = ''; out.push(vals[i]); } else cur += c; } if (cur || !out.length) out.push(T.K(cur)); return out.length === 1 ? out[0] : T.concat(out); };
  return { s, vals, back };
}
// must a match of the pattern start with a character percent-encoding never yields, or is there nothing encoded?
const anchored = (pat, vals) => !vals.length || (pat.k === 'const' ? typeof pat.v === 'string' && pat.v !== '' && !ENC.test(pat.v) : pat.k === 'regex' && /^(\\[{}$/:?#[\]]|[{}:/#<>@])/.test(pat.src) && !/(^|[^\\])\|/.test(pat.src));
const touches = (m, vals) => vals.length > 0 && [...m].some((c) => { const i = c.charCodeAt(0) - 0xe000; return i >= 0 && i < vals.length; });
// strings made of constants and literal atoms: a literal atom stands for text no pattern of the program
// singles out (it has no white space, quotes or punctuation)
function litString(I, st, b, name, args) {
  const ps = b.k === 'op' && b.op === 'concat' ? b.a : [b];
  if (name === 'localeCompare' && args[0] && (T.isLit(args[0]) || args[0].k === 'const')) return val(st, T.K(T.show(b) < T.show(args[0]) ? -1 : T.show(b) === T.show(args[0]) ? 0 : 1));
  if (!args.every((a) => !a.spread && (a.k === 'const' || a.k === 'regex'))) return undefined;
  let s = ''; const vals = [];
  for (const x of ps) { if (x.k === 'const') s += String(x.v); else { s += String.fromCharCode(0xe000 + vals.length); vals.push(x); } }
  const back = (str) => { const out = []; let cur = ''; for (const c of str) { const i = c.charCodeAt(0) - 0xe000; if (i >= 0 && i < vals.length) { if (cur) out.push(T.K(cur)); cur = ''; out.push(vals[i]); } else cur += c; } if (cur || !out.length) out.push(T.K(cur)); return out.length === 1 ? out[0] : T.concat(out); };
  if (!['trim', 'trimStart', 'trimEnd', 'split', 'replace', 'replaceAll', 'includes', 'startsWith', 'endsWith', 'slice', 'substring', 'toString'].includes(name)) return undefined;
  if ((name === 'slice' || name === 'substring') && !(args.length === 1 && args[0].v >= 0 && args[0].v <= (ps[0].k === 'const' ? String(ps[0].v).length : 0))) return undefined;
  try {
    const r = s[name](...args.map((a) => (a.k === 'regex' ? new RegExp(a.src, a.flags) : a.v)));
    if (typeof r === 'boolean') return val(st, T.K(r));
    if (Array.isArray(r)) return val(st, I.alloc('arr', r.map((x) => one(back(x === undefined ? '' : x))), st));
    if (typeof r === 'string') return val(st, back(r));
  } catch (e) { /* not decided */ }
  return undefined;
}
function pieceString(I, st, b, name, args, node) {
  if (!args.length || args[0].spread || !(args[0].k === 'const' || args[0].k === 'regex')) return undefined;
  const q = pieces(b);
  if (q && (name === 'startsWith' || name === 'endsWith') && args.length === 1 && args[0].k === 'const') {
    const end = name === 'endsWith'; const pt = String(args[0].v);
    const own = end ? q.s.slice(-pt.length) : q.s.slice(0, pt.length);
    if (own.length === pt.length && !touches(own, q.vals)) return val(st, T.K(own === pt));
    return undefined;
  }
  if (!q || !anchored(args[0], q.vals)) return undefined;
  const pat = args[0].k === 'regex' ? new RegExp(args[0].src, args[0].flags) : args[0].v;
  if (typeof pat === 'undefined') return undefined;
  // a constant separator could also match across the end of a constant and an encoded value
  if (q.vals.length && typeof pat === 'string') for (let n = 1; n < pat.length; n++) { for (let i = 0; i < q.s.length; i++) { const c = q.s.charCodeAt(i) - 0xe000; if (c >= 0 && c < q.vals.length && q.s.slice(0, i).endsWith(pat.slice(0, n)) && ENC.test(pat[n])) return undefined; } }
  if (name === 'includes' && typeof pat === 'string') return val(st, T.K(q.s.includes(pat)));
  if (name === 'split' && args.length === 1) {
    const ms = typeof pat === 'string' ? [] : q.s.match(new RegExp(pat.source, pat.flags.includes('g') ? pat.flags : pat.flags + 'g')) || [];
    if (ms.some((m) => touches(m, q.vals))) return undefined;
    return val(st, I.alloc('arr', q.s.split(pat).map((x) => one(q.back(x === undefined ? '' : x))), st));
  }
  if ((name !== 'replace' && name !== 'replaceAll') || args.length !== 2 || args[1].spread) return undefined;
  // the matches, in order
  const ms = [];
  try { q.s[name](pat, (...m) => { ms.push(m); return ''; }); } catch (e) { return undefined; }
  if (ms.some((m) => touches(m[0], q.vals))) return undefined;
  const rep = args[1];
  const groupsEnd = (m) => { const k = typeof m[m.length - 1] === 'object' ? m.length - 2 : m.length - 1; return k - 1; };
  let outs = [{ st, parts: [], at: 0 }];
  for (const m of ms) {
    const pos = m[groupsEnd(m)];
    const next = [];
    for (const o of outs) {
      const head = o.parts.concat([q.back(q.s.slice(o.at, pos))]);
      const at = pos + m[0].length;
      if (o.ex) { next.push(o); continue; }
      if (callable(rep)) {
        for (const r of I.callValue(rep, undefined, m.slice(0, groupsEnd(m) + 1).map((x) => T.K(x)), o.st.clone(), node)) {
          if (r.ex) { next.push({ st: r.st, ex: r.ex, parts: head, at }); continue; }
          for (const l of I.leaves(r.st, r.v)) next.push({ st: l.st, parts: head.concat([l.v.k === 'const' ? T.K(String(l.v.v)) : l.v]), at });
        }
      } else if (rep.k === 'const' && !/\$/.test(String(rep.v))) next.push({ st: o.st, parts: head.concat([T.K(String(rep.v))]), at });
      else if (rep.k === 'const') return undefined;
      // an unknown replacement: its text is a pattern ($&, $1, ...) unless it is percent-encoded
      else if ((rep.k === 'op' && rep.op === 'concat' ? rep.a : [rep]).every((x) => isEnc(x) || (x.k === 'const' && !/\$/.test(String(x.v))))) next.push({ st: o.st, parts: head.concat([rep]), at });
      else next.push({ st: o.st, parts: head.concat([T.op('replacement', rep)]), at });
    }
    outs = next;
  }
  return outs.map((o) => (o.ex ? { st: o.st, ex: o.ex } : { st: o.st, v: T.concat(o.parts.concat([q.back(q.s.slice(o.at))])) }));
}
const opArgs = (args) => args.map((a) => (a.spread ? T.op('spread', a.spread) : a));

function fnMethods(I, st, b, name, args, node) {
  if (name === 'call') return I.callValue(b, args[0], args.slice(1), st, node);
  if (name === 'bind') return val(st, T.op('bind', b, args[0] || T.undef, ...args.slice(1)));
  if (name === 'apply') {
    const list = args[1] && I.kind(args[1]) === 'arr' && plain(I.entsOf(st, args[1])) ? I.entsOf(st, args[1]).map((s) => s.v) : args[1] && !T.isNullishC(args[1]) ? [{ spread: args[1] }] : [];
    return I.callValue(b, args[0], list, st, node);
  }
  return undefined;
}

// methods of values whose representation we know
// the bytes of a known text
const BYTES = ['slice', 'subarray', 'toString', 'indexOf', 'lastIndexOf', 'includes'];
function bytesMethod(st, b, name, args) {
  if (!BYTES.includes(name) || !args.every((a) => !a.spread && (a.k === 'const' || (a.k === 'op' && a.op === 'bytes')))) return undefined;
  const js = (x) => (x.k === 'op' ? Buffer.from(x.a[0].v, 'latin1') : x.v);
  let r; try { r = js(b)[name](...args.map(js)); } catch (e) { return undefined; }
  return val(st, Buffer.isBuffer(r) ? T.op('bytes', T.K(r.toString('latin1'))) : T.K(r));
}
function method(I, st, b, name, args, node) {
  const kind = I.kind(b);
  if (b.k === 'op' && b.op === 'bytes') { const r = bytesMethod(st, b, name, args); if (r) return r; }
  if (I.opts.shapes && T.isLitStr(b)) { const r = litString(I, st, b, name, args); if (r) return r; }
  if (kind === 'arr') return heapArray(I, st, b, name, args, node);
  if (kind === 'set') return heapSet(I, st, b, name, args, node);
  if (kind === 'map') return heapMap(I, st, b, name, args, node);
  if (kind === 'promise') return promiseMethod(I, st, b, name, args, node);
  if (b.k === 'fn' || b.k === 'nat' || b.k === 'ext' || (b.k === 'op' && b.op === 'bind')) {
    if (b.k === 'ext' && b.m === 'global' && name === 'call' && /\.prototype\.(\w+)$/.test(b.p)) {
      const m = /\.prototype\.(\w+)$/.exec(b.p)[1];
      return I.callMethod(st, args[0], T.K(m), args.slice(1), node);
    }
    if (['call', 'apply', 'bind'].includes(name)) return fnMethods(I, st, b, name, args, node);
    return undefined;
  }
  if (b.k === 'const' && typeof b.v === 'string') {
    const r = constString(st, b, name, args);
    if (Array.isArray(r)) return val(st, I.alloc('arr', r.map((x) => one(T.K(x))), st));
    if (r) return val(st, r);
    if (name === 'concat') return val(st, T.concat([b, ...args]));
    const ps = pieceString(I, st, b, name, args, node);
    if (ps) return ps;
    return val(st, T.op('m:' + name, b, ...opArgs(args)));
  }
  if (b.k === 'regex') {
    if (args[0] && args[0].k === 'const' && name === 'test') return val(st, T.K(new RegExp(b.src, b.flags).test(String(args[0].v))));
    return val(st, T.op('m:' + name, b, ...opArgs(args)));
  }
  if (b.k === 'op' && (b.op === 'concat' || b.op === 'encodeURIComponent')) { const ps = pieceString(I, st, b, name, args, node); if (ps) return ps; }
  if (kind === 'obj' && name === 'hasOwnProperty' && I.getProp(st, b, name) === T.undef) return val(st, I.has(st, b, args[0]));
  return undefined;
}
function promiseMethod(I, st, b, name, args, node) {
  if (name === 'then') return I.then(st, b, args[0], args[1], node);
  if (name === 'catch') return I.then(st, b, undefined, args[0], node);
  if (name === 'finally') return I.then(st, b, args[0], args[0], node, true);
  return undefined;
}
// methods of unknown values that have a standard meaning
function opaqueMethod(I, st, b, name, args, node, fl) {
  if ((name === 'then' || name === 'catch' || name === 'finally') && args.some(callable)) return promiseMethod(I, st, b, name, args, node);
  if (HOF.includes(name) && callable(args[0])) return arrayLike(I, st, b, name, args, node);
  if (name === 'hasOwnProperty') return val(st, I.has(st, b, args[0]));
  if (['call', 'apply', 'bind'].includes(name) && args.length && b.k !== 'obj') return fnMethods(I, st, b, name, args, node);
  if (name === 'is' && args.length && !args[0].spread) {
    const c = T.simp(args[0], st.conds);
    const r = c.k === 'const' ? constIs(I, st, b, c) : undefined;
    if (r !== undefined) return val(st, T.K(r));
  }
  if (['decode', 'is', 'encode', 'validate'].includes(name)) return I.opaqueCall(st, fl, b, args, node, { pure: true, throws: true });
  if (name === 'concat' && b.k === 'op' && b.op === 'concat') return val(st, T.concat([b, ...args]));
  if (STR.includes(name)) return val(st, T.op('m:' + name, b, ...opArgs(args)));
  return undefined;
}

// ---- globals
const objectFns = {
  keys: (I, st, [x]) => val(st, I.alloc('arr', I.keySegs(st, x), st)),
  getOwnPropertyNames: (I, st, [x]) => val(st, I.alloc('arr', I.keySegs(st, x), st)),
  values: (I, st, [x]) => mapKeys(I, st, x, (s, k) => I.getProp(s, x, k)),
  entries: (I, st, [x]) => mapKeys(I, st, x, (s, k) => I.alloc('arr', [one(k), one(I.getProp(s, x, k))], s)),
  assign: (I, st, args, node) => {
    const t = args[0];
    if (t.k === 'obj' && I.kind(t) === 'obj') {
      if (I.watch && I.watch(t)) st.event({ t: 'set', base: t, key: T.K('assign'), v: T.undef, node });
      for (const a of args.slice(1)) st.ents.set(t, I.entsOf(st, t).concat(I.spreadEnts(st, a)));
      return val(st, t);
    }
    // a function or unknown target
    if (t.k !== 'fn' && t.k !== 'nat') for (const a of args.slice(1)) st.event({ t: 'set', base: t, key: T.K('assign'), v: a, node });
    for (const a of args.slice(1)) st.ents.set(t, (I.entsOf(st, t) || []).concat(I.spreadEnts(st, a)));
    return val(st, t);
  },
  fromEntries: (I, st, [x]) => {
    const obj = I.alloc('obj', [], st);
    return I.merge(finish(I.iterate(st, I.segsOf(st, x), (s, pair) => asStmt(I.setProp(s, obj, I.getProp(s, pair, T.K(0)), I.getProp(s, pair, T.K(1)))).map((o) => (o.c ? o : { st: o.st })), {}), undefined, () => obj));
  },
  defineProperty: (I, st, [t, k, d]) => { const v = I.getProp(st, d, 'value'); if (t.k === 'obj' && I.kind(t) === 'obj') return I.bind(I.setProp(st, t, k, v), (s) => val(s, t)); st.ents.set(t, (I.entsOf(st, t) || []).concat([{ t: 'kv', key: k, v }])); return val(st, t); },
  setPrototypeOf: (I, st, [t, p]) => { if (t.k === 'obj' && I.kind(t) === 'obj') I.objs.get(t.id).proto = p; st.vars.set('proto:' + t.uid, p); return val(st, t); },
  getPrototypeOf: (I, st, [t]) => val(st, st.vars.get('proto:' + t.uid) || T.op('proto', t)),
  freeze: (I, st, [t]) => val(st, t), seal: (I, st, [t]) => val(st, t),
  hasOwn: (I, st, [o, k]) => val(st, I.has(st, o, k)),
  create: (I, st, [p]) => val(st, I.alloc('obj', [], st, T.isNullishC(p) ? {} : { proto: p })),
  is: (I, st, [a, b]) => val(st, I.eq(a, b, st)),
};
function mapKeys(I, st, x, f) {
  const acc = I.alloc('arr', [], st);
  const outs = I.iterate(st, I.keySegs(st, x), (s, k) => { push(I, s, acc, one(f(s, k))); return [{ st: s }]; }, {});
  return I.merge(finish(outs, undefined, () => acc));
}
const normMod = (m) => m.replace(/^node:/, '').replace(/^fp-ts\/(lib|es6)\//, 'fp-ts/');
function callExt(I, st, fn, self, args, node) {
  const m = normMod(fn.m); let p = fn.p;
  const pure = (o) => I.opaqueCall(st, fn, undefined, args, node, Object.assign({ pure: true, noThrow: true }, o));
  if (I.opts.extFirst) { const r = I.opts.ext(I, st, fn, self, args, node); if (r) return r; }
  if (m === 'fp-ts' && /^either\./.test(p)) { const r = callEither(I, st, p.slice(7), args, node); if (r) return r; }
  if (m === 'fp-ts/Either') { const r = callEither(I, st, p, args, node); if (r) return r; return pure(); }
  if (p === 'pipe' || p === 'pipeable.pipe' || p === 'function.pipe') {
    let outs = val(st, args[0]);
    for (const f of args.slice(1)) outs = I.bind(outs, (s, v) => I.callValue(f, undefined, [v], s, node));
    return outs;
  }
  if (p === 'flow' || p === 'function.flow') return val(st, I.native('flow', (s, self2, a, n) => {
    let outs = I.callValue(args[0], undefined, a, s, n);
    for (const f of args.slice(1)) outs = I.bind(outs, (s2, v) => I.callValue(f, undefined, [v], s2, n));
    return outs;
  }));
  if ((m === 'fp-ts/function' || m === 'fp-ts') && /(^|\.)(identity)$/.test(p)) return val(st, args[0]);
  if ((m === 'fp-ts/function' || m === 'fp-ts') && /(^|\.)(constant)$/.test(p)) return val(st, I.native('constant', (s) => val(s, args[0])));
  const coll = /^fp-ts\/(Record|Array|ReadonlyArray|ReadonlyRecord|NonEmptyArray)$/.exec(m) || (m === 'fp-ts' && /^(record|array)\./.exec(p));
  if (coll) {
    const rec = /record/i.test(coll[1]);
    const nm = p.replace(/^(record|array)\./, '');
    if (['map', 'mapWithIndex'].includes(nm)) {
      const go = (s, x, f, n) => {
        if (!rec) return arrayLike(I, s, x, 'map', [nm === 'map' ? f : I.native('mwi', (s2, _s, a, n2) => I.callValue(f, undefined, [a[1], a[0]], s2, n2))], n);
        const obj = I.alloc('obj', [], s);
        const outs = I.iterate(s, I.keySegs(s, x), (s2, k) => asStmt(I.bind(I.callValue(f, undefined, nm === 'map' ? [I.getProp(s2, x, k)] : [k, I.getProp(s2, x, k)], s2, n), (s3, v) => I.setProp(s3, obj, k, v))).map((o) => (o.c ? o : { st: o.st })), {});
        return I.merge(finish(outs, undefined, () => obj));
      };
      if (args.length === 2) return go(st, args[0], args[1], node);
      return val(st, I.native('coll.map', (s, self2, a, n) => go(s, a[0], args[0], n || node)));
    }
    return pure();
  }
  if (m === 'global' || m === 'unresolved') {
    if (p.startsWith('Object.')) {
      const q = p.slice(7);
      const av = I.opts.shapes && ['keys', 'values', 'entries'].includes(q) && args[0] ? T.simp(args[0], st.conds) : undefined;
      if (av && I.kind(av) === 'arr' && plain(I.entsOf(st, av))) {
        const segs = I.entsOf(st, av);
        return val(st, I.alloc('arr', q === 'values' ? segs.slice() : segs.map((e, i) => one(q === 'keys' ? T.K(String(i)) : I.alloc('arr', [one(T.K(String(i))), one(e.v)], st))), st));
      }
      if (objectFns[q]) return objectFns[q](I, st, args, node);
      return pure();
    }
    if (p.startsWith('console.')) return val(st, T.undef);
    switch (p) {
      case 'Array.isArray': { const x = T.simp(args[0], st.conds); return val(st, isArray(I, x)); }
      case 'Array.from': {
        const x = args[0];
        if (args[1]) return arrayLike(I, st, I.alloc('arr', I.segsOf(st, x), st), 'map', [args[1]], node);
        return val(st, I.alloc('arr', I.segsOf(st, x), st));
      }
      case 'Array.of': return val(st, I.alloc('arr', args.map(one), st));
      case 'String': { const x = T.simp(args[0] || T.K(''), st.conds); return val(st, x.k === 'const' ? T.K(String(x.v)) : x.k === 'op' && x.op === 'concat' || T.isLitStr(x) ? x : T.op('String', x)); }
      case 'Number': { const x = T.simp(args[0], st.conds); return val(st, x.k === 'const' ? T.K(Number(x.v)) : T.isLit(x) && T.litType(x) === 'number' ? x : T.op('Number', x)); }
      case 'parseInt': case 'parseFloat': { const x = T.simp(args[0], st.conds); return val(st, x.k === 'const' ? T.K(p === 'parseInt' ? parseInt(x.v, args[1] && args[1].v) : parseFloat(x.v)) : T.op(p, ...args)); }
      case 'isNaN': case 'Number.isNaN': { const x = T.simp(args[0], st.conds); return val(st, x.k === 'const' ? T.K(Number.isNaN(Number(x.v))) : T.op('isNaN', x)); }
      case 'Boolean': return val(st, I.boolVal(st, args[0]));
      case 'Symbol': case 'Symbol.for': return val(st, T.sym('symbol:' + (node && node.getSourceFile ? require('./program').loc(node) : nextAcc++)));
      case 'encodeURIComponent': case 'decodeURIComponent': case 'encodeURI': {
        const x = T.simp(args[0], st.conds);
        if (x.k === 'const') return val(st, T.K(globalThis[p](x.v)));
        return val(st, T.op(p, x));
      }
      case 'JSON.stringify': case 'JSON.parse':
        if (I.opts.shapes && p === 'JSON.stringify') { const r = jsonTerm(I, st, args[0], 0); if (r) return r.map((o) => ({ st: o.st, v: o.t === undefined ? T.undef : T.op('json', o.t, ...args.slice(2)) })); }
        if (I.opts.shapes && p === 'JSON.parse') { const outs = []; for (const l of I.leaves(st, args[0])) { if (l.v.k !== 'op' || l.v.op !== 'json') { if (l.v.k === 'const' && typeof l.v.v === 'string') { let js; try { js = JSON.parse(l.v.v); } catch (e) { outs.push({ st: l.st, ex: T.sym('SyntaxError') }); continue; } outs.push({ st: l.st, v: fromJS(I, l.st, js) }); continue; } outs.length = 0; break; } outs.push({ st: l.st, v: jsonBack(I, l.st, l.v.a[0]) }); } if (outs.length) return outs; }
        return I.opaqueCall(st, fn, undefined, args, node, { pure: true, throws: true });
      case 'Promise.resolve': { const v = T.simp(args[0] || T.undef, st.conds); if (I.kind(v) === 'promise') return val(st, v); return val(st, I.newPromise(st, I.maybePromise(v) ? T.op('adopt', v) : T.op('ful', v))); }
      case 'setImmediate': case 'setTimeout': case 'queueMicrotask': case 'process.nextTick': {
        if (!args.length || args[0].spread || !callable(args[0])) break;
        const extra = p === 'queueMicrotask' ? [] : args.slice(p === 'setTimeout' ? 2 : 1);
        const cb = extra.length ? I.native('timer', (s, self, a, n) => I.callValue(args[0], undefined, extra, s, n)) : I.native('timer', (s, self, a, n) => I.callValue(args[0], undefined, [], s, n));
        I.then(st, I.newPromise(st, T.op('ful', T.undef)), cb, undefined, node);
        return val(st, T.sym('timer'));
      }
      case 'Promise.reject': return val(st, I.newPromise(st, T.op('rej', args[0] || T.undef)));
      case 'Buffer.from': case 'Buffer.byteLength': {
        const x = T.simp(args[0] || T.undef, st.conds); const enc = args[1] ? T.simp(args[1], st.conds) : T.undef;
        if (enc.k !== 'const') break;
        if (x.k === 'const' && typeof x.v === 'string') { const b = Buffer.from(x.v, enc.v); return val(st, p === 'Buffer.from' ? T.op('bytes', T.K(b.toString('latin1'))) : T.K(b.length)); }
        if (x.k === 'op' && x.op === 'bytes') return val(st, p === 'Buffer.from' ? x : T.K(x.a[0].v.length));
        break;
      }
      case 'Error': case 'TypeError': case 'RangeError': return val(st, mkError(I, st, fn, args));
      case 'require': if (args[0] && args[0].k === 'const') return val(st, T.ext(args[0].v, '*')); return pure();
      default:
    }
    if (p === 'Reflect.apply' && args.length === 3 && !args.some((a) => a.spread)) { const l = I.kind(args[2]) === 'arr' && I.segsOf(st, args[2]); if (l && l.every((x) => x.t === 'one' && !(x.g && x.g.length))) return I.callValue(args[0], args[1], l.map((x) => x.v), st, node); }
    if (p === 'Reflect.setPrototypeOf' || p === 'Reflect.getPrototypeOf') return objectFns[p.slice(8)](I, st, args, node);
    if (p === 'Reflect.ownKeys' && args.length === 1) return objectFns.keys(I, st, args, node);
    if (p === 'Reflect.get' && args.length === 2) return val(st, I.getProp(st, args[0], args[1]));
    if (p === 'Reflect.has' && args.length === 2) return val(st, I.has(st, args[0], args[1]));
    if (/^(Math|Number|String|Reflect|BigInt|Symbol|Date)\b/.test(p) && !/random|Date\.now/.test(p)) {
      if (/^(String\.from|Number\.(is|parse))/.test(p) && args.length && args.every((a) => !a.spread && T.simp(a, st.conds).k === 'const')) { try { return val(st, T.K(globalThis[p.slice(0, 6)][p.slice(7)](...args.map((a) => T.simp(a, st.conds).v)))); } catch (e) { /* throws */ } }
      if (p.startsWith('Math.') && args.every((a) => a.k === 'const')) { const r = Math[p.slice(5)]; if (typeof r === 'function') return val(st, T.K(r(...args.map((a) => a.v)))); }
      return pure();
    }
  }
  if (m === 'io-ts/PathReporter' || m === 'io-ts/lib/PathReporter') return pure();
  if (m === 'path' || m === 'resolve') return pure();
  if (m === 'os') return pure();
  const user = I.opts.ext && I.opts.ext(I, st, fn, self, args, node);
  if (user) return user;
  return I.opaqueCall(st, fn, self, args, node);
}
function isArray(I, x) {
  if (x.k === 'cond') return T.cond(x.g, isArray(I, x.a), isArray(I, x.b));
  if (x.k === 'const' || x.k === 'fn' || x.k === 'nat' || x.k === 'regex' || T.isLit(x) || T.isLitStr(x) || T.isNum(x)) return T.false_;
  if (x.k === 'obj') return T.K(I.kind(x) === 'arr');
  return T.op('isarray', x);
}
function mkError(I, st, cls, args) { return I.alloc('obj', [{ t: 'kv', key: T.K('message'), v: args[0] || T.K('') }].concat(I.opts.shapes ? [{ t: 'kv', key: T.K('stack'), v: T.sym('lit:string:stack') }] : []), st, { errorOf: cls }); }

function construct(I, st, c, args, node) {
  if (c.k !== 'ext') return undefined;
  const p = c.p;
  if (c.m === 'global') {
    if (p === 'Promise') {
      const pr = I.newPromise(st, T.op('pend'));
      const res = I.native('resolve', (s, self, a) => { const out = []; for (const l of I.leaves(s, a[0] || T.undef)) { settle(I, l.st, pr, (s2) => I.resolvePromise(s2, pr, l.v)); out.push({ st: l.st, v: T.undef }); } return out; });
      const rej = I.native('reject', (s, self, a) => { settle(I, s, pr, (s2) => I.rejectPromise(s2, pr, a[0] || T.undef)); return val(s, T.undef); });
      const t = st.tryD; st.tryD++;
      const outs = I.callValue(args[0], undefined, [res, rej], st, node);
      const r = [];
      for (const o of outs) { o.st.tryD = t; if (o.ex) settle(I, o.st, pr, (s) => I.rejectPromise(s, pr, o.ex)); r.push({ st: o.st, v: pr }); }
      return I.merge(r);
    }
    if (/^(Error|TypeError|RangeError|SyntaxError)$/.test(p)) return val(st, mkError(I, st, c, args));
    if (p === 'Set' && I.opts.shapes) {
      const o = I.alloc('set', [], st);
      if (!args.length || T.isNullishC(args[0])) return val(st, o);
      const segs = I.segsOf(st, args[0]);
      if (plain(segs)) { let outs = [{ st }]; for (const q of segs) outs = outs.flatMap((x) => addOnce(I, x.st, o, q.v)); return outs.map((x) => ({ st: x.st, v: o })); }
    }
    if (p === 'Set') return val(st, I.alloc('set', args.length && !T.isNullishC(args[0]) ? I.segsOf(st, args[0]) : [], st));
    if (p === 'Map' || p === 'WeakMap') {
      const o = I.alloc('map', [], st);
      if (!args.length || T.isNullishC(args[0])) return val(st, o);
      return I.merge(finish(I.iterate(st, I.segsOf(st, args[0]), (s, pair) => { s.ents.set(o, I.entsOf(s, o).concat([{ t: 'kv', key: I.getProp(s, pair, T.K(0)), v: I.getProp(s, pair, T.K(1)) }])); return [{ st: s }]; }, {}), undefined, () => o));
    }
    if (p === 'Array') return val(st, I.alloc('arr', args.length === 1 ? [{ t: 'unknown' }] : args.map(one), st));
    if (p === 'Object') return val(st, I.alloc('obj', [], st));
    if (p === 'RegExp') { if (args.every((a) => a.k === 'const')) return val(st, T.regex(args[0].v, args[1] ? args[1].v : '')); return val(st, T.op('regexp', ...args)); }
  }
  return undefined;
}
// settling only has an effect while the promise is pending; after a merge the record may be guarded
function settle(I, st, pr, f) {
  const rec = I.promState(st, pr);
  if (rec.k !== 'cond') { f(st); return; }
  const before = rec;
  const set = (r) => {
    if (r.k === 'cond') return T.cond(r.g, set(r.a), set(r.b));
    if (r.op !== 'pend') return r;
    const s = st.clone(); s.vars.set('prom:' + pr.id, T.op('pend')); f(s); return s.vars.get('prom:' + pr.id);
  };
  st.vars.set('prom:' + pr.id, set(before));
}
// membership of a constant in a codec built from io-ts literals, keyofs and unions
function constIs(I, st, codec, c) {
  codec = T.simp(codec, st.conds);
  if (codec.k === 'ext' && codec.m === 'io-ts') {
    const ty = { string: 'string', number: 'number', boolean: 'boolean' }[codec.p];
    return ty ? typeof c.v === ty : codec.p === 'undefined' ? c.v === undefined : codec.p === 'null' ? c.v === null : undefined;
  }
  if (codec.k !== 'call' || codec.fn.k !== 'ext' || codec.fn.m !== 'io-ts' || !codec.args.length || codec.args[0].spread) return undefined;
  const a = codec.args[0];
  if (codec.fn.p === 'literal') return a.k === 'const' ? a.v === c.v : undefined;
  if (codec.fn.p === 'keyof') {
    const es = I.entsOf(st, a);
    if (a.k !== 'obj' || !es || !es.every((e) => e.t === 'kv' && e.key.k === 'const' && !(e.g && e.g.length))) return undefined;
    return es.some((e) => e.key.v === c.v);
  }
  if (codec.fn.p === 'union') {
    const segs = I.segsOf(st, a);
    if (!segs.every((x) => x.t === 'one' && !(x.g && x.g.length))) return undefined;
    const rs = segs.map((x) => constIs(I, st, x.v, c));
    return rs.includes(true) ? true : rs.includes(undefined) ? undefined : false;
  }
  return undefined;
}
module.exports = { jsonDiffers, callExt, method, opaqueMethod, construct, mkEither, isLeft, splitE };
