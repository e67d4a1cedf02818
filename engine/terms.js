'use strict';
// Hash-consed abstract values ("terms") and guards.
const table = new Map();
let uid = 0;
function mk(key, f) {
  let t = table.get(key);
  if (!t) { t = f(); t.uid = ++uid; table.set(key, t); }
  return t;
}
const T = {};
T.K = (v) => mk(`c:${typeof v}:${Object.is(v, -0) ? '-0' : String(v)}`, () => ({ k: 'const', v }));
T.undef = T.K(undefined); T.null_ = T.K(null); T.true_ = T.K(true); T.false_ = T.K(false);
T.sym = (n, meta) => mk(`s:${n}`, () => ({ k: 'sym', n, meta }));
T.prop = (b, key) => {
  if (typeof key === 'string') key = T.K(key);
  // an element of keys(X), read back from X, etc. stay structural
  if (key.k === 'idx' && key.of === b) return T.item(b);
  return mk(`p:${b.uid}:${key.uid}`, () => ({ k: 'prop', b, key }));
};
T.call = (fn, self, args, n) => mk(`call:${fn.uid}:${self ? self.uid : '-'}:${args.map((a) => (a.spread ? '*' + a.spread.uid : a.uid)).join(',')}:${n || 0}`,
  () => ({ k: 'call', fn, self, args, n: n || 0 }));
T.op = (op, ...a) => mk(`o:${op}:${a.map((x) => x.uid).join(',')}`, () => ({ k: 'op', op, a }));
T.obj = (id) => mk(`obj:${id}`, () => ({ k: 'obj', id }));
T.fnref = (id) => mk(`fn:${id}`, () => ({ k: 'fn', id }));
T.nat = (id) => mk(`nat:${id}`, () => ({ k: 'nat', id }));
T.ext = (m, p) => mk(`ext:${m}|${p}`, () => ({ k: 'ext', m, p }));
T.ns = (file) => mk(`ns:${file}`, () => ({ k: 'ns', file }));
T.cls = (id) => mk(`cls:${id}`, () => ({ k: 'cls', id }));
T.regex = (src, flags) => mk(`re:${src}/${flags}`, () => ({ k: 'regex', src, flags }));
T.item = (of, d) => mk(`item:${of.uid}:${d || 0}`, () => ({ k: 'item', of, d: d || 0 }));
T.idx = (of) => mk(`idx:${of.uid}`, () => ({ k: 'idx', of }));
T.keys = (of) => mk(`keys:${of.uid}`, () => ({ k: 'keys', of }));
T.loopvar = (id, n) => mk(`lv:${id}:${n}`, () => ({ k: 'loopvar', id, n }));
T.fold = (id, n, src, init, step) => mk(`fold:${id}:${n}:${src ? src.uid : '-'}:${init.uid}:${step.uid}`, () => ({ k: 'fold', id, n, src, init, step }));
T.top = (why) => mk(`top:${why}`, () => ({ k: 'top', why }));
T.concat = (parts) => {
  const flat = [];
  for (const p of parts) {
    const xs = p.k === 'op' && p.op === 'concat' ? p.a : [p];
    for (const x of xs) {
      const last = flat[flat.length - 1];
      if (x.k === 'const' && x.v !== undefined && x.v !== null && last && last.k === 'const') flat[flat.length - 1] = T.K(String(last.v) + String(x.v));
      else if (x.k === 'const' && x.v === '') { if (!flat.length && parts.length === 1) flat.push(x); }
      else flat.push(x.k === 'const' ? T.K(String(x.v)) : x);
    }
  }
  if (flat.length === 0) return T.K('');
  if (flat.length === 1 && (flat[0].k === 'const' || T.isLitStr(flat[0]))) return flat[0];
  return T.op('concat', ...flat);
};

// ---- guards: a guard is a conjunction (array) of literals {atom, pos}; a literal may also be
// {or: [conj, conj, ...]} (a disjunction, kept for information at merges).
const litKey = (l) => (l.or ? 'or(' + l.or.map((c) => c.map(litKey).join('&')).join('|') + ')' : (l.pos ? '+' : '-') + l.atom.uid);
T.lit = (atom, pos) => ({ atom, pos });
T.neg = (l) => ({ atom: l.atom, pos: !l.pos });
T.litKey = litKey;

T.cond = (g, a, b) => {
  if (a === b) return a;
  if (g.length === 0) return a;
  return mk(`cond:${g.map(litKey).join('&')}:${a.uid}:${b.uid}`, () => ({ k: 'cond', g, a, b }));
};

const isNullishC = (c) => c.k === 'const' && (c.v === undefined || c.v === null);
T.isNullishC = isNullishC;
// objects that are certainly neither nullish nor falsy
T.isObjLike = (t) => t.k === 'obj' || t.k === 'fn' || t.k === 'nat' || t.k === 'ext' || t.k === 'ns' || t.k === 'cls' || t.k === 'regex';

// values of Symbol(): equal only to themselves
T.isSymbol = (t) => t.k === 'sym' && t.n.startsWith('symbol:');
// literal atoms ('lit:<type>:<name>'): non-empty values of a primitive type, distinct from each other
// and from every constant of the program
T.isLit = (t) => t.k === 'sym' && t.n.startsWith('lit:');
T.litType = (t) => t.n.split(':')[1];
// strings put together from literal atoms and constants: never empty, equal only when alike
T.isLitStr = (t) => (T.isLit(t) && T.litType(t) === 'string') || (t.k === 'op' && t.op === 'String' && T.isLit(t.a[0])) || (t.k === 'op' && t.op === 'concat' && t.a.every((x) => x.k === 'const' || T.isLitStr(x) || (x.k === 'op' && x.op === 'String' && T.isLit(x.a[0]))) && t.a.some((x) => x.k !== 'const'));
// results of number conversion; the least length of a text
T.isNum = (t) => t.k === 'op' && t.op === 'Number';
T.minLen = (t) => (t.k === 'const' ? String(t.v).length : T.isLit(t) ? 1 : t.k === 'op' && t.op === 'concat' ? t.a.reduce((n, x) => n + T.minLen(x), 0) : 0);
const lenOf = (t) => (t.k === 'prop' && t.key.k === 'const' && t.key.v === 'length' && T.isLitStr(t.b) ? T.minLen(t.b) : undefined);
// three-valued truth of an atom under a conjunction of literals
function known(atom, conds, depth) {
  depth = depth || 0;
  if (atom.k === 'const') return !!atom.v;
  if (T.isObjLike(atom) || T.isSymbol(atom) || T.isLit(atom) || T.isLitStr(atom)) return true;
  if (atom.k === 'op' && atom.op === '===') {
    const [x, y] = atom.a;
    const lx = T.isLit(x) || T.isLitStr(x); const ly = T.isLit(y) || T.isLitStr(y);
    if (x !== y && (lx || ly) && (lx || x.k === 'const' || T.isObjLike(x)) && (ly || y.k === 'const' || T.isObjLike(y))) return false;
    if (x !== y && (T.isSymbol(x) || T.isSymbol(y)) && (T.isSymbol(x) || x.k === 'const' || T.isObjLike(x)) && (T.isSymbol(y) || y.k === 'const' || T.isObjLike(y))) return false;
    if ((T.isNum(x) && ((y.k === 'const' && typeof y.v !== 'number') || T.isLitStr(y) || T.isObjLike(y))) || (T.isNum(y) && ((x.k === 'const' && typeof x.v !== 'number') || T.isLitStr(x)))) return false;
    if (y.k === 'const' && typeof y.v === 'number' && lenOf(x) > y.v) return false;
    if (x.k === 'op' && x.op === 'typeof' && T.isSymbol(x.a[0]) && y.k === 'const') return y.v === 'symbol';
  }
  if (atom.k === 'op' && atom.op === '<') {
    const [x, y] = atom.a;
    if (x.k === 'const' && lenOf(y) > x.v) return true;
    if (y.k === 'const' && lenOf(x) >= y.v) return false;
  }
  if (atom.k === 'op' && atom.op === 'nullish' && (T.isNum(atom.a[0]) || T.isSymbol(atom.a[0]) || T.isLit(atom.a[0]) || T.isLitStr(atom.a[0]))) return false;
  // direct
  for (let i = conds.length - 1; i >= 0; i--) { const l = conds[i]; if (l.atom === atom) return l.pos; }
  let r = implied(atom, conds);
  if (r !== undefined) return r;
  if (depth < 2) {
    for (const l of conds) {
      if (!l.or) continue;
      let all;
      let ok = true;
      for (const c of l.or) {
        const rest = conds.filter((x) => x !== l);
        if (c.some((x) => !x.or && known(x.atom, rest, depth + 1) === !x.pos)) continue; // impossible disjunct
        const v = known(atom, rest.concat(c), depth + 1);
        if (v === undefined || (all !== undefined && all !== v)) { ok = false; break; }
        all = v;
      }
      if (ok && all !== undefined) return all;
    }
  }
  return undefined;
}
const typeofC = (v) => (v === null ? 'object' : typeof v);
function implied(atom, conds) {
  const facts = (x) => {
    const f = { eq: undefined, ne: [], truthy: undefined, nullish: undefined, typ: undefined, notTyp: [] };
    for (const l of conds) {
      if (l.or) continue;
      const a = l.atom;
      if (a === x) f.truthy = l.pos;
      else if (a.k === 'op' && a.op === '===' && a.a[0] === x && a.a[1].k === 'const') { if (l.pos) f.eq = a.a[1]; else f.ne.push(a.a[1]); }
      else if (a.k === 'op' && a.op === 'nullish' && a.a[0] === x) f.nullish = l.pos;
      else if (a.k === 'op' && a.op === '===' && a.a[0].k === 'op' && a.a[0].op === 'typeof' && a.a[0].a[0] === x && a.a[1].k === 'const') { if (l.pos) f.typ = a.a[1].v; else f.notTyp.push(a.a[1].v); }
      else if (a.k === 'op' && a.op === 'isarray' && a.a[0] === x && l.pos) f.truthy = true;
      else if (a.k === 'op' && a.op === 'instanceof' && a.a[0] === x && l.pos) f.truthy = true;
      else if (l.pos && a.k === 'prop' && a.b === x) f.nonnull = true; // x.p truthy => x not nullish
      else if (l.pos && a.k === 'op' && a.op === '===' && a.a[0].k === 'prop' && a.a[0].b === x && a.a[1].k === 'const' && a.a[1].v !== undefined) f.nonnull = true;
      else if (a.k === 'op' && a.op === 'has' && !l.pos && x.k === 'prop' && a.a[0] === x.b && a.a[1] === x.key) f.eq = f.eq || T.undef;
      else if (l.pos && a.k === 'op' && a.op === 'in' && a.a[0] === x) f.inArr = a.a[1];
    }
    return f;
  };
  if (atom.k === 'op' && atom.op === '===' && atom.a[1].k === 'const') {
    const [x, c] = atom.a;
    if (x.k === 'op' && x.op === 'typeof') {
      const f = facts(x.a[0]);
      if (f.eq) return typeofC(f.eq.v) === c.v;
      if (f.typ !== undefined) return f.typ === c.v;
      if (T.isObjLike(x.a[0])) return undefined;
      return undefined;
    }
    const f = facts(x);
    if (f.eq) return f.eq === c;
    if (f.truthy === true && !c.v) return false;
    if (f.truthy === false && c.v) return false;
    if (f.nullish === false && isNullishC(c)) return false;
    if (f.nonnull && isNullishC(c)) return false;
    if (f.nullish === true && !isNullishC(c)) return false;
    if (f.typ !== undefined && typeofC(c.v) !== f.typ) return false;
    if (f.typ === 'undefined' && c.v === undefined) return true;
    if (f.nullish === true && f.ne.length && c.v === undefined && f.ne.some((n) => n.v === null)) return true;
    if (f.nullish === true && f.ne.length && c.v === null && f.ne.some((n) => n.v === undefined)) return true;
    return undefined;
  }
  if (atom.k === 'op' && atom.op === 'nullish') {
    const x = atom.a[0];
    const f = facts(x);
    if (f.eq) return isNullishC(f.eq);
    if (f.truthy === true || f.nonnull) return false;
    if (f.typ !== undefined && f.typ !== 'object' && f.typ !== 'undefined') return false;
    if (f.ne.some((n) => n.v === undefined) && f.ne.some((n) => n.v === null)) return false;
    return undefined;
  }
  if (atom.k === 'op' && atom.op === 'has') {
    const [x, kk] = atom.a;
    const f = facts(T.prop(x, kk));
    if (f.truthy === true || (f.eq && f.eq.v !== undefined) || f.nullish === false || f.ne.some((n) => n.v === undefined)) return true;
    return undefined;
  }
  const f = facts(atom);
  if (f.eq) return !!f.eq.v;
  if (f.nullish === true) return false;
  if (f.typ === 'object' && f.nullish === false) return true;
  if (f.typ === 'function' || f.typ === 'symbol') return true;
  return undefined;
}
T.known = known;
T.knownLit = (l, conds) => {
  if (l.or) {
    // true if some disjunct is implied, false if all contradicted
    let anyUnknown = false;
    for (const c of l.or) {
      const v = T.knownConj(c, conds);
      if (v === true) return true;
      if (v === undefined) anyUnknown = true;
    }
    return anyUnknown ? undefined : false;
  }
  const v = known(l.atom, conds);
  return v === undefined ? undefined : v === l.pos;
};
T.knownConj = (g, conds) => {
  let all = true;
  let cs = conds;
  for (const l of g) {
    const v = T.knownLit(l, cs);
    if (v === false) return false;
    if (v === undefined) { all = false; cs = cs.concat([l]); }
  }
  return all ? true : undefined;
};
// is the conjunction satisfiable w.r.t. the built-in implications?
T.consistent = (conds) => {
  for (let i = 0; i < conds.length; i++) {
    const l = conds[i];
    if (l.or) continue;
    const rest = conds.slice(0, i).concat(conds.slice(i + 1));
    if (known(l.atom, rest) === !l.pos) return false;
  }
  return true;
};
// do the guards (DNF) cover everything?
T.tautology = (dnf) => {
  if (dnf.some((c) => c.length === 0)) return true;
  if (dnf.length === 0) return false;
  const first = dnf[0].find((l) => !l.or);
  if (!first) return false;
  for (const pos of [true, false]) {
    const ctx = [{ atom: first.atom, pos }];
    const next = [];
    for (const c of dnf) {
      let dead = false;
      const r = [];
      for (const l of c) {
        const v = T.knownLit(l, ctx);
        if (v === false) { dead = true; break; }
        if (v === undefined) r.push(l);
      }
      if (!dead) next.push(r);
    }
    if (!T.tautology(next)) return false;
  }
  return true;
};
// resolve Cond nodes of a value at the top under the given conditions
T.simp = (v, conds) => {
  while (v.k === 'cond') {
    const g = T.knownConj(v.g, conds);
    if (g === true) v = v.a;
    else if (g === false) v = v.b;
    else break;
  }
  return v;
};
// ---- printing
function show(t, d) {
  d = d === undefined ? 6 : d;
  if (!t) return String(t);
  if (d < 0) return '…';
  const s = (x) => show(x, d - 1);
  switch (t.k) {
    case 'const': return typeof t.v === 'string' ? JSON.stringify(t.v) : String(t.v);
    case 'sym': return t.n;
    case 'prop': return t.key.k === 'const' && typeof t.key.v === 'string' && /^\w+$/.test(t.key.v) ? `${s(t.b)}.${t.key.v}` : `${s(t.b)}[${s(t.key)}]`;
    case 'call': return `${s(t.fn)}(${t.args.map((a) => (a.spread ? '...' + s(a.spread) : s(a))).join(', ')})${t.n ? '#' + t.n : ''}`;
    case 'op': return t.a.length === 2 && /^\W+$/.test(t.op) ? `(${s(t.a[0])} ${t.op} ${s(t.a[1])})` : `${t.op}(${t.a.map(s).join(', ')})`;
    case 'cond': return `(${t.g.map((l) => showLit(l, d - 1)).join(' & ')} ? ${s(t.a)} : ${s(t.b)})`;
    case 'obj': return `obj#${t.id}`;
    case 'fn': return `fn<${t.id}>`;
    case 'nat': return `nat<${t.id}>`;
    case 'ext': return t.m === 'global' ? t.p : `${t.m}#${t.p}`;
    case 'ns': return `ns<${t.file}>`;
    case 'cls': return `class<${t.id}>`;
    case 'regex': return `/${t.src}/${t.flags}`;
    case 'item': return `each(${s(t.of)})`;
    case 'idx': return `idx(${s(t.of)})`;
    case 'keys': return `keys(${s(t.of)})`;
    case 'loopvar': return `loop:${t.n}`;
    case 'fold': return `fold:${t.n}(${s(t.init)} -> ${s(t.step)})`;
    case 'top': return `?${t.why}`;
    default: return t.k;
  }
}
function showLit(l, d) {
  if (l.or) return '(' + l.or.map((c) => c.map((x) => showLit(x, d)).join('&')).join(' | ') + ')';
  return (l.pos ? '' : '!') + show(l.atom, d);
}
T.show = show;
T.showLit = showLit;
T.showConds = (cs) => cs.map((l) => showLit(l, 5)).join(' & ') || 'always';
// does a term mention a sub-term satisfying f? (does not look into heap objects)
T.mentions = (t, f, seen) => {
  seen = seen || new Set();
  if (!t || seen.has(t)) return false;
  seen.add(t);
  if (f(t)) return true;
  const r = (x) => T.mentions(x, f, seen);
  switch (t.k) {
    case 'prop': return r(t.b) || r(t.key);
    case 'call': return r(t.fn) || (t.self && r(t.self)) || t.args.some((a) => r(a.spread || a));
    case 'op': return t.a.some(r);
    case 'cond': return r(t.a) || r(t.b) || t.g.some((l) => (l.or ? l.or.some((c) => c.some((x) => !x.or && r(x.atom))) : r(l.atom)));
    case 'item': case 'idx': case 'keys': return r(t.of);
    case 'fold': return r(t.init) || r(t.step) || (t.src && r(t.src));
    default: return false;
  }
};
module.exports = T;
