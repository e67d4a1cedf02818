'use strict';
// Abstract interpreter over the TypeScript syntax tree: forward dataflow with guard-partitioned
// states, joined where no observable effect separates the paths; loops are abstracted to one
// representative iteration (widening the cells it changes); unknown calls are opaque effects.
const P = require('./program');
const T = require('./terms');
const { ts } = P;
const SK = ts.SyntaxKind;

class Abort extends Error {}
let nextObj = 1, nextScope = 1, nextLoop = 1, nextNat = 1;

const FN_PROPS = new Set(['name', 'length', 'prototype', 'call', 'apply', 'bind', 'toString', 'constructor', 'arguments', 'caller', 'hasOwnProperty']);
class State {
  constructor() { this.vars = new Map(); this.ents = new Map(); this.conds = []; this.ev = null; this.esc = []; this.pend = []; this.tryD = 0; this.loopD = 0; }
  clone() {
    const s = new State();
    s.vars = new Map(this.vars); s.ents = new Map(this.ents); s.conds = this.conds.slice(); s.ev = this.ev;
    s.esc = this.esc.slice(); s.pend = this.pend.slice(); s.tryD = this.tryD; s.loopD = this.loopD;
    return s;
  }
  assume(l) { this.conds.push(l); return this; }
  event(e) { e.n = this.ev ? this.ev.n + 1 : 1; this.ev = { e, prev: this.ev, n: e.n, conds: this.conds.length }; }
  events(since) { const out = []; for (let x = this.ev; x && x !== since; x = x.prev) out.push(x.e); return out.reverse(); }
}
class Scope { constructor(parent) { this.id = nextScope++; this.parent = parent; this.names = new Map(); } }

class Interp {
  constructor(opts) {
    this.opts = Object.assign({ maxOut: 6000, maxSteps: 3000000, throwing: 'caught', opaque: () => false, pure: () => false }, opts || {});
    const L = P.load();
    this.checker = L.checker; this.L = L;
    this.fns = new Map(); this.nats = new Map(); this.objs = new Map(); this.clss = new Map();
    this.statics = new Map(); this.mod = new Map(); this.stack = []; this.stackArgs = []; this.steps = 0;
    this.unknowns = []; this.analysed = new Set(); this.calls = 0; this.frames = [];
  }
  unknown(why, node) { this.unknowns.push(why + (node ? ' at ' + P.loc(node) : '')); return T.top(why + (node ? '@' + P.loc(node) : '')); }
  tick() {
    if (++this.steps > this.opts.maxSteps) throw new Abort('step budget exhausted');
    if (this.steps % 200 === 0) {
      if (Date.now() > Interp.deadline) throw new Abort('time budget exhausted');
      if (process.memoryUsage().heapUsed > Interp.heap) throw new Abort('memory budget exhausted');
    }
  }
  cap(outs) { if (outs.length > this.opts.maxOut) throw new Abort('path budget exhausted'); return outs; }

  // ---------- heap
  alloc(kind, ents, st, extra) {
    const id = nextObj++;
    const t = T.obj(id);
    this.objs.set(id, Object.assign({ kind }, extra || {}));
    st.ents.set(t, ents || []);
    return t;
  }
  kind(t) { return t.k === 'obj' ? this.objs.get(t.id).kind : undefined; }
  entsOf(st, t) { return st.ents.get(t) || this.statics.get(t); }
  native(name, f) { const t = T.nat(`${name}#${nextNat++}`); this.nats.set(t, f); return t; }
  closure(node, scope, self, cls) {
    const top = !scope;
    const id = `${P.loc(node)}@${top ? 0 : scope.id}${self ? `/${self.uid}` : ""}`;
    const t = T.fnref(id);
    if (!this.fns.has(t)) this.fns.set(t, { node, scope, self, cls, name: node.name && ts.isIdentifier(node.name) ? node.name.text : undefined });
    return t;
  }
  fnName(t) {
    if (t.k !== 'fn') return undefined;
    const i = this.fns.get(t);
    if (i.name) return i.name;
    const p = i.node.parent;
    if (p && ts.isVariableDeclaration(p) && ts.isIdentifier(p.name)) return p.name.text;
    if (p && ts.isPropertyAssignment(p)) return p.name.getText();
    return undefined;
  }

  // ---------- guards
  // split a state on a guard (conjunction): [states where it holds, states where it does not]
  splitConj(st, g) {
    const yes = []; const no = [];
    let cur = st;
    for (const l of g) {
      const v = T.knownLit(l, cur.conds);
      if (v === true) continue;
      if (v === false) { no.push(cur); return { yes, no }; }
      const f = cur.clone();
      if (l.or) { this.assumeNotOr(f, l).forEach((x) => no.push(x)); } else { f.assume(T.neg(l)); no.push(f); }
      cur.assume(l);
    }
    yes.push(cur);
    return { yes, no };
  }
  assumeNotOr(st, l) { // not (c1 | c2 ...) = for all i: some literal of ci is false
    let sts = [st];
    for (const c of l.or) {
      const next = [];
      for (const s of sts) for (const x of this.splitConj(s, c).no) next.push(x);
      sts = next;
    }
    return sts;
  }
  negConj(g) { return g.length === 1 ? (g[0].or ? [{ or: [[]] , never: true }] : [T.neg(g[0])]) : [{ or: g.map((l) => [l.or ? l : T.neg(l)]) }]; }
  // expand a value with Cond nodes into (state, leaf) pairs
  leaves(st, v) {
    v = T.simp(v, st.conds);
    if (v.k !== 'cond') return [{ st, v }];
    const { yes, no } = this.splitConj(st, v.g);
    const out = [];
    for (const s of yes) out.push(...this.leaves(s, v.a));
    for (const s of no) out.push(...this.leaves(s, v.b));
    return this.cap(out);
  }
  // evaluate truth: [{st, b}]
  branch(st, v) {
    const out = [];
    for (const { st: s, v: x } of this.leaves(st, v)) {
      if (x.k === 'const') { out.push({ st: s, b: !!x.v }); continue; }
      if (T.isObjLike(x) || (this.opts.truthy && this.opts.truthy(x))) { out.push({ st: s, b: true }); continue; }
      if (x.k === 'op' && x.op === '!') { for (const r of this.branch(s, x.a[0])) out.push({ st: r.st, b: !r.b }); continue; }
      const kn = T.known(x, s.conds);
      if (kn !== undefined) { out.push({ st: s, b: kn }); continue; }
      const f = s.clone();
      s.assume(T.lit(x, true)); f.assume(T.lit(x, false));
      out.push({ st: s, b: true }, { st: f, b: false });
    }
    return out;
  }
  boolVal(st, v) { // boolean value of a term without forking when possible
    v = T.simp(v, st.conds);
    if (v.k === 'const') return T.K(!!v.v);
    if (T.isObjLike(v) || (this.opts.truthy && this.opts.truthy(v))) return T.true_;
    if (v.k === 'cond') return T.cond(v.g, this.boolVal(st, v.a), this.boolVal(st, v.b));
    if (v.k === 'op' && ['===', '!', 'has', 'nullish', 'instanceof', 'isarray', 'exists'].includes(v.op)) return v;
    return T.op('bool', v);
  }
  // equality of property keys: numbers are the strings they print as
  keyEq(a, b, st) {
    const n = (k) => { k = T.simp(k, st.conds); return k.k === 'const' && typeof k.v === 'number' ? T.K(String(k.v)) : k; };
    a = n(a); b = n(b);
    if (a.k === 'cond') return T.cond(a.g, this.keyEq(a.a, b, st), this.keyEq(a.b, b, st));
    if (b.k === 'cond') return T.cond(b.g, this.keyEq(a, b.a, st), this.keyEq(a, b.b, st));
    const numeric = (k) => k.k === 'const' && typeof k.v === 'string' && k.v !== '' && String(Number(k.v)) === k.v;
    const str = (k) => (k.k === 'const' || T.isObjLike(k) || T.isSymbol(k) || (k.k === 'item' && k.of.k === 'keys') || (k.k === 'op' && k.op === 'concat') ? k : T.op('concat', k));
    if (numeric(a) && b.k !== 'const') return this.eq(a, str(b), st);
    if (numeric(b) && a.k !== 'const') return this.eq(str(a), b, st);
    return this.eq(a, b, st);
  }
  eq(a, b, st) {
    a = T.simp(a, st.conds); b = T.simp(b, st.conds);
    if (a.k === 'cond') return T.cond(a.g, this.eq(a.a, b, st), this.eq(a.b, b, st));
    if (b.k === 'cond') return T.cond(b.g, this.eq(a, b.a, st), this.eq(a, b.b, st));
    if (a === b && a.k !== 'top') return T.true_;
    if (a.k === 'const' && b.k === 'const') return T.K(a.v === b.v);
    if (a.k === 'const' || (b.k !== 'const' && a.uid > b.uid)) { const c = a; a = b; b = c; }
    if (this.opts.shapes && a.k === 'op' && a.op === 'json' && b.k === 'op' && b.op === 'json') { const d = this.models.jsonDiffers(this, a.a[0], b.a[0], st); if (d) return T.false_; }
    const la = T.isLit(a) || T.isLitStr(a);
    if (la && (b.k === 'const' || T.isObjLike(b) || T.isLit(b) || T.isLitStr(b))) return T.false_;
    if (b.k !== 'const' && T.isObjLike(a) && (T.isLit(b) || T.isLitStr(b))) return T.false_;
    if (b.k === 'const') {
      if (T.isObjLike(a)) return T.false_;
      if (a.k === 'op' && a.op === 'json') return T.false_;
      if (T.isNum(a) && typeof b.v !== 'number') return T.false_;
      if (!b.v && this.opts.truthy && this.opts.truthy(a)) return T.false_;
      if (a.k === 'op' && a.op === 'concat' && (b.v === undefined || b.v === null)) return T.false_;
      if (a.k === 'op' && (a.op === 'new') && T.isNullishC(b)) return T.false_;
      if (a.k === 'op' && ['===', '!', 'has', 'bool', 'nullish'].includes(a.op)) { if (b.v === true) return a; if (b.v === false) return T.op('!', a); return T.false_; }
      if (a.k === 'op' && a.op === 'typeof' && b.v === 'undefined') return this.eq(a.a[0], T.undef, st);
      if (a.k === 'prop' && a.key.k === 'const' && a.key.v === '_tag' && b.v === 'Right') return this.not(T.op('===', a, T.K('Left')));
      return T.op('===', a, b);
    }
    if ((T.isObjLike(a) && T.isObjLike(b))) return T.false_;
    return T.op('===', a, b);
  }
  not(v) {
    if (v.k === 'const') return T.K(!v.v);
    if (T.isObjLike(v) || T.isLit(v) || T.isLitStr(v) || (this.opts.truthy && this.opts.truthy(v))) return T.false_;
    if (v.k === 'cond') return T.cond(v.g, this.not(v.a), this.not(v.b));
    if (v.k === 'op' && v.op === '!') return v.a[0].k === 'op' && ['===', 'has', 'nullish', 'bool', 'instanceof', 'isarray'].includes(v.a[0].op) ? v.a[0] : T.op('bool', v.a[0]);
    if (v.k === 'op' && v.op === 'bool') return T.op('!', v.a[0]);
    return T.op('!', v);
  }
  nullish(v, st) {
    v = T.simp(v, st.conds);
    if (v.k === 'const') return T.K(T.isNullishC(v));
    if (T.isObjLike(v) || T.isLit(v) || T.isNum(v) || (this.opts.truthy && this.opts.truthy(v))) return T.false_;
    if (v.k === 'cond') return T.cond(v.g, this.nullish(v.a, st), this.nullish(v.b, st));
    if (v.k === 'op' && ['concat', 'json', '===', '!', 'typeof', 'has', '+', '-', 'new', 'bool', 'isarray'].includes(v.op)) return T.false_;
    return T.op('nullish', v);
  }

  // ---------- merging of outcomes
  // outs: [{st, v?, ex?, c?, label?}]; those with the same completion and the same effects are joined
  merge(outs, force) {
    if (outs.length < 2) return outs;
    const groups = new Map();
    let n = 0;
    for (const o of outs) {
      const key = o.ex ? `x${n++}` : o.ref || o.short ? `r${n++}` : `${o.c || ''}|${o.label || ''}|${force ? '' : o.st.ev ? this.evId(o.st.ev) : 0}|${o.st.esc.length}|${o.st.pend.length}|${o.st.tryD}`;
      if (!groups.has(key)) groups.set(key, []);
      groups.get(key).push(o);
    }
    const res = [];
    for (const g of groups.values()) res.push(g.length === 1 ? g[0] : this.join(g));
    return res;
  }
  evId(ev) { if (!ev.uid) ev.uid = ++this.calls; return ev.uid; }
  join(os) {
    const sts = os.map((o) => o.st);
    let k = 0;
    for (;;) {
      const l = sts[0].conds[k];
      if (!l) break;
      const key = T.litKey(l);
      if (!sts.every((s) => s.conds[k] && T.litKey(s.conds[k]) === key)) break;
      k++;
    }
    const prefix = sts[0].conds.slice(0, k);
    let guards = sts.map((s) => s.conds.slice(k));
    const dnf = guards.map((g) => g.filter(() => true));
    // drop literals of later guards that the failure of an earlier one-literal guard implies
    const ctx = prefix.slice();
    const sel = [];
    for (const g of guards) {
      sel.push(g.filter((l) => T.knownLit(l, ctx) !== true));
      const own = sel[sel.length - 1];
      if (own.length === 1 && !own[0].or) ctx.push(T.neg(own[0]));
    }
    const pick = (vals) => {
      let r = vals[vals.length - 1];
      for (let i = vals.length - 2; i >= 0; i--) r = T.cond(sel[i].length ? sel[i] : guards[i], vals[i], r);
      return r;
    };
    const m = new State();
    m.conds = prefix; m.ev = sts[0].ev; m.esc = sts[0].esc; m.pend = sts[0].pend; m.tryD = sts[0].tryD; m.loopD = sts[0].loopD;
    if (!T.tautology(dnf)) m.conds = prefix.concat([{ or: dnf }]);
    const cells = new Set();
    for (const s of sts) for (const c of s.vars.keys()) cells.add(c);
    for (const c of cells) {
      const have = sts.filter((s) => s.vars.has(c));
      const first = have[0].vars.get(c);
      if (have.every((s) => s.vars.get(c) === first)) { m.vars.set(c, first); continue; }
      m.vars.set(c, pick(sts.map((s) => s.vars.get(c) || T.undef)));
    }
    const eks = new Set();
    for (const s of sts) for (const t of s.ents.keys()) eks.add(t);
    for (const t of eks) {
      const have = sts.map((s) => s.ents.get(t));
      const first = have.find((x) => x);
      if (have.every((x) => !x || x === first)) { m.ents.set(t, first); continue; }
      // common prefix, then guarded tails
      let p = 0;
      const base = have.filter((x) => x);
      for (;;) { const e = base[0][p]; if (!e || !base.every((x) => x[p] === e)) break; p++; }
      const out = base[0].slice(0, p);
      have.forEach((x, i) => { if (x) for (const e of x.slice(p)) out.push(Object.assign({}, e, { g: guards[i].concat(e.g || []) })); });
      m.ents.set(t, out);
    }
    const o = { st: m };
    if (os[0].c) o.c = os[0].c;
    if (os[0].label) o.label = os[0].label;
    if (os[0].v !== undefined) o.v = pick(os.map((x) => x.v || T.undef));
    return o;
  }
  bind(outs, f) { const r = []; for (const o of outs) { if (o.ex) r.push(o); else r.push(...f(o.st, o.v)); } return this.cap(r); }

  // ---------- properties
  getProp(st, b, key, node, self) {
    b = T.simp(b, st.conds);
    if (typeof key === 'string') key = T.K(key);
    key = T.simp(key, st.conds);
    if (b.k === 'cond') return T.cond(b.g, this.getProp(st, b.a, key, node), this.getProp(st, b.b, key, node));
    if (key.k === 'cond') return T.cond(key.g, this.getProp(st, b, key.a, node), this.getProp(st, b, key.b, node));
    if (b.k === 'const') {
      if (typeof b.v === 'string' && key.k === 'const') { if (key.v === 'length') return T.K(b.v.length); if (typeof key.v === 'number') return T.K(b.v[key.v]); }
      if (T.isNullishC(b)) return T.top('read of nullish');
      return T.prop(b, key);
    }
    if (b.k === 'op' && b.op === 'bytes' && key.k === 'const') { if (key.v === 'length' || key.v === 'byteLength') return T.K(b.a[0].v.length); if (typeof key.v === 'number') return key.v >= 0 && key.v < b.a[0].v.length ? T.K(b.a[0].v.charCodeAt(key.v)) : T.undef; }
    if (b.k === 'ext') { if (key.k === 'const') return T.ext(b.m, b.p === '*' ? String(key.v) : `${b.p}.${key.v}`); return T.prop(b, key); }
    if (b.k === 'ns') { if (key.k === 'const') return this.nsMember(b.file, String(key.v)); return T.prop(b, key); }
    if (key.k === 'idx' && key.of === b && st.vars.has('cur:' + b.uid)) return st.vars.get('cur:' + b.uid);
    const ents = this.entsOf(st, b);
    const kind = this.kind(b);
    if (kind === 'arr') return this.getIndex(st, b, ents, key);
    if (kind === 'set' || kind === 'map') { if (key.k === 'const' && key.v === 'size') { if (this.opts.shapes && (kind === 'map' ? ents.every((e, i) => e.t === 'kv' && !(e.g && e.g.length) && ents.every((x, j) => j <= i || T.isLit(x.key) || x.key.k === 'const')) && new Set(ents.map((e) => e.key)).size === ents.length : ents.every((e) => e.t === 'one' && !(e.g && e.g.length)))) return T.K(ents.length); return T.op('len', b, T.K(ents.length)); } return T.prop(b, key); }
    if (b.k === 'obj' || ents) {
      let closed = b.k === 'obj' && kind !== 'promise' && kind !== 'opaque';
      let base = closed ? this.inherited(st, b, key) : T.prop(b, key);
      if (!closed && st.vars.has('proto:' + b.uid)) { const p = this.getProp(st, st.vars.get('proto:' + b.uid), key); if (p !== T.undef) base = p; }
      return this.lookup(st, b, ents || [], key, base);
    }
    if (b.k === 'cls') return this.classStatic(b, key);
    if (b.k === 'item' && b.of.k === 'op' && b.of.op === 'entries') {
      if (key.k === 'const' && key.v === 0) return T.item(T.keys(b.of.a[0]), b.d);
      if (key.k === 'const' && key.v === 1) return T.prop(b.of.a[0], T.item(T.keys(b.of.a[0]), b.d));
    }
    if (b.k === 'fn' && key.k === 'const' && key.v === 'length') { const f = this.fns.get(b); return T.K(f.node.parameters.filter((p) => !p.initializer && !p.dotDotDotToken && !(ts.isIdentifier(p.name) && p.name.text === 'this')).length); }
    if ((b.k === 'fn' || b.k === 'nat') && T.isSymbol(key)) return T.undef;
    return T.prop(b, key);
  }
  inherited(st, b, key) {
    const info = this.objs.get(b.id);
    if (info.cls && key.k === 'const') {
      const m = this.findMethod(info.cls, String(key.v));
      if (m) return this.closure(m.node, m.scope, b, m.cls);
    }
    if (key.k !== 'const') return T.undef;
    if (info.proto) return this.getProp(st, info.proto, key);
    return T.undef;
  }
  lookup(st, b, ents, key, base) {
    // an unknown key into a large constant table: keep the read symbolic
    if (key.k !== 'const' && b.k === 'obj' && ents.length > 12 && ents.every((e) => e.t === 'kv' && e.key.k === 'const' && !(e.g && e.g.length)) && !(key.k === 'item' && key.of.k === 'keys' && key.of.of === b)) return T.prop(b, key);
    let r = base;
    for (const e of ents) {
      const g = e.g && e.g.length ? T.knownConj(e.g, st.conds) : true;
      if (g === false) continue;
      let v;
      if (e.t === 'kv') {
        const m = this.keyEq(e.key, key, st);
        const mk = T.simp(m, st.conds);
        if (mk.k === 'const') { if (!mk.v) continue; v = e.v; } else { const kk = T.known(mk, st.conds); if (kk === false) continue; v = kk === true ? e.v : mk.k === 'cond' ? T.cond(mk.g, T.known(mk.a, st.conds) ? e.v : r, r) : T.cond([this.asLit(mk)], e.v, r); }
      } else if (e.t === 'spread') {
        if (e.omit && key.k === 'const' && e.omit.includes(key.v)) continue;
        // a function has the members it was given
        if ((e.v.k === 'fn' || e.v.k === 'nat') && key.k === 'const') {
          const own = this.entsOf(st, e.v) || [];
          if (own.every((x) => x.t === 'kv' && x.key.k === 'const' && !(x.g && x.g.length))) { const h = own.filter((x) => x.key === key).pop(); if (!h) continue; if (g === true) { r = h.v; continue; } r = T.cond(e.g, h.v, r); continue; }
        }
        const pv = this.getProp(st, e.v, key);
        v = r === T.undef || (r.k === 'const' && r.v === undefined) ? pv : T.cond([T.lit(T.op('has', e.v, key), true)], pv, r);
      } else if (e.t === 'del') {
        const m = this.keyEq(e.key, key, st);
        const mk = T.simp(m, st.conds);
        if (mk.k === 'const' && !mk.v) continue;
        if (mk.k !== 'const') { v = T.cond([this.asLit(mk)], T.undef, r); } else v = T.undef;
      } else if (e.t === 'each') {
        // an element stored under key(item) for some item
        if (!this.eachMayMatch(e, key, st)) continue;
        const inner = this.eachExact(e, key, st);
        if (inner) v = inner; else v = T.prop(b, key);
      } else if (e.t === 'prior' || e.t === 'unknown') { v = T.prop(b, key); } else continue;
      r = g === true ? v : T.cond(e.g, v, r);
    }
    return r;
  }
  asLit(t) { return t.k === 'op' && t.op === '!' ? T.lit(t.a[0], false) : t.k === 'op' && t.op === 'bool' ? T.lit(t.a[0], true) : T.lit(t, true); }
  eachMayMatch(e, key, st) {
    for (const k of e.ents) {
      if (k.t === 'each') { if (this.eachMayMatch(k, key, st)) return true; continue; }
      if (k.t !== 'kv') return true;
      const m = T.simp(this.keyEq(k.key, key, st), st.conds);
      if (!(m.k === 'const' && !m.v)) return true;
    }
    return false;
  }
  eachExact(e, key, st) { // each over keys(X): [item] = v  read at the very same item
    for (const k of e.ents) if (k.t === 'kv' && k.key === key && (!k.g || !k.g.length)) return k.v;
    return undefined;
  }
  getIndex(st, b, segs, key) {
    if (key.k === 'const' && key.v === 'length') {
      if (segs.every((s) => s.t === 'one' && (!s.g || !s.g.length))) return T.K(segs.length);
      return T.op('len', b, T.K(this.segVersion(segs)));
    }
    if (key.k === 'const' && (typeof key.v === 'number' || /^\d+$/.test(String(key.v)))) {
      const i = Number(key.v);
      let j = 0;
      for (const s of segs) {
        if (s.t !== 'one' || (s.g && s.g.length)) { j = -1; break; }
        if (j === i) return s.v;
        j++;
      }
      if (j !== -1) return T.undef;
      return T.prop(b, key);
    }
    const own = st.ents.get(T.op('props', b));
    if (own) return this.lookup(st, b, own, key, T.prop(b, key));
    return T.prop(b, key);
  }
  segVersion(segs) { return segs.length; }
  setProp(st, b, key, v, node) {
    if (typeof key === 'string') key = T.K(key);
    b = T.simp(b, st.conds);
    if (b.k === 'cond') { return this.bind(this.leaves(st, b).map((o) => ({ st: o.st, v: o.v })), (s, x) => this.setProp(s, x, key, v, node)); }
    if (T.isNullishC(b)) { if (process.env.VERIF_TE) console.error('TypeError', node && P.loc(node), node && node.getText().slice(0, 80)); return [{ st, ex: T.sym('TypeError') }]; }
    const kind = this.kind(b);
    if (kind === 'arr') {
      const segs = this.entsOf(st, b);
      if (key.k === 'const' && typeof key.v === 'number' && segs.every((s) => s.t === 'one' && (!s.g || !s.g.length)) && key.v <= segs.length) {
        const n = segs.slice(); n[key.v] = { t: 'one', v }; st.ents.set(b, n);
      } else if (key.k === 'op' && key.op === 'len' && key.a[0] === b) st.ents.set(b, segs.concat([{ t: 'one', v }]));
      else st.ents.set(b, segs.concat([{ t: 'unknown' }]));
      return [{ st, v }];
    }
    const ents = this.entsOf(st, b) || [];
    let e = ents;
    const last = ents.findIndex((x) => x.t === 'kv' && x.key === key && (!x.g || !x.g.length));
    if (last >= 0 && ents.slice(last + 1).every((x) => x.t === 'kv' && x.key.k === 'const' && key.k === 'const' && x.key !== key)) { e = ents.slice(); e[last] = { t: 'kv', key, v }; } else e = ents.concat([{ t: 'kv', key, v }]);
    if (b.k !== 'obj' || this.kind(b) === 'opaque') st.event({ t: 'set', base: b, key, v, node });
    else if (this.watch && this.watch(b)) st.event({ t: 'set', base: b, key, v, node });
    st.ents.set(b, e);
    return [{ st, v }];
  }
  has(st, b, key) {
    b = T.simp(b, st.conds); key = T.simp(key, st.conds);
    if (b.k === 'cond') return T.cond(b.g, this.has(st, b.a, key), this.has(st, b.b, key));
    if (key.k === 'cond') return T.cond(key.g, this.has(st, b, key.a), this.has(st, b, key.b));
    if (key.k === 'item' && key.of.k === 'keys' && key.of.of === b) return T.true_;
    const ents = this.entsOf(st, b);
    let r = b.k === 'obj' && this.kind(b) !== 'opaque' ? T.false_ : (b.k === 'fn' || b.k === 'nat') && ((key.k === 'const' && !FN_PROPS.has(key.v)) || T.isSymbol(key)) ? T.false_ : T.op('has', b, key);
    if (b.k === 'obj' && this.objs.get(b.id).cls && key.k === 'const' && this.findMethod(this.objs.get(b.id).cls, String(key.v))) r = T.true_;
    for (const e of ents || []) {
      const g = e.g && e.g.length ? T.knownConj(e.g, st.conds) : true;
      if (g === false) continue;
      let v;
      if (e.t === 'kv' || e.t === 'del') {
        const m = T.simp(this.keyEq(e.key, key, st), st.conds);
        if (m.k === 'const' && !m.v) continue;
        const val = e.t === 'kv' ? T.true_ : T.false_;
        v = m.k === 'const' ? val : T.cond([this.asLit(m)], val, r);
      } else if (e.t === 'spread') { if (e.omit && key.k === 'const' && e.omit.includes(key.v)) continue; const h = this.has(st, e.v, key); v = r === T.false_ ? h : h === T.true_ ? h : T.cond([this.asLit(h)], T.true_, r); } else if (e.t === 'each') { if (!this.eachMayMatch(e, key, st)) continue; v = T.op('has', b, key); } else v = T.op('has', b, key);
      r = g === true ? v : T.cond(e.g, v, r);
    }
    return r;
  }

  // ---------- identifiers and modules
  newScope(parent) { return new Scope(parent); }
  cell(scope, name) { return `${scope.id}:${name}`; }
  declare(scope, name, st, v) { scope.names.set(name, true); st.vars.set(this.cell(scope, name), v); }
  findCell(scope, name) { for (let s = scope; s; s = s.parent) if (s.names.has(name)) return this.cell(s, name); return undefined; }
  ident(node, st, scope) {
    const name = node.text;
    if (name === 'undefined') return T.undef;
    const c = this.findCell(scope, name);
    if (c) return st.vars.get(c) || (this.modVars && this.modVars.get(c)) || T.undef;
    if (name === 'arguments') return this.unknown('arguments', node);
    let sym = this.checker.getSymbolAtLocation(node);
    if (node.parent && ts.isShorthandPropertyAssignment(node.parent) && node.parent.name === node) sym = this.checker.getShorthandAssignmentValueSymbol(node.parent);
    return this.symbolValue(sym, node, st);
  }
  symbolValue(sym, node, st) {
    if (!sym) return T.ext('global', node.text);
    if (sym.flags & ts.SymbolFlags.Alias) {
      const d = sym.declarations && sym.declarations[0];
      const target = this.checker.getAliasedSymbol(sym);
      const spec = this.importSpec(d);
      const td = target && target.declarations && target.declarations[0];
      if (td && this.L.srcRoot(td.getSourceFile().fileName)) {
        if (ts.isSourceFile(td)) return T.ns(td.fileName);
        return this.declValue(target, td, st);
      }
      if (spec) {
        if (d && (ts.isNamespaceImport(d))) return T.ext(spec, '*');
        if (d && ts.isImportClause(d)) return T.ext(spec, spec === target.name ? '*' : 'default');
        if (d && ts.isImportSpecifier(d)) return T.ext(spec, (d.propertyName || d.name).text);
        if (d && ts.isImportEqualsDeclaration(d)) return T.ext(spec, '*');
        if (d && ts.isExportSpecifier(d)) return T.ext(spec, (d.propertyName || d.name).text);
      }
      return T.ext('unresolved', node.text);
    }
    const d = sym.valueDeclaration || (sym.declarations && sym.declarations[0]);
    if (!d) return T.ext('global', sym.name);
    if (!this.L.srcRoot(d.getSourceFile().fileName)) return T.ext('global', sym.name);
    return this.declValue(sym, d, st);
  }
  importSpec(d) {
    let n = d;
    while (n && !ts.isImportDeclaration(n) && !ts.isExportDeclaration(n) && !ts.isImportEqualsDeclaration(n)) n = n.parent;
    if (!n) return undefined;
    if (ts.isImportEqualsDeclaration(n)) return n.moduleReference.expression && n.moduleReference.expression.text;
    return n.moduleSpecifier && n.moduleSpecifier.text;
  }
  modKey(d) { return P.loc(d); }
  declValue(sym, d, st) {
    if (ts.isFunctionDeclaration(d) || ts.isMethodDeclaration(d)) {
      if (!d.body) { const impl = (sym.declarations || []).find((x) => ts.isFunctionDeclaration(x) && x.body); if (impl) d = impl; }
      return this.closure(d, null, undefined);
    }
    if (ts.isClassDeclaration(d)) { const t = T.cls(P.loc(d)); this.clss.set(t, { node: d, scope: null }); return t; }
    if (ts.isEnumDeclaration(d)) return this.enumValue(d);
    if (ts.isEnumMember(d)) { const v = this.checker.getConstantValue(d); return T.K(v); }
    if (ts.isModuleDeclaration(d)) return T.ns(P.loc(d));
    if (ts.isVariableDeclaration(d)) {
      const isConst = (ts.getCombinedNodeFlags(d) & ts.NodeFlags.Const) !== 0;
      const key = 'mod:' + this.modKey(d);
      if (!isConst) {
        if (st && st.vars.has(key)) return st.vars.get(key);
        return T.sym(key.replace(/^mod:/, 'modvar:'), { decl: d });
      }
      return this.modConst(d);
    }
    if (ts.isBindingElement(d)) {
      let v = d; while (v && !ts.isVariableDeclaration(v)) v = v.parent;
      if (v) { this.modConst(v); const c = this.mod.get('bind:' + P.loc(d)); if (c) return c; }
      return this.unknown('binding', d);
    }
    if (ts.isPropertyAssignment(d) || ts.isPropertySignature(d) || ts.isParameter(d)) return T.ext('global', sym.name);
    return this.unknown('declaration ' + SK[d.kind], d);
  }
  modConst(d) {
    const key = this.modKey(d);
    if (this.mod.has(key)) return this.mod.get(key);
    this.mod.set(key, T.sym('rec:' + key));
    let v;
    if (!d.initializer) v = T.sym('declared:' + key, { decl: d });
    else {
      const st = new State();
      const sc = this.newScope(null);
      const saved = this.stack; const savedA = this.stackArgs; this.stack = []; this.stackArgs = [];
      const outs = this.ev(d.initializer, st, sc).filter((o) => !o.ex);
      this.stack = saved; this.stackArgs = savedA;
      const m = this.merge(outs, true);
      if (m.length === 0) v = this.unknown('const initializer', d);
      else {
        const o = m[0];
        for (const [t, e] of o.st.ents) if (!this.statics.has(t)) this.statics.set(t, e);
        for (const [c, x] of o.st.vars) this.modVars = (this.modVars || new Map()).set(c, x);
        v = o.v;
        if (ts.isIdentifier(d.name)) { /* plain */ } else {
          const st2 = new State();
          const sc2 = this.newScope(null);
          for (const b of this.bindPattern(d.name, v, st2, sc2, true)) for (const el of this.patternElements(d.name)) { const c = this.findCell(sc2, el.name.text); if (c && b.st.vars.has(c)) this.mod.set('bind:' + P.loc(el), b.st.vars.get(c)); }
        }
        if (v.k === 'obj') this.objs.get(v.id).modConst = key, this.objs.get(v.id).modName = d.name.getText();
      }
    }
    this.mod.set(key, v);
    return v;
  }
  patternElements(p) { const out = []; for (const e of p.elements) { if (ts.isOmittedExpression(e)) continue; if (ts.isIdentifier(e.name)) out.push(e); else out.push(...this.patternElements(e.name)); } return out; }
  enumValue(d) {
    const key = 'enum:' + P.loc(d);
    if (this.mod.has(key)) return this.mod.get(key);
    const st = new State();
    const ents = [];
    for (const m of d.members) { const v = this.checker.getConstantValue(m); ents.push({ t: 'kv', key: T.K(m.name.text), v: T.K(v) }); if (typeof v === 'number') ents.push({ t: 'kv', key: T.K(String(v)), v: T.K(m.name.text) }); }
    const o = this.alloc('obj', ents, st);
    this.statics.set(o, ents);
    this.mod.set(key, o);
    return o;
  }
  nsMember(file, name) {
    const sf = this.L.program.getSourceFile(file);
    if (!sf) return T.ext('ns:' + file, name);
    const ms = this.checker.getSymbolAtLocation(sf);
    const s = this.checker.getExportsOfModule(ms).find((x) => x.name === name);
    if (!s) return T.undef;
    return this.symbolValue(s, { text: name, parent: undefined, getSourceFile: () => sf }, undefined);
  }
  exportValue(pkg, file, name) {
    const s = P.findExport(pkg, file, name);
    if (!s) return undefined;
    return this.symbolValue(s, { text: name }, undefined);
  }
  findMethod(clsTerm, name) {
    const c = this.clss.get(clsTerm);
    if (!c) return undefined;
    for (const m of c.node.members) if ((ts.isMethodDeclaration(m) || ts.isGetAccessor(m)) && m.body && m.name.getText() === name && !(m.modifiers || []).some((x) => x.kind === SK.StaticKeyword)) return { node: m, scope: c.scope, cls: clsTerm };
    return undefined;
  }
  classStatic(b, key) {
    const c = this.clss.get(b);
    if (key.k === 'const') for (const m of c.node.members) if (ts.isMethodDeclaration(m) && m.body && m.name.getText() === key.v && (m.modifiers || []).some((x) => x.kind === SK.StaticKeyword)) return this.closure(m, c.scope, b);
    return T.prop(b, key);
  }

  // ---------- binding patterns
  bindPattern(name, v, st, scope, declare) {
    if (ts.isIdentifier(name)) { this.declare(scope, name.text, st, v); return [{ st }]; }
    if (ts.isObjectBindingPattern(name)) {
      if (T.isNullishC(T.simp(v, st.conds))) return [{ st, ex: T.sym('TypeError') }];
      let outs = [{ st }];
      const seen = [];
      for (const el of name.elements) {
        if (el.dotDotDotToken) {
          outs = this.bind(outs, (s) => { const o = this.alloc('obj', [{ t: 'spread', v, omit: seen.slice() }], s); return this.bindPattern(el.name, this.restOf(s, v, seen, o), s, scope); });
          continue;
        }
        outs = this.bind(outs, (s) => {
          const pn = el.propertyName || el.name;
          const keyOuts = ts.isComputedPropertyName(pn) ? this.ev(pn.expression, s, scope) : [{ st: s, v: T.K(pn.text) }];
          return this.bind(keyOuts, (s2, key) => {
            if (key.k === 'const') seen.push(key.v);
            return this.bind(this.withDefault(s2, this.getProp(s2, v, key), el.initializer, scope), (s3, x) => this.bindPattern(el.name, x, s3, scope));
          });
        });
      }
      return outs;
    }
    if (ts.isArrayBindingPattern(name)) {
      let outs = [{ st }];
      name.elements.forEach((el, i) => {
        if (ts.isOmittedExpression(el)) return;
        if (el.dotDotDotToken) { outs = this.bind(outs, (s) => this.bindPattern(el.name, this.sliceFrom(s, v, i), s, scope)); return; }
        outs = this.bind(outs, (s) => this.bind(this.withDefault(s, this.getProp(s, v, T.K(i)), el.initializer, scope), (s3, x) => this.bindPattern(el.name, x, s3, scope)));
      });
      return outs;
    }
    return [{ st: st }];
  }
  restOf(st, v, seen, o) {
    if (!this.opts.shapes) return o;
    const ents = this.spreadEnts(st, v);
    if (!ents.every((e) => (e.t === 'kv' || e.t === 'del') && (e.key.k === 'const' || T.isLit(e.key)))) return o;
    return this.alloc('obj', ents.filter((e) => !(e.key.k === 'const' && seen.includes(e.key.v))), st);
  }
  // the properties of an object of known shape in order, [{key, v}], {split: guard} when that depends on
  // an undecided guard, undefined when the shape is not known
  fields(st, o) {
    o = T.simp(o, st.conds);
    if (o.k !== 'obj' || this.kind(o) !== 'obj') return undefined;
    const m = new Map();
    for (const e of this.entsOf(st, o)) {
      if (e.t !== 'kv' && e.t !== 'del') return undefined;
      const g = e.g && e.g.length ? T.knownConj(e.g, st.conds) : true;
      if (g === false) continue;
      if (g === undefined) return { split: e.g };
      if (e.key.k !== 'const' && !T.isLit(e.key) && !T.isLitStr(e.key)) return undefined;
      const k = e.key.k === 'const' ? T.K(String(e.key.v)) : e.key;
      if (e.t === 'del') m.delete(k); else m.set(k, e.v);
    }
    const list = [...m].map(([key, v]) => ({ key, v }));
    const idx = (f) => f.key.k === 'const' && /^(0|[1-9]\d*)$/.test(f.key.v);
    return list.filter(idx).sort((a, b) => Number(a.key.v) - Number(b.key.v)).concat(list.filter((f) => !idx(f)));
  }
  // states in which fields() of every object reachable from v is decided
  settled(st, v, depth) {
    depth = depth || 0;
    if (depth > 40) return [{ st, v }];
    const out = [];
    for (const l of this.leaves(st, v)) {
      const t = T.simp(l.v, l.st.conds);
      if (t.k !== 'obj') { out.push({ st: l.st, v: t }); continue; }
      const kind = this.kind(t);
      if (kind === 'obj') {
        const f = this.fields(l.st, t);
        if (f && f.split) { for (const b of this.branch(l.st.clone(), this.conjAsTerm(f.split))) out.push(...this.settled(b.st, t, depth + 1)); continue; }
      } else if (kind === 'arr') {
        const g = this.entsOf(l.st, t).find((q) => q.t === 'one' && q.g && q.g.length && T.knownConj(q.g, l.st.conds) === undefined);
        if (g) { for (const b of this.branch(l.st.clone(), this.conjAsTerm(g.g))) out.push(...this.settled(b.st, t, depth + 1)); continue; }
      }
      out.push({ st: l.st, v: t });
    }
    return out;
  }
  conjAsTerm(g) { return T.cond(g, T.true_, T.false_); }
  sliceFrom(st, v, i) {
    v = T.simp(v, st.conds);
    if (this.kind(v) === 'arr') {
      const segs = this.entsOf(st, v);
      if (segs.slice(0, i).every((s) => s.t === 'one' && (!s.g || !s.g.length)) && segs.length >= i) return this.alloc('arr', segs.slice(i), st);
    }
    return T.op('slice', v, T.K(i));
  }
  withDefault(st, v, init, scope) {
    if (!init) return [{ st, v }];
    return this.merge(this.bind(this.branchOn(st, this.eq(v, T.undef, st)), (s, b) => (b === T.true_ ? this.ev(init, s, scope) : [{ st: s, v: T.simp(v, s.conds) }])));
  }
  branchOn(st, v) { return this.branch(st, v).map((r) => ({ st: r.st, v: r.b ? T.true_ : T.false_ })); }

  // ---------- expressions
  ev(node, st, scope) {
    this.tick();
    switch (node.kind) {
      case SK.ParenthesizedExpression: case SK.AsExpression: case SK.NonNullExpression: case SK.TypeAssertionExpression: case SK.SatisfiesExpression === undefined ? -1 : SK.SatisfiesExpression:
        if (node.expression) return this.ev(node.expression, st, scope);
        break;
      case SK.Identifier: return [{ st, v: this.ident(node, st, scope) }];
      case SK.StringLiteral: case SK.NoSubstitutionTemplateLiteral: return [{ st, v: T.K(node.text) }];
      case SK.NumericLiteral: return [{ st, v: T.K(Number(node.text)) }];
      case SK.BigIntLiteral: return [{ st, v: T.K(BigInt(node.text.replace('n', ''))) }];
      case SK.TrueKeyword: return [{ st, v: T.true_ }];
      case SK.FalseKeyword: return [{ st, v: T.false_ }];
      case SK.NullKeyword: return [{ st, v: T.null_ }];
      case SK.ThisKeyword: { const c = this.findCell(scope, 'this'); return [{ st, v: c ? st.vars.get(c) : T.sym('this') }]; }
      case SK.RegularExpressionLiteral: { const m = /^\/(.*)\/([a-z]*)$/s.exec(node.text); return [{ st, v: T.regex(m[1], m[2]) }]; }
      case SK.ArrowFunction: case SK.FunctionExpression: {
        const selfCell = this.findCell(scope, 'this');
        let sc = scope;
        const f = this.closure(node, sc, node.kind === SK.ArrowFunction && selfCell ? st.vars.get(selfCell) : undefined);
        this.fns.get(f).arrow = node.kind === SK.ArrowFunction;
        return [{ st, v: f }];
      }
      case SK.ClassExpression: { const t = T.cls(P.loc(node)); this.clss.set(t, { node, scope }); return [{ st, v: t }]; }
      case SK.TemplateExpression: {
        let outs = [{ st, v: [T.K(node.head.text)] }];
        for (const span of node.templateSpans) outs = this.bind(outs, (s, parts) => this.bind(this.ev(span.expression, s, scope), (s2, x) => [{ st: s2, v: parts.concat([this.str(s2, x), T.K(span.literal.text)]) }]));
        return this.bind(outs, (s, parts) => [{ st: s, v: T.concat(parts) }]);
      }
      case SK.ObjectLiteralExpression: return this.evObject(node, st, scope);
      case SK.ArrayLiteralExpression: {
        let outs = [{ st, v: [] }];
        for (const el of node.elements) {
          outs = this.bind(outs, (s, segs) => {
            if (ts.isOmittedExpression(el)) return [{ st: s, v: segs.concat([{ t: 'one', v: T.undef }]) }];
            if (ts.isSpreadElement(el)) return this.bind(this.ev(el.expression, s, scope), (s2, x) => [{ st: s2, v: segs.concat(this.segsOf(s2, x)) }]);
            return this.bind(this.ev(el, s, scope), (s2, x) => [{ st: s2, v: segs.concat([{ t: 'one', v: x }]) }]);
          });
        }
        return this.bind(outs, (s, segs) => [{ st: s, v: this.alloc('arr', segs, s, { node }) }]);
      }
      case SK.PropertyAccessExpression: return this.evAccess(node, st, scope);
      case SK.ElementAccessExpression: return this.evAccess(node, st, scope);
      case SK.CallExpression: return this.evCall(node, st, scope);
      case SK.NewExpression: return this.evNew(node, st, scope);
      case SK.ConditionalExpression:
        return this.merge(this.bind(this.ev(node.condition, st, scope), (s, c) => this.bind(this.branchOn(s, c), (s2, b) => this.ev(b === T.true_ ? node.whenTrue : node.whenFalse, s2, scope))));
      case SK.BinaryExpression: return this.evBinary(node, st, scope);
      case SK.PrefixUnaryExpression: {
        if (node.operator === SK.PlusPlusToken || node.operator === SK.MinusMinusToken) return this.assignOp(node.operand, st, scope, (s, old) => [{ st: s, v: this.arith(node.operator === SK.PlusPlusToken ? '+' : '-', old, T.K(1), s) }], false);
        return this.bind(this.ev(node.operand, st, scope), (s, v) => {
          if (node.operator === SK.ExclamationToken) return [{ st: s, v: this.not(this.boolVal(s, v)) }];
          if (node.operator === SK.MinusToken) return [{ st: s, v: v.k === 'const' && typeof v.v === 'number' ? T.K(-v.v) : T.op('neg', v) }];
          if (node.operator === SK.PlusToken) return [{ st: s, v: v.k === 'const' ? T.K(Number(v.v)) : T.op('tonumber', v) }];
          return [{ st: s, v: T.op('~', v) }];
        });
      }
      case SK.PostfixUnaryExpression: return this.assignOp(node.operand, st, scope, (s, old) => [{ st: s, v: this.arith(node.operator === SK.PlusPlusToken ? '+' : '-', old, T.K(1), s) }], true);
      case SK.TypeOfExpression: return this.bind(this.ev(node.expression, st, scope), (s, v) => [{ st: s, v: this.typeOf(s, v) }]);
      case SK.VoidExpression: return this.bind(this.ev(node.expression, st, scope), (s) => [{ st: s, v: T.undef }]);
      case SK.AwaitExpression: return this.bind(this.ev(node.expression, st, scope), (s, v) => { const r = this.awaitValue(s, v, node); if (this.opts.onResume) for (const o of r) this.opts.onResume(o.st); return r; });
      case SK.DeleteExpression: return this.evDelete(node.expression, st, scope);
      case SK.SpreadElement: return this.ev(node.expression, st, scope);
      case SK.TaggedTemplateExpression: return [{ st, v: this.unknown('tagged template', node) }];
      case SK.SuperKeyword: return [{ st, v: T.sym('super') }];
      default:
    }
    return [{ st, v: this.unknown('expression ' + SK[node.kind], node) }];
  }
  str(st, x) { x = T.simp(x, st.conds); return x.k === 'const' ? T.K(String(x.v)) : x; }
  typeOf(st, v) {
    v = T.simp(v, st.conds);
    if (v.k === 'const') return T.K(typeofConst(v.v));
    if (v.k === 'cond') return T.cond(v.g, this.typeOf(st, v.a), this.typeOf(st, v.b));
    if (v.k === 'fn' || v.k === 'nat' || v.k === 'cls') return T.K('function');
    if (v.k === 'obj' || v.k === 'regex' || v.k === 'ns') return T.K('object');
    if (v.k === 'op' && (v.op === 'concat' || v.op === 'json')) return T.K('string');
    if (T.isLit(v)) return T.K(T.litType(v));
    if (T.isNum(v)) return T.K('number');
    return T.op('typeof', v);
  }
  evObject(node, st, scope) {
    let outs = [{ st, v: [] }];
    for (const p of node.properties) {
      outs = this.bind(outs, (s, ents) => {
        if (ts.isSpreadAssignment(p)) return this.bind(this.ev(p.expression, s, scope), (s2, x) => [{ st: s2, v: ents.concat(this.spreadEnts(s2, x)) }]);
        if (ts.isShorthandPropertyAssignment(p)) return [{ st: s, v: ents.concat([{ t: 'kv', key: T.K(p.name.text), v: this.ident(p.name, s, scope) }]) }];
        if (ts.isPropertyAssignment(p)) return this.bind(this.propName(p.name, s, scope), (s1, key) => this.bind(this.ev(p.initializer, s1, scope), (s2, x) => [{ st: s2, v: ents.concat([{ t: 'kv', key, v: x }]) }]));
        if (ts.isMethodDeclaration(p)) return this.bind(this.propName(p.name, s, scope), (s1, key) => [{ st: s1, v: ents.concat([{ t: 'kv', key, v: this.closure(p, scope, undefined) }]) }]);
        if (ts.isGetAccessor(p)) return this.bind(this.propName(p.name, s, scope), (s1, key) => this.bind(this.callValue(this.closure(p, scope, undefined), T.undef, [], s1, p), (s2, x) => [{ st: s2, v: ents.concat([{ t: 'kv', key, v: x }]) }]));
        return [{ st: s, v: ents.concat([{ t: 'unknown' }]) }];
      });
    }
    return this.bind(outs, (s, ents) => [{ st: s, v: this.alloc('obj', this.dedupe(ents), s, { node }) }]);
  }
  dedupe(ents) { // later unguarded constant key overrides an earlier one when nothing unknown lies between
    return ents;
  }
  propName(n, st, scope) {
    if (ts.isComputedPropertyName(n)) return this.ev(n.expression, st, scope);
    if (ts.isNumericLiteral(n)) return [{ st, v: T.K(String(Number(n.text))) }];
    return [{ st, v: T.K(n.text) }];
  }
  // entries contributed by spreading x into an object
  spreadEnts(st, x) {
    x = T.simp(x, st.conds);
    if (x.k === 'const') return typeof x.v === 'string' && x.v ? [{ t: 'unknown' }] : [];
    if (x.k === 'cond') {
      const a = this.spreadEnts(st, x.a).map((e) => Object.assign({}, e, { g: x.g.concat(e.g || []) }));
      const ng = this.negConj(x.g);
      const b = this.spreadEnts(st, x.b).map((e) => Object.assign({}, e, { g: ng.concat(e.g || []) }));
      return a.concat(b);
    }
    if (x.k === 'obj' && (this.kind(x) === 'obj')) return this.entsOf(st, x).slice();
    return [{ t: 'spread', v: x }];
  }
  nullGuard(st, b, node, f) { // property access on b: TypeError when b is certainly nullish
    const r = [];
    b = T.simp(b, st.conds);
    if (b.k === 'cond' && this.hasNullLeaf(b)) {
      for (const { st: s, v } of this.leaves(st, b)) { if (T.isNullishC(v)) { if (process.env.VERIF_TE) console.error('TypeError', P.loc(node), node.getText().slice(0, 80)); r.push({ st: s, ex: T.sym('TypeError') }); } else r.push(...f(s, v)); }
      return this.merge(r);
    }
    if (T.isNullishC(b)) { if (process.env.VERIF_TE) console.error('TypeError', node && P.loc(node), node && node.getText().slice(0, 80)); return [{ st, ex: T.sym('TypeError') }]; }
    return f(st, b);
  }
  hasNullLeaf(v) { return v.k === 'cond' ? this.hasNullLeaf(v.a) || this.hasNullLeaf(v.b) : T.isNullishC(v); }
  evAccess(node, st, scope) {
    const r = this.evChain(node, st, scope);
    return this.merge(r.map((o) => (o.ex ? o : { st: o.st, v: o.short ? T.undef : o.v })));
  }
  // evaluates an access/call chain; outcomes may be marked short (optional chain short-circuited)
  evChain(node, st, scope, wantRef) {
    if (ts.isParenthesizedExpression(node) || ts.isNonNullExpression(node) || ts.isAsExpression(node)) {
      return this.evChain(node.expression, st, scope, wantRef);
    }
    if (ts.isPropertyAccessExpression(node) || ts.isElementAccessExpression(node)) {
      if (node.expression.kind === SK.SuperKeyword) return [{ st, v: T.sym('super.' + (node.name ? node.name.text : '?')) }];
      const out = [];
      for (const o of this.evChain(node.expression, st, scope)) {
        if (o.ex || o.short) { out.push(o.short && !(node.questionDotToken || this.inChain(node)) ? { st: o.st, ex: T.sym('TypeError') } : o); continue; }
        const starts = [];
        if (node.questionDotToken) {
          for (const b of this.branch(o.st, this.nullish(o.v, o.st))) { if (b.b) out.push({ st: b.st, v: T.undef, short: true }); else starts.push({ st: b.st, v: T.simp(o.v, b.st.conds) }); }
        } else starts.push(o);
        for (const s of starts) {
          const keyOuts = ts.isPropertyAccessExpression(node) ? [{ st: s.st, v: T.K(node.name.text) }] : this.ev(node.argumentExpression, s.st, scope);
          for (const k of keyOuts) {
            if (k.ex) { out.push(k); continue; }
            out.push(...this.nullGuard(k.st, s.v, node, (s2, b) => {
              if (wantRef) return [{ st: s2, v: b, key: k.v, ref: true }];
              const g = this.getter(s2, b, k.v);
              if (g) return this.callValue(g, b, [], s2, node);
              return [{ st: s2, v: this.getProp(s2, b, k.v, node) }];
            }));
          }
        }
      }
      return out;
    }
    if (ts.isCallExpression(node)) return this.evCallChain(node, st, scope);
    return this.ev(node, st, scope);
  }
  inChain(node) { return (node.flags & ts.NodeFlags.OptionalChain) !== 0; }
  getter(st, b, key) {
    if (b.k !== 'obj' || key.k !== 'const') return undefined;
    const info = this.objs.get(b.id);
    if (!info.cls) return undefined;
    const m = this.findMethod(info.cls, String(key.v));
    if (m && ts.isGetAccessor(m.node)) return this.closure(m.node, m.scope, b, m.cls);
    return undefined;
  }
  evCall(node, st, scope) {
    const r = this.evCallChain(node, st, scope);
    return this.merge(r.map((o) => (o.ex ? o : { st: o.st, v: o.short ? T.undef : o.v })));
  }
  evArgs(args, st, scope) {
    let outs = [{ st, v: [] }];
    for (const a of args) {
      outs = this.bind(outs, (s, list) => {
        if (ts.isSpreadElement(a)) return this.bind(this.ev(a.expression, s, scope), (s2, x) => {
          x = T.simp(x, s2.conds);
          if (this.kind(x) === 'arr') { const segs = this.entsOf(s2, x); if (segs.every((q) => q.t === 'one' && (!q.g || !q.g.length))) return [{ st: s2, v: list.concat(segs.map((q) => q.v)) }]; }
          return [{ st: s2, v: list.concat([{ spread: x }]) }];
        });
        return this.bind(this.ev(a, s, scope), (s2, x) => [{ st: s2, v: list.concat([x]) }]);
      });
    }
    return outs;
  }
  evCallChain(node, st, scope) {
    let callee = node.expression;
    while (ts.isParenthesizedExpression(callee) || ts.isNonNullExpression(callee) || ts.isAsExpression(callee) || callee.kind === SK.TypeAssertionExpression) callee = callee.expression;
    if (callee.kind === SK.SuperKeyword) return this.bind(this.evArgs(node.arguments, st, scope), (s, args) => [{ st: s, v: T.undef }]);
    if (callee.kind === SK.ImportKeyword) return this.bind(this.evArgs(node.arguments, st, scope), (s, args) => (this.opts.extFirst && this.opts.ext(this, s, T.ext('global', 'import()'), undefined, args, node)) || this.opaqueCall(s, T.ext('global', 'import()'), undefined, args, node));
    const out = [];
    if (ts.isPropertyAccessExpression(callee) || ts.isElementAccessExpression(callee)) {
      for (const o of this.evChain(callee, st, scope, true)) {
        if (o.ex || o.short) { out.push(o); continue; }
        if (!o.ref) { out.push(...this.bind(this.evArgs(node.arguments, o.st, scope), (s, args) => this.callValue(o.v, undefined, args, s, node))); continue; }
        let starts = [o];
        if (node.questionDotToken) {
          starts = [];
          const f = this.getProp(o.st, o.v, o.key, callee);
          for (const b of this.branch(o.st, this.nullish(f, o.st))) { if (b.b) out.push({ st: b.st, v: T.undef, short: true }); else starts.push(Object.assign({}, o, { st: b.st })); }
        }
        for (const q of starts) out.push(...this.bind(this.evArgs(node.arguments, q.st, scope), (s, args) => this.callMethod(s, q.v, q.key, args, node)));
      }
      return this.merge(out.filter((o) => !o.short)).concat(out.filter((o) => o.short));
    }
    for (const o of this.ev(callee, st, scope)) {
      if (o.ex) { out.push(o); continue; }
      let starts = [o];
      if (node.questionDotToken) {
        starts = [];
        for (const b of this.branch(o.st, this.nullish(o.v, o.st))) { if (b.b) out.push({ st: b.st, v: T.undef, short: true }); else starts.push({ st: b.st, v: T.simp(o.v, b.st.conds) }); }
      }
      for (const q of starts) out.push(...this.bind(this.evArgs(node.arguments, q.st, scope), (s, args) => this.callValue(q.v, undefined, args, s, node)));
    }
    return out;
  }
  evNew(node, st, scope) {
    return this.bind(this.ev(node.expression, st, scope), (s, c) => this.bind(this.evArgs(node.arguments || [], s, scope), (s2, args) => this.construct(s2, c, args, node)));
  }
  construct(st, c, args, node) {
    if (c.k === 'cls') return this.instantiate(st, c, args, node);
    const u = this.opts.construct && this.opts.construct(this, st, c, args, node);
    if (u) return u;
    const m = this.models.construct(this, st, c, args, node);
    if (m) return m;
    return this.opaqueCall(st, T.op('new', c), undefined, args, node, { pure: c.k === 'ext' });
  }
  instantiate(st, c, args, node) {
    const info = this.clss.get(c);
    const o = this.alloc('obj', [], st, { node, cls: c });
    const scope = this.newScope(info.scope);
    this.declare(scope, 'this', st, o);
    let outs = [{ st }];
    for (const m of info.node.members) {
      if (ts.isPropertyDeclaration(m) && m.initializer) outs = this.bind(outs, (s) => this.bind(this.ev(m.initializer, s, scope), (s2, v) => this.setProp(s2, o, T.K(m.name.getText()), v, m)));
    }
    const ctor = info.node.members.find((m) => ts.isConstructorDeclaration(m) && m.body);
    const heritage = info.node.heritageClauses && info.node.heritageClauses.find((h) => h.token === SK.ExtendsKeyword);
    if (heritage) this.objs.get(o.id).proto = undefined, this.objs.get(o.id).extendsName = heritage.types[0].expression.getText();
    if (ctor) {
      outs = this.bind(outs, (s) => {
        const f = this.closure(ctor, scope, o, c);
        return this.callValue(f, o, args, s, node);
      });
    }
    return this.bind(outs, (s) => [{ st: s, v: o }]);
  }
  arith(op, a, b, st) {
    a = T.simp(a, st.conds); b = T.simp(b, st.conds);
    if (a.k === 'const' && b.k === 'const') {
      try {
        switch (op) {
          case '+': return T.K(a.v + b.v); case '-': return T.K(a.v - b.v); case '*': return T.K(a.v * b.v); case '/': return T.K(a.v / b.v); case '%': return T.K(a.v % b.v);
          case '<': return T.K(a.v < b.v); case '<=': return T.K(a.v <= b.v); case '>': return T.K(a.v > b.v); case '>=': return T.K(a.v >= b.v);
          case '**': return T.K(a.v ** b.v);
          default:
        }
      } catch (e) { /* fall through */ }
    }
    if (op === '+') {
      const isStr = (x) => (x.k === 'const' && typeof x.v === 'string') || (x.k === 'op' && x.op === 'concat');
      if (isStr(a) || isStr(b)) return T.concat([this.str(st, a), this.str(st, b)]);
    }
    if (op === '>') return this.cmp('<', b, a);
    if (op === '<=') return this.not(this.cmp('<', b, a));
    if (op === '>=') return this.not(this.cmp('<', a, b));
    if (op === '<') return this.cmp('<', a, b);
    return T.op(op, a, b);
  }
  cmp(op, a, b) {
    // 0 < len(x)  is  len(x) !== 0
    return T.op(op, a, b);
  }
  evBinary(node, st, scope) {
    const op = node.operatorToken.kind;
    switch (op) {
      case SK.CommaToken: return this.bind(this.ev(node.left, st, scope), (s) => this.ev(node.right, s, scope));
      case SK.AmpersandAmpersandToken:
        return this.merge(this.bind(this.ev(node.left, st, scope), (s, a) => this.bind(this.branchOn(s, a), (s2, b) => (b === T.true_ ? this.ev(node.right, s2, scope) : [{ st: s2, v: T.simp(a, s2.conds) }]))));
      case SK.BarBarToken:
        return this.merge(this.bind(this.ev(node.left, st, scope), (s, a) => this.bind(this.branchOn(s, a), (s2, b) => (b === T.false_ ? this.ev(node.right, s2, scope) : [{ st: s2, v: T.simp(a, s2.conds) }]))));
      case SK.QuestionQuestionToken:
        return this.merge(this.bind(this.ev(node.left, st, scope), (s, a) => this.bind(this.branchOn(s, this.nullish(a, s)), (s2, b) => (b === T.true_ ? this.ev(node.right, s2, scope) : [{ st: s2, v: T.simp(a, s2.conds) }]))));
      case SK.EqualsToken: return this.assign(node.left, node.right, st, scope);
      default:
    }
    const compound = { [SK.PlusEqualsToken]: '+', [SK.MinusEqualsToken]: '-', [SK.AsteriskEqualsToken]: '*', [SK.SlashEqualsToken]: '/' }[op];
    if (compound) return this.assignOp(node.left, st, scope, (s, old) => this.bind(this.ev(node.right, s, scope), (s2, r) => [{ st: s2, v: this.arith(compound, old, r, s2) }]), false);
    if (op === SK.QuestionQuestionEqualsToken || op === SK.BarBarEqualsToken || op === SK.AmpersandAmpersandEqualsToken) {
      return this.merge(this.bind(this.ev(node.left, st, scope), (s, old) => {
        const test = op === SK.QuestionQuestionEqualsToken ? this.nullish(old, s) : op === SK.BarBarEqualsToken ? this.not(this.boolVal(s, old)) : old;
        return this.bind(this.branchOn(s, test), (s2, b) => (b === T.true_ ? this.assign(node.left, node.right, s2, scope) : [{ st: s2, v: T.simp(old, s2.conds) }]));
      }));
    }
    return this.bind(this.ev(node.left, st, scope), (s, a) => this.bind(this.ev(node.right, s, scope), (s2, b) => {
      switch (op) {
        case SK.EqualsEqualsEqualsToken: return [{ st: s2, v: this.eq(a, b, s2) }];
        case SK.ExclamationEqualsEqualsToken: return [{ st: s2, v: this.not(this.eq(a, b, s2)) }];
        case SK.EqualsEqualsToken: case SK.ExclamationEqualsToken: {
          let r;
          if (T.isNullishC(b)) r = this.nullish(a, s2); else if (T.isNullishC(a)) r = this.nullish(b, s2); else r = this.eq(a, b, s2);
          return [{ st: s2, v: op === SK.EqualsEqualsToken ? r : this.not(r) }];
        }
        case SK.InKeyword: return [{ st: s2, v: this.has(s2, b, a) }];
        case SK.InstanceOfKeyword: return [{ st: s2, v: this.instanceOf(s2, a, b) }];
        default: {
          const txt = ts.tokenToString(op);
          return [{ st: s2, v: this.arith(txt, a, b, s2) }];
        }
      }
    }));
  }
  instanceOf(st, a, b) {
    a = T.simp(a, st.conds);
    if (a.k === 'cond') return T.cond(a.g, this.instanceOf(st, a.a, b), this.instanceOf(st, a.b, b));
    if (a.k === 'const') return T.false_;
    if (a.k === 'obj' && this.objs.get(a.id).cls === b) return T.true_;
    if (a.k === 'obj' && this.objs.get(a.id).error && b.k === 'ext' && b.m === 'global' && b.p === 'Error') return T.true_;
    return T.op('instanceof', a, b);
  }
  assign(target, rhs, st, scope) {
    while (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target) || ts.isAsExpression(target)) target = target.expression;
    if (ts.isIdentifier(target)) return this.bind(this.ev(rhs, st, scope), (s, v) => this.assignVar(target, v, s, scope));
    if (ts.isPropertyAccessExpression(target) || ts.isElementAccessExpression(target)) {
      return this.bind(this.ev(target.expression, st, scope), (s, b) => {
        const keyOuts = ts.isPropertyAccessExpression(target) ? [{ st: s, v: T.K(target.name.text) }] : this.ev(target.argumentExpression, s, scope);
        return this.bind(keyOuts, (s1, key) => this.bind(this.ev(rhs, s1, scope), (s2, v) => this.setProp(s2, b, key, v, target)));
      });
    }
    if (ts.isArrayLiteralExpression(target)) return this.bind(this.ev(rhs, st, scope), (s, v) => {
      let outs = [{ st: s }];
      target.elements.forEach((el, i) => { if (ts.isIdentifier(el)) outs = this.bind(outs, (s2) => this.assignVar(el, this.getProp(s2, v, T.K(i)), s2, scope)); });
      return this.bind(outs, (s2) => [{ st: s2, v }]);
    });
    if (ts.isObjectLiteralExpression(target)) return this.bind(this.ev(rhs, st, scope), (s, v) => {
      let outs = [{ st: s }];
      for (const p of target.properties) {
        if (ts.isShorthandPropertyAssignment(p)) outs = this.bind(outs, (s2) => this.assignVar(p.name, this.getProp(s2, v, T.K(p.name.text)), s2, scope));
        else if (ts.isPropertyAssignment(p) && ts.isIdentifier(p.initializer)) outs = this.bind(outs, (s2) => this.assignVar(p.initializer, this.getProp(s2, v, T.K(p.name.text)), s2, scope));
      }
      return this.bind(outs, (s2) => [{ st: s2, v }]);
    });
    return this.bind(this.ev(rhs, st, scope), (s) => [{ st: s, v: this.unknown('assignment target', target) }]);
  }
  assignVar(id, v, st, scope) {
    const c = this.findCell(scope, id.text);
    if (c) { st.vars.set(c, v); return [{ st, v }]; }
    let sym = this.checker.getSymbolAtLocation(id);
    const d = sym && sym.valueDeclaration;
    if (d) { st.vars.set('mod:' + this.modKey(d), v); st.event({ t: 'modset', decl: d, v, node: id }); }
    return [{ st, v }];
  }
  assignOp(target, st, scope, f, post) {
    return this.bind(this.ev(target, st, scope), (s, old) => this.bind(f(s, old), (s2, v) => {
      let t = target;
      while (ts.isParenthesizedExpression(t) || ts.isNonNullExpression(t)) t = t.expression;
      if (ts.isIdentifier(t)) return this.bind(this.assignVar(t, v, s2, scope), (s3) => [{ st: s3, v: post ? old : v }]);
      if (ts.isPropertyAccessExpression(t) || ts.isElementAccessExpression(t)) {
        return this.bind(this.ev(t.expression, s2, scope), (s3, b) => {
          const ko = ts.isPropertyAccessExpression(t) ? [{ st: s3, v: T.K(t.name.text) }] : this.ev(t.argumentExpression, s3, scope);
          return this.bind(ko, (s4, key) => this.bind(this.setProp(s4, b, key, v, t), (s5) => [{ st: s5, v: post ? old : v }]));
        });
      }
      return [{ st: s2, v: this.unknown('assignment target', t) }];
    }));
  }
  evDelete(target, st, scope) {
    while (ts.isParenthesizedExpression(target) || ts.isNonNullExpression(target)) target = target.expression;
    if (!ts.isPropertyAccessExpression(target) && !ts.isElementAccessExpression(target)) return [{ st, v: T.true_ }];
    return this.bind(this.ev(target.expression, st, scope), (s, b) => {
      const ko = ts.isPropertyAccessExpression(target) ? [{ st: s, v: T.K(target.name.text) }] : this.ev(target.argumentExpression, s, scope);
      return this.bind(ko, (s1, key) => this.deleteProp(s1, b, key, target));
    });
  }
  deleteProp(st, b, key, node) {
    const out = [];
    for (const { st: s, v } of this.leaves(st, b)) {
      const ents = this.entsOf(s, v) || [];
      if (v.k !== 'obj') s.event({ t: 'delete', base: v, key, node });
      else if (this.watch && this.watch(v)) s.event({ t: 'delete', base: v, key, node });
      s.ents.set(v, ents.concat([{ t: 'del', key }]));
      out.push({ st: s, v: T.true_ });
    }
    return out;
  }

  // ---------- calls
  callValue(fn, self, args, st, node) {
    fn = T.simp(fn, st.conds);
    if (fn.k === 'cond') {
      const r = [];
      for (const { st: s, v } of this.leaves(st, fn)) r.push(...this.callValue(v, self, args, s, node));
      return this.merge(r);
    }
    if (fn.k === 'const') { if (process.env.VERIF_TE) console.error('TypeError call', node && P.loc(node)); return [{ st, ex: T.sym('TypeError') }]; }
    if (fn.k === 'fn') return this.callClosure(fn, self, args, st, node);
    if (fn.k === 'nat') return this.merge(this.nats.get(fn)(st, self, args, node));
    if (fn.k === 'ext') return this.models.callExt(this, st, fn, self, args, node);
    if (fn.k === 'op' && fn.op === 'bind') return this.callValue(fn.a[0], fn.a[1], fn.a.slice(2).concat(args), st, node);
    return this.opaqueCall(st, fn, self, args, node);
  }
  callClosure(fn, self, args, st, node) {
    const info = this.fns.get(fn);
    const d = info.node;
    if (!d.body) return this.opaqueCall(st, fn, self, args, node);
    if (this.opts.opaque(fn, this.fnName(fn), info, args, st)) return this.opaqueCall(st, fn, undefined, args, node, { pure: true });
    const same = this.stack.map((x, i) => x === fn ? i : -1).filter((i) => i >= 0);
    // recursion over constants (an index, a name) is followed while the constants change
    const consts = (as) => as.map((a) => (!a.spread && a.k === 'const' ? T.show(a) : '?')).join('|');
    const fresh = same.length < 30 && args.some((a) => !a.spread && a.k === 'const') && !same.some((i) => consts(this.stackArgs[i]) === consts(args));
    const depth = fresh ? 0 : same.length;
    const hof = args.some((a) => !a.spread && (a.k === 'fn' || a.k === 'nat'));
    if (depth > (this.opts.recDepth || (hof ? 3 : 0)) || this.stack.length > 200) {
      if (this.opts.rec === 'abort') throw new Abort(`unbounded recursion of ${this.fnName(fn)}`);
      const a2 = info.cls && self && self.k === 'obj' ? args : args;
      return this.opaqueCall(st, fn, undefined, a2, node, { pure: true, rec: true });
    }
    if (d.asteriskToken) return [{ st, v: this.unknown('generator', d) }];
    this.analysed.add(d);
    const isAsync = (d.modifiers || []).some((m) => m.kind === SK.AsyncKeyword);
    const scope = this.newScope(info.scope);
    const thisV = info.arrow || d.kind === SK.ArrowFunction ? undefined : info.self || self || T.undef;
    if (thisV) this.declare(scope, 'this', st, thisV);
    if (d.kind === SK.FunctionExpression && d.name) this.declare(scope, d.name.text, st, fn);
    const tryD = st.tryD;
    if (isAsync) st.tryD++;
    this.stack.push(fn); this.stackArgs.push(args);
    let outs = [{ st }];
    try {
      let i = 0;
      const spreadAt = args.findIndex((a) => a.spread);
      for (const p of d.parameters) {
        if (ts.isIdentifier(p.name) && p.name.text === 'this') continue;
        const idx = i++;
        outs = this.bind(outs, (s) => {
          if (p.dotDotDotToken) {
            const segs = [];
            for (const a of args.slice(idx)) { if (a.spread) segs.push(...this.segsOf(s, a.spread)); else segs.push({ t: 'one', v: a }); }
            return this.bindPattern(p.name, this.alloc('arr', segs, s), s, scope);
          }
          let v;
          if (spreadAt >= 0 && idx >= spreadAt) v = idx === spreadAt ? this.getProp(s, args[spreadAt].spread, T.K(0)) : this.getProp(s, args[spreadAt].spread, T.K(idx - spreadAt));
          else v = idx < args.length ? args[idx] : T.undef;
          return this.bind(this.withDefault(s, v, p.initializer, scope), (s2, x) => {
            if (ts.isParameter(p) && p.modifiers && p.modifiers.length && thisV) this.setProp(s2, thisV, T.K(p.name.text), x, p);
            return this.bindPattern(p.name, x, s2, scope);
          });
        });
      }
      if (ts.isBlock(d.body)) {
        outs = this.bind(outs, (s) => this.exec(d.body, s, scope, true).map((o) => {
          if (o.c === 'throw') return { st: o.st, ex: o.v };
          if (o.c === 'return') return { st: o.st, v: o.v };
          return { st: o.st, v: T.undef };
        }));
      } else outs = this.bind(outs, (s) => this.ev(d.body, s, scope));
    } finally { this.stack.pop(); this.stackArgs.pop(); }
    if (isAsync) {
      const res = [];
      for (const o of outs) {
        o.st.tryD = tryD;
        if (o.ex) { res.push({ st: o.st, v: this.newPromise(o.st, T.op('rej', o.ex)) }); continue; }
        for (const l of this.leaves(o.st, o.v)) {
          if (this.kind(l.v) === 'promise') res.push(l);
          else if (this.maybePromise(l.v)) res.push({ st: l.st, v: this.newPromise(l.st, T.op('adopt', l.v)) });
          else res.push({ st: l.st, v: this.newPromise(l.st, T.op('ful', l.v)) });
        }
      }
      return this.merge(res);
    }
    return this.merge(outs);
  }
  maybePromise(v) { return !(this.opts.notPromise && this.opts.notPromise(v)) && (v.k === 'call' || v.k === 'prop' || v.k === 'sym' || v.k === 'item' || v.k === 'loopvar'); }
  escapeArgs(st, args, res) {
    const seen = new Set();
    const visit = (v, i, d) => {
      if (!v || seen.has(v)) return;
      seen.add(v);
      if (v.k === 'fn' || v.k === 'nat') st.esc = st.esc.concat([{ fn: v, call: res, i }]);
      else if (v.k === 'cond') { visit(v.a, i, d); visit(v.b, i, d); } else if (v.k === 'obj' && d < 2) for (const e of this.entsOf(st, v) || []) if (e.v) visit(e.v, i, d + 1);
    };
    args.forEach((a, i) => visit(a.spread || a, i, 0));
  }
  snapshot(st, args) {
    const m = new Map();
    const visit = (v, d) => {
      if (!v || d > 6) return;
      if (v.k === 'cond') { visit(v.a, d); visit(v.b, d); return; }
      if (v.k === 'call') { v.args.forEach((a) => visit(a.spread || a, d + 1)); return; }
      const e = this.entsOf(st, v);
      if (!e || m.has(v)) return;
      m.set(v, e);
      const ve = (x) => { if (x.v) visit(x.v, d + 1); if (x.segs) x.segs.forEach(ve); if (x.ents) x.ents.forEach(ve); };
      e.forEach(ve);
    };
    args.forEach((a) => visit(a.spread || a, 0));
    return m;
  }
  countSame(st, fn, self, args) {
    let n = 0;
    const base = T.call(fn, self, args, 0);
    for (let x = st.ev; x; x = x.prev) if (x.e.t === 'call' && x.e.base === base) n++;
    return n;
  }
  opaqueCall(st, fn, self, args, node, o) {
    o = o || {};
    const pure = o.pure || this.opts.pure(fn, args, node, this);
    const base = T.call(fn, self, args, 0);
    const n = pure ? 0 : this.countSame(st, fn, self, args);
    const res = n ? T.call(fn, self, args, n) : base;
    const mayThrow = !o.noThrow && !o.rec && !(this.opts.noThrow && this.opts.noThrow(fn, self, args)) && (!pure || o.throws) && (this.opts.throwing === 'all' || st.tryD > 0);
    const outs = [];
    if (!pure) st.event({ t: 'call', fn, self, args, res, base, node, snap: this.snapshot(st, args.concat(self ? [self] : [])), tryD: st.tryD });
    this.escapeArgs(st, args, res);
    if (mayThrow) {
      const ta = T.op('throws', res);
      const kn = T.known(ta, st.conds);
      if (kn === true) return [{ st, ex: T.op('exc', res) }];
      if (kn === undefined) {
        const f = st.clone();
        f.assume(T.lit(ta, true));
        st.assume(T.lit(ta, false));
        outs.push({ st: f, ex: T.op('exc', res) });
      }
    }
    outs.unshift({ st, v: res });
    return outs;
  }
  callMethod(st, b, key, args, node) {
    b = T.simp(b, st.conds);
    if (b.k === 'cond') {
      // distribute over the alternatives
      const r = [];
      for (const { st: s, v } of this.leaves(st, b)) r.push(...this.callMethod(s, v, key, args, node));
      return this.merge(r);
    }
    key = T.simp(key, st.conds);
    if (key.k === 'cond') {
      const r = [];
      for (const { st: s, v } of this.leaves(st, key)) r.push(...this.callMethod(s, b, v, args, node));
      return this.merge(r);
    }
    if (T.isNullishC(b)) { if (process.env.VERIF_TE) console.error('TypeError', node && P.loc(node), node && node.getText().slice(0, 80)); return [{ st, ex: T.sym('TypeError') }]; }
    if (key.k === 'const') {
      const m = this.models.method(this, st, b, String(key.v), args, node);
      if (m) return m;
    }
    const f = this.getProp(st, b, key, node);
    const fl = T.simp(f, st.conds);
    if (fl.k === 'cond' || fl.k === 'fn' || fl.k === 'nat' || fl.k === 'ext' || fl.k === 'const') return this.callValue(fl, b, args, st, node);
    if (key.k === 'const') {
      const m = this.models.opaqueMethod(this, st, b, String(key.v), args, node, fl);
      if (m) return m;
    }
    return this.opaqueCall(st, fl, b, args, node);
  }

  // ---------- promises
  newPromise(st, rec) { const p = this.alloc('promise', [], st); st.vars.set('prom:' + p.id, rec); return p; }
  promState(st, p) { return T.simp(st.vars.get('prom:' + p.id), st.conds); }
  resolvePromise(st, p, v) {
    if (this.promState(st, p).op !== 'pend') return;
    v = T.simp(v, st.conds);
    if (this.kind(v) === 'promise') st.vars.set('prom:' + p.id, T.op('adopt', v));
    else if (this.maybePromise(v)) st.vars.set('prom:' + p.id, T.op('adopt', v));
    else st.vars.set('prom:' + p.id, T.op('ful', v));
  }
  rejectPromise(st, p, v) { if (this.promState(st, p).op === 'pend') st.vars.set('prom:' + p.id, T.op('rej', v)); }
  awaitValue(st, v, node, fuel) {
    fuel = fuel === undefined ? 6 : fuel;
    v = T.simp(v, st.conds);
    if (v.k === 'cond') { const r = []; for (const l of this.leaves(st, v)) r.push(...this.awaitValue(l.st, l.v, node, fuel)); return this.merge(r); }
    if (this.kind(v) === 'promise') {
      const rec = this.promState(st, v);
      if (rec.k === 'cond') { const r = []; for (const l of this.leaves(st, rec)) r.push(...this.awaitValue(l.st, v, node, fuel)); return this.merge(r); }
      if (rec.op === 'ful') return [{ st, v: rec.a[0] }];
      if (rec.op === 'rej') return [{ st, ex: rec.a[0] }];
      if (rec.op === 'adopt') return this.awaitValue(st, rec.a[0], node, fuel);
      return this.awaitPending(st, v, node, fuel);
    }
    if (v.k === 'obj' || v.k === 'const' || v.k === 'fn' || v.k === 'nat' || v.k === 'regex') return [{ st, v }];
    if (v.k === 'op' && (v.op === 'awaited' || v.op === 'concat')) return [{ st, v }];
    if (this.opts.notPromise && this.opts.notPromise(v)) return [{ st, v }];
    const res = T.op('awaited', v);
    if (st.tryD > 0 || this.opts.throwing === 'all') {
      const at = T.op('rejects', v);
      const kn = T.known(at, st.conds);
      if (kn === true) return [{ st, ex: T.op('rejected', v) }];
      if (kn === false) return [{ st, v: res }];
      const f = st.clone();
      st.assume(T.lit(at, false)); f.assume(T.lit(at, true));
      return [{ st, v: res }, { st: f, ex: T.op('rejected', v) }];
    }
    return [{ st, v: res }];
  }
  awaitPending(st, p, node, fuel) {
    if (fuel <= 0) return [];
    // reactions registered so far
    const ready = st.pend.findIndex((r) => this.reactionReady(st, r));
    if (ready >= 0) {
      const r = st.pend[ready];
      st.pend = st.pend.filter((x) => x !== r);
      const outs = [];
      for (const o of this.runReaction(st, r)) outs.push(...this.awaitValue(o, p, node, fuel - 1));
      return outs;
    }
    // callbacks handed to code we do not see: any of them may be called, with arbitrary arguments
    const outs = [];
    if (!st.esc.length && this.opts.onStuck) this.opts.onStuck(st); // awaits a promise nothing will settle
    st.esc.forEach((e, i) => {
      const s = st.clone();
      s.esc = s.esc.filter((x) => x !== e);
      const info = e.fn.k === 'fn' ? this.fns.get(e.fn) : undefined;
      const n = info ? info.node.parameters.length : 1;
      const args = [];
      for (let j = 0; j < n; j++) args.push(T.op('cbarg', e.call, T.K(e.i), T.K(j)));
      s.event({ t: 'cb', fn: e.fn, call: e.call, args, node });
      for (const o of this.callValue(e.fn, undefined, args, s, node)) outs.push(...this.awaitValue(o.st, p, node, fuel - 1));
    });
    return this.merge(outs);
  }
  reactionReady(st, r) {
    if (this.kind(r.src) !== 'promise') return true;
    const rec = this.promState(st, r.src);
    if (rec.k === 'cond') return true;
    return rec.op !== 'pend';
  }
  // run one reaction: returns states
  runReaction(st, r) {
    const tryD = st.tryD;
    st.tryD = Math.max(1, tryD);
    if (this.opts.onResume) this.opts.onResume(st);
    const outs = [];
    for (const o of this.awaitValue(st, r.src, r.node)) {
      const h = o.ex ? r.onR : r.onF;
      const val = o.ex || o.v;
      if (!h || (h.k === 'const')) { if (o.ex) this.rejectPromise(o.st, r.out, o.ex); else this.resolvePromise(o.st, r.out, o.v); outs.push(o.st); continue; }
      const args = r.fin ? [] : [val];
      for (const q of this.callValue(h, undefined, args, o.st, r.node)) {
        if (q.ex) this.rejectPromise(q.st, r.out, q.ex);
        else if (r.fin) { if (o.ex) this.rejectPromise(q.st, r.out, o.ex); else this.resolvePromise(q.st, r.out, o.v); } else for (const l of this.leaves(q.st, q.v)) { this.resolvePromise(l.st, r.out, l.v); outs.push(l.st); }
        if (q.ex || r.fin) outs.push(q.st);
      }
    }
    for (const s of outs) s.tryD = tryD;
    return outs;
  }
  drain(st, fuel) {
    fuel = fuel === undefined ? 30 : fuel;
    const i = st.pend.findIndex((r) => this.reactionReady(st, r));
    if (i < 0 || fuel <= 0) return [st];
    const r = st.pend[i];
    st.pend = st.pend.filter((x) => x !== r);
    const out = [];
    for (const s of this.runReaction(st, r)) out.push(...this.drain(s, fuel - 1));
    return out;
  }
  then(st, src, onF, onR, node, fin) {
    const out = this.newPromise(st, T.op('pend'));
    st.pend = st.pend.concat([{ src, onF, onR, out, node, fin }]);
    return [{ st, v: out }];
  }

  // ---------- sequences
  segsOf(st, v) {
    v = T.simp(v, st.conds);
    if (v.k === 'cond') {
      const g = (segs, gg) => segs.map((s) => Object.assign({}, s, { g: gg.concat(s.g || []) }));
      return g(this.segsOf(st, v.a), v.g).concat(g(this.segsOf(st, v.b), this.negConj(v.g)));
    }
    if (T.isNullishC(v)) return [];
    const k = this.kind(v);
    if (k === 'arr' || k === 'set') return this.entsOf(st, v);
    if (k === 'map') return this.entsOf(st, v).map((e) => this.entPair(st, e));
    if (v.k === 'const' && typeof v.v === 'string') return [...v.v].map((c) => ({ t: 'one', v: T.K(c) }));
    const item = T.item(v, st.loopD ? this.depthOf(st, v) : 0);
    return [{ t: 'each', src: v, item, segs: [{ t: 'one', v: item }] }];
  }
  entPair(st, e) {
    const one = (x) => (x.t === 'kv' ? { t: 'one', v: this.alloc('arr', [{ t: 'one', v: x.key }, { t: 'one', v: x.v }], st), g: x.g } : x.t === 'each' ? { t: 'each', src: x.src, item: x.item, segs: x.ents.map(one), g: x.g } : { t: 'unknown', g: x.g });
    return one(e);
  }
  depthOf(st, v) { return (st.active || []).filter((x) => x === v).length; }
  keySegs(st, v) {
    v = T.simp(v, st.conds);
    if (v.k === 'cond') {
      const g = (segs, gg) => segs.map((s) => Object.assign({}, s, { g: gg.concat(s.g || []) }));
      return g(this.keySegs(st, v.a), v.g).concat(g(this.keySegs(st, v.b), this.negConj(v.g)));
    }
    if (T.isNullishC(v)) return [];
    if (v.k === 'obj' && (this.kind(v) === 'obj')) {
      const seen = [];
      const conv = (e) => {
        if (e.t === 'kv') return [{ t: 'one', v: e.key, g: e.g }];
        if (e.t === 'spread') { return [Object.assign({}, this.keySegs(st, e.v)[0] || { t: 'unknown' }, { g: e.g, omit: e.omit })]; }
        if (e.t === 'each') return [{ t: 'each', src: e.src, item: e.item, segs: e.ents.flatMap(conv), g: e.g }];
        if (e.t === 'del') return [];
        return [{ t: 'unknown', g: e.g }];
      };
      const segs = [];
      for (const e of this.entsOf(st, v)) {
        if (e.t === 'kv' && e.key.k === 'const') { if (seen.includes(e.key)) continue; if (!e.g || !e.g.length) seen.push(e.key); }
        segs.push(...conv(e));
      }
      return segs;
    }
    // a function has the members it was given
    if (v.k === 'fn' || v.k === 'nat') {
      const own = this.entsOf(st, v) || [];
      if (own.every((x) => x.t === 'kv' && x.key.k === 'const' && !(x.g && x.g.length))) return [...new Set(own.map((x) => x.key))].map((k) => ({ t: 'one', v: k }));
    }
    const src = T.keys(v);
    const item = T.item(src, 0);
    return [{ t: 'each', src, item, segs: [{ t: 'one', v: item }] }];
  }
  // run body over a sequence. body(st, item, index) -> [{st, c?, v?, label?}]
  iterate(st, segs, body, info) {
    let live = [{ st }];
    const done = [];
    let index = 0;
    let exact = true;
    for (const seg of segs) {
      const next = [];
      for (const o of live) {
        let ins = [o.st];
        if (seg.g && seg.g.length) { const sp = this.splitConj(o.st, seg.g); ins = sp.yes; for (const s of sp.no) next.push({ st: s }); exact = false; }
        for (const s of ins) {
          if (seg.t === 'one') {
            for (const r of body(s, seg.v, exact ? T.K(index) : T.top('index'))) this.loopOut(r, next, done);
          } else if (seg.t === 'each') {
            for (const r of this.abstractLoop(s, seg, body, info)) this.loopOut(r, next, done);
          } else { // unknown contents
            const src = T.sym('unknown-seq:' + (seg.id || 0));
            for (const r of this.abstractLoop(s, { t: 'each', src, item: T.item(src), segs: [{ t: 'one', v: T.item(src) }] }, body, info)) this.loopOut(r, next, done);
          }
        }
      }
      if (seg.t === 'one') index++; else exact = false;
      live = this.merge(next);
      this.cap(live);
    }
    return live.concat(done);
  }
  loopOut(r, next, done) {
    if (r.ex) { done.push({ st: r.st, c: 'throw', v: r.ex }); return; }
    if (!r.c || (r.c === 'continue' && !r.label)) next.push({ st: r.st });
    else if (r.c === 'break' && !r.label) done.push({ st: r.st, c: 'broke' });
    else done.push(r);
  }
  abstractLoop(st, seg, body, info) {
    const id = info && info.id ? info.id : 'L' + nextLoop++;
    const src = seg.src;
    const runOnce = (s0) => {
      s0.loopD++;
      s0.active = (s0.active || []).concat([src]);
      let outs;
      if (seg.run) outs = seg.run(s0); else outs = this.iterate(s0, seg.segs, (s, v) => body(s, v, T.idx(src)), info).map((r) => (r.c === 'broke' ? { st: r.st, c: 'break' } : r));
      for (const r of outs) { r.st.loopD = st.loopD; r.st.active = st.active; }
      return outs;
    };
    const cells = new Set(); const heap = new Set();
    let outs;
    let havoced;
    for (let pass = 0; pass < 6; pass++) {
      havoced = st.clone();
      for (const c of cells) havoced.vars.set(c, c.startsWith('prom:') ? st.vars.get(c) : T.loopvar(id, c));
      for (const h of heap) havoced.ents.set(h, (this.entsOf(st, h) || []).concat([{ t: 'prior', id }]));
      outs = runOnce(havoced.clone());
      let grew = false;
      for (const r of outs) {
        for (const [c, v] of r.st.vars) if (st.vars.has(c) && !cells.has(c) && st.vars.get(c) !== v && !c.startsWith('cur:')) { cells.add(c); grew = true; }
        for (const [t, e] of r.st.ents) { const old = this.entsOf(st, t); if ((old || t.k !== 'obj') && !heap.has(t) && old !== e) { heap.add(t); grew = true; } }
      }
      if (!grew) break;
    }
    const nBase = st.conds.length;
    const evs = (r) => r.st.events(st.ev);
    const normal = outs.filter((r) => !r.ex && (!r.c || (r.c === 'continue' && !r.label)));
    const exits = outs.filter((r) => !normal.includes(r));
    const any = outs.some((r) => r.st.ev !== st.ev);
    const summary = { t: 'loop', id, src, item: seg.item, g: seg.g, paths: outs.map((r) => ({ conds: r.st.conds.slice(nBase), events: evs(r), c: r.ex ? 'throw' : r.c })) };
    const res = [];
    const exitGuards = exits.map((r) => r.st.conds.slice(nBase));
    for (const r of exits) {
      const s = r.st;
      if (any) { // keep the iteration's own events, preceded by a marker for earlier iterations
        const own = evs(r);
        s.ev = st.ev;
        s.event(Object.assign({}, summary, { partial: true, paths: summary.paths.filter((p) => !p.c || p.c === 'continue') }));
        for (const e of own) s.event(Object.assign({}, e, { inLoop: id }));
      }
      const g = s.conds.slice(nBase);
      s.conds = s.conds.slice(0, nBase).concat([T.lit(T.op('exists', src, conjTerm(g)), true)], g);
      res.push(Object.assign({}, r, { st: s }));
    }
    // state after the loop
    const after = st.clone();
    for (const g of exitGuards) { const a = T.op('exists', src, conjTerm(g)); if (T.known(a, after.conds) === undefined) after.assume(T.lit(a, false)); }
    const guards = normal.map((r) => r.st.conds.slice(nBase));
    const pickSteps = (f) => {
      let v = f(normal[normal.length - 1]);
      for (let i = normal.length - 2; i >= 0; i--) v = T.cond(guards[i], f(normal[i]), v);
      return v;
    };
    if (normal.length) {
      for (const c of cells) {
        const lv = T.loopvar(id, c);
        const step = pickSteps((r) => r.st.vars.get(c));
        const init = st.vars.get(c);
        if (step === lv) { after.vars.set(c, init); continue; }
        after.vars.set(c, this.foldValue(after, id, c, seg, init, lv, step, normal, guards));
      }
      for (const h of heap) {
        const base = this.entsOf(st, h) || [];
        let ok = true;
        const deltas = [];
        normal.forEach((r, i) => {
          const e = r.st.ents.get(h);
          const before = base.length + 1;
          if (e.length < before || e[before - 1].t !== 'prior' || e[before - 1].id !== id || !base.every((x, j) => e[j] === x)) { ok = false; return; }
          for (const x of e.slice(before)) deltas.push({ g: guards[i], x });
        });
        if (!ok) { after.ents.set(h, base.concat([{ t: 'unknown', id }])); continue; }
        if (!deltas.length) { after.ents.set(h, base); continue; }
        const inner = this.mergeDeltas(normal, guards, deltas);
        const isArr = this.kind(h) === 'arr' || this.kind(h) === 'set';
        after.ents.set(h, base.concat([isArr ? { t: 'each', src, item: seg.item, segs: inner, g: seg.g } : { t: 'each', src, item: seg.item, ents: inner, g: seg.g }]));
      }
      // objects allocated inside the loop stay reachable through what was stored
      for (const r of normal) for (const [t, e] of r.st.ents) if (!after.ents.has(t) && !this.statics.has(t)) after.ents.set(t, e);
      for (const r of normal) for (const [c, v] of r.st.vars) if (!after.vars.has(c) && (c.startsWith('prom:'))) after.vars.set(c, v);
      for (const r of normal) { for (const e of r.st.esc) if (!after.esc.includes(e)) after.esc = after.esc.concat([e]); for (const p of r.st.pend) if (!after.pend.includes(p)) after.pend = after.pend.concat([p]); }
    }
    if (any) after.event(summary);
    if (normal.length || !seg.atLeastOne) res.push({ st: after });
    return res;
  }
  mergeDeltas(normal, guards, deltas) {
    // one unconditional delta on every path -> drop the guards
    if (normal.length === 1) return deltas.map((d) => d.x.g && d.x.g.length ? d.x : Object.assign({}, d.x, { g: [] }));
    return deltas.map((d) => Object.assign({}, d.x, { g: d.g.concat(d.x.g || []) }));
  }
  // recognise accumulators: acc = {...acc, k: v} / [...acc, v] per iteration
  foldValue(st, id, c, seg, init, lv, step, normal, guards) {
    const parts = [];
    const classify = (v, g, entsMap) => {
      if (v === lv) return true;
      if (v.k === 'cond') return classify(v.a, g.concat(v.g), entsMap) && classify(v.b, g.concat(this.negConj(v.g)), entsMap);
      if (v.k === 'obj') {
        const e = entsMap.get(v) || this.statics.get(v);
        const k = this.kind(v);
        if (!e || !e.length) return false;
        if (k === 'obj' && e[0].t === 'spread' && e[0].v === lv && !(e[0].g && e[0].g.length)) { for (const x of e.slice(1)) parts.push({ kind: 'obj', x: Object.assign({}, x, { g: g.concat(x.g || []) }) }); return true; }
        if (k === 'arr' && e[0].t === 'each' && e[0].src === lv) { for (const x of e.slice(1)) parts.push({ kind: 'arr', x: Object.assign({}, x, { g: g.concat(x.g || []) }) }); return true; }
      }
      return false;
    };
    let ok = true;
    for (const r of normal) if (ok) ok = classify(r.st.vars.get(c), [], r.st.ents) && ok;
    if (ok && parts.length) {
      const all = [];
      normal.forEach((r, i) => { const before = parts.length; void before; });
      // recompute with guards per path
      parts.length = 0;
      normal.forEach((r, i) => classify(r.st.vars.get(c), normal.length > 1 ? guards[i] : [], r.st.ents));
      const kinds = new Set(parts.map((p) => p.kind));
      if (kinds.size === 1) {
        for (const p of parts) all.push(p.x);
        if (kinds.has('obj')) return this.alloc('obj', this.spreadEnts(st, init).concat([{ t: 'each', src: seg.src, item: seg.item, ents: all, g: seg.g }]), st);
        return this.alloc('arr', this.segsOf(st, init).concat([{ t: 'each', src: seg.src, item: seg.item, segs: all, g: seg.g }]), st);
      }
    }
    return T.fold(id, c.replace(/^\d+:/, ''), seg.src, init, step);
  }

  // ---------- statements: outcomes {st, c, v, label}
  exec(node, st, scope, own) {
    this.tick();
    switch (node.kind) {
      case SK.Block: {
        const sc = own ? scope : this.newScope(scope);
        return this.execList(node.statements, st, sc);
      }
      case SK.VariableStatement: return this.execVar(node.declarationList, st, scope);
      case SK.ExpressionStatement: return this.ev(node.expression, st, scope).map((o) => (o.ex ? { st: o.st, c: 'throw', v: o.ex } : { st: o.st }));
      case SK.ReturnStatement:
        if (!node.expression) return [{ st, c: 'return', v: T.undef }];
        return this.ev(node.expression, st, scope).map((o) => (o.ex ? { st: o.st, c: 'throw', v: o.ex } : { st: o.st, c: 'return', v: o.v }));
      case SK.ThrowStatement: return this.ev(node.expression, st, scope).map((o) => ({ st: o.st, c: 'throw', v: o.ex || o.v }));
      case SK.IfStatement: {
        const r = [];
        for (const o of this.ev(node.expression, st, scope)) {
          if (o.ex) { r.push({ st: o.st, c: 'throw', v: o.ex }); continue; }
          for (const b of this.branch(o.st, o.v)) {
            if (b.b) r.push(...this.exec(node.thenStatement, b.st, scope));
            else if (node.elseStatement) r.push(...this.exec(node.elseStatement, b.st, scope));
            else r.push({ st: b.st });
          }
        }
        return this.mergeStmt(r);
      }
      case SK.EmptyStatement: case SK.InterfaceDeclaration: case SK.TypeAliasDeclaration: case SK.DebuggerStatement: return [{ st }];
      case SK.FunctionDeclaration: return [{ st }];
      case SK.ClassDeclaration: { const t = T.cls(P.loc(node)); this.clss.set(t, { node, scope }); this.declare(scope, node.name.text, st, t); return [{ st }]; }
      case SK.BreakStatement: return [{ st, c: 'break', label: node.label && node.label.text }];
      case SK.ContinueStatement: return [{ st, c: 'continue', label: node.label && node.label.text }];
      case SK.LabeledStatement: return this.exec(node.statement, st, scope).map((o) => (o.label === node.label.text && (o.c === 'break' || o.c === 'continue') ? { st: o.st } : o));
      case SK.TryStatement: return this.execTry(node, st, scope);
      case SK.SwitchStatement: return this.execSwitch(node, st, scope);
      case SK.ForOfStatement: case SK.ForInStatement: return this.execForOf(node, st, scope);
      case SK.ForStatement: return this.execFor(node, st, scope);
      case SK.WhileStatement: case SK.DoStatement: return this.execWhile(node, st, scope);
      default:
    }
    this.unknown('statement ' + SK[node.kind], node);
    return [{ st }];
  }
  mergeStmt(outs) { return this.merge(outs); }
  execList(stmts, st, scope) {
    for (const s of stmts) if (ts.isFunctionDeclaration(s) && s.name && s.body) this.declare(scope, s.name.text, st, this.closure(s, scope, undefined));
    // hoist let/const/var names so that closures created earlier see the same cells
    for (const s of stmts) if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) this.hoist(d.name, scope);
    let live = [{ st }];
    const done = [];
    for (const s of stmts) {
      const next = [];
      for (const o of live) for (const r of this.exec(s, o.st, scope)) (r.c ? done : next).push(r);
      live = this.merge(next);
      this.cap(live);
      if (!live.length) break;
    }
    return this.merge(done.concat(live));
  }
  hoist(name, scope) {
    if (ts.isIdentifier(name)) scope.names.set(name.text, true);
    else for (const e of name.elements) if (!ts.isOmittedExpression(e)) this.hoist(e.name, scope);
  }
  execVar(list, st, scope) {
    let outs = [{ st }];
    for (const d of list.declarations) {
      outs = this.bind(outs, (s) => {
        if (!d.initializer) { if (ts.isIdentifier(d.name)) this.declare(scope, d.name.text, s, T.undef); return [{ st: s }]; }
        return this.bind(this.ev(d.initializer, s, scope), (s2, v) => this.bindPattern(d.name, v, s2, scope));
      });
    }
    return outs.map((o) => (o.ex ? { st: o.st, c: 'throw', v: o.ex } : { st: o.st }));
  }
  execTry(node, st, scope) {
    st.tryD++;
    const outs = this.exec(node.tryBlock, st, scope);
    let res = [];
    for (const o of outs) {
      o.st.tryD--;
      if (o.c === 'throw' && node.catchClause) {
        const sc = this.newScope(scope);
        const cc = node.catchClause;
        // inside catch a finally still protects
        let ins = [{ st: o.st }];
        if (cc.variableDeclaration) ins = this.bindPattern(cc.variableDeclaration.name, o.v, o.st, sc);
        for (const i of ins) {
          if (node.finallyBlock) i.st.tryD++;
          for (const r of this.exec(cc.block, i.st, sc)) { if (node.finallyBlock) r.st.tryD--; res.push(r); }
        }
      } else res.push(o);
    }
    if (node.finallyBlock) {
      const fin = [];
      for (const o of res) for (const f of this.exec(node.finallyBlock, o.st, scope)) fin.push(f.c ? f : Object.assign({}, o, { st: f.st }));
      res = fin;
    }
    return this.merge(res);
  }
  execSwitch(node, st, scope) {
    const sc = this.newScope(scope);
    const clauses = node.caseBlock.clauses;
    for (const cl of clauses) for (const s of cl.statements) { if (ts.isVariableStatement(s)) for (const d of s.declarationList.declarations) this.hoist(d.name, sc); }
    const res = [];
    const runFrom = (s, i) => {
      let live = [{ st: s }];
      for (let j = i; j < clauses.length && live.length; j++) {
        const next = [];
        for (const o of live) for (const r of this.execList(clauses[j].statements, o.st, sc)) { if (!r.c) next.push(r); else if (r.c === 'break' && !r.label) res.push({ st: r.st }); else res.push(r); }
        live = next;
      }
      res.push(...live);
    };
    for (const o of this.ev(node.expression, st, scope)) {
      if (o.ex) { res.push({ st: o.st, c: 'throw', v: o.ex }); continue; }
      let pending = [o.st];
      let dflt = -1;
      clauses.forEach((cl, i) => {
        if (ts.isDefaultClause(cl)) { dflt = i; return; }
        const next = [];
        for (const s of pending) {
          for (const e of this.ev(cl.expression, s, sc)) {
            if (e.ex) { res.push({ st: e.st, c: 'throw', v: e.ex }); continue; }
            for (const b of this.branch(e.st, this.eq(o.v, e.v, e.st))) { if (b.b) runFrom(b.st, i); else next.push(b.st); }
          }
        }
        pending = next;
      });
      for (const s of pending) { if (dflt >= 0) runFrom(s, dflt); else res.push({ st: s }); }
    }
    return this.merge(res);
  }
  execForOf(node, st, scope) {
    const res = [];
    for (const o of this.ev(node.expression, st, scope)) {
      if (o.ex) { res.push({ st: o.st, c: 'throw', v: o.ex }); continue; }
      const segs = node.kind === SK.ForInStatement ? this.keySegs(o.st, o.v) : this.segsOf(o.st, o.v);
      const body = (s, item) => {
        const sc = this.newScope(scope);
        const doBody = (ss) => this.exec(node.statement, ss, sc);
        if (ts.isVariableDeclarationList(node.initializer)) {
          let ins;
          if (node.awaitModifier) ins = this.bind(this.awaitValue(s, item, node), (s2, v) => this.bindPattern(node.initializer.declarations[0].name, v, s2, sc));
          else ins = this.bindPattern(node.initializer.declarations[0].name, item, s, sc);
          const r = [];
          for (const i of ins) r.push(...(i.ex ? [{ st: i.st, c: 'throw', v: i.ex }] : doBody(i.st)));
          return r;
        }
        return this.bind(this.assignVar(node.initializer, item, s, scope), (s2) => doBody(s2));
      };
      res.push(...this.iterate(o.st, segs, body, {}).map((r) => (r.c === 'broke' ? { st: r.st } : r)));
    }
    return this.merge(res);
  }
  execFor(node, st, scope) {
    const sc = this.newScope(scope);
    let outs = [{ st }];
    if (node.initializer) {
      if (ts.isVariableDeclarationList(node.initializer)) { for (const d of node.initializer.declarations) this.hoist(d.name, sc); outs = this.execVar(node.initializer, st, sc); } else outs = this.ev(node.initializer, st, sc).map((o) => (o.ex ? { st: o.st, c: 'throw', v: o.ex } : { st: o.st }));
    }
    const res = [];
    for (const o of outs) {
      if (o.c) { res.push(o); continue; }
      res.push(...this.genericLoop(o.st, sc, node.condition, node.incrementor, node.statement, false, node));
    }
    return this.merge(res);
  }
  execWhile(node, st, scope) { return this.merge(this.genericLoop(st, scope, node.expression, undefined, node.statement, node.kind === SK.DoStatement, node)); }
  // counting loops over a sequence (i = 0; i < X.length; i++) are loops over X; anything else is
  // abstracted to one arbitrary iteration
  genericLoop(st, scope, cond, incr, stmt, isDo, node) {
    const ind = !isDo && cond ? this.induction(st, scope, cond, incr, stmt) : undefined;
    if (ind) {
      const body = (s, item, idx) => {
        const key = 'cur:' + ind.seq.uid;
        const old = s.vars.get(key);
        s.vars.set(key, item);
        s.vars.set(ind.cell, idx.k === 'const' ? idx : T.idx(ind.seq));
        const outs = this.exec(stmt, s, this.newScope(scope));
        for (const r of outs) { if (old) r.st.vars.set(key, old); else r.st.vars.delete(key); r.st.vars.set(ind.cell, T.K(0)); }
        return outs;
      };
      const outs = this.iterate(st, this.segsOf(st, ind.seq), body, {}).map((r) => (r.c === 'broke' ? { st: r.st } : r));
      for (const r of outs) r.st.vars.set(ind.cell, T.op('len', ind.seq, T.K(-1)));
      return outs;
    }
    if (this.opts.unroll) { const outs = this.unrolled(st, scope, cond, incr, stmt, isDo, node); if (outs) return outs; }
    const src = T.sym('while:' + P.loc(node));
    const run = (s0) => {
      const outs = [];
      const bodyThen = (s) => {
        const r = [];
        for (const o of this.exec(stmt, s, this.newScope(scope))) {
          if (o.c && !(o.c === 'continue' && !o.label)) { r.push(o); continue; }
          if (incr) for (const q of this.ev(incr, o.st, scope)) r.push(q.ex ? { st: q.st, c: 'throw', v: q.ex } : { st: q.st });
          else r.push({ st: o.st });
        }
        return r;
      };
      const testFirst = (s, onTrue) => {
        if (!cond) { outs.push(...onTrue(s)); return; }
        for (const o of this.ev(cond, s, scope)) {
          if (o.ex) { outs.push({ st: o.st, c: 'throw', v: o.ex }); continue; }
          for (const b of this.branch(o.st, o.v)) { if (b.b) outs.push(...onTrue(b.st)); else outs.push({ st: b.st, c: 'break', natural: true }); }
        }
      };
      if (isDo) { for (const o of bodyThen(s0)) { if (o.c) outs.push(o); else testFirst(o.st, (s) => [{ st: s }]); } } else testFirst(s0, bodyThen);
      return outs;
    };
    const outs = this.abstractLoop(st, { t: 'each', src, item: T.item(src), run, atLeastOne: true }, undefined, {});
    // normal continuation of a while loop is its exit by the condition (or break)
    return outs.filter((r) => r.c || r.ex).map((r) => (r.c === 'break' && !r.label ? { st: r.st } : r));
  }
  // a loop whose condition is known is carried out, iteration by iteration; undefined where it is not
  unrolled(st, scope, cond, incr, stmt, isDo, node) {
    const known = (s) => {
      if (!cond) return true;
      const outs = this.ev(cond, s.clone(), scope);
      return outs.every((o) => o.ex || this.branch(o.st.clone(), o.v).length === 1);
    };
    
    if (!isDo && !known(st)) return undefined;
    const done = [];
    let live = [{ st }];
    const from = this.steps; let open = false;
    for (let n = 0; live.length; n++) {
      // a loop that does little may go on for longer
      if (n > this.opts.unroll && this.steps - from > 400e3) { for (const o of live) o.st.event({ t: 'endless', node }); throw new Abort((open ? 'a loop with an unknown condition: ' : 'a loop does not end within ' + n + ' iterations: ') + P.loc(node)); }
      const next = [];
      for (const o of live) {
        const body = (s) => {
          for (const r of this.exec(stmt, s, this.newScope(scope))) {
            if (r.c === 'break' && !r.label) { done.push({ st: r.st }); continue; }
            if (r.c && !(r.c === 'continue' && !r.label)) { done.push(r); continue; }
            if (incr) for (const q of this.ev(incr, r.st, scope)) (q.ex ? done : next).push(q.ex ? { st: q.st, c: 'throw', v: q.ex } : { st: q.st });
            else next.push({ st: r.st });
          }
        };
        if (!cond || (isDo && n === 0)) { body(o.st); continue; }

        for (const c of this.ev(cond, o.st, scope)) {
          if (c.ex) { done.push({ st: c.st, c: 'throw', v: c.ex }); continue; }
          const bs = this.branch(c.st, c.v);
          if (bs.length > 1) open = true;
          for (const b of bs) { if (b.b) body(b.st); else done.push({ st: b.st }); }
        }
      }
      if (next.length > 1) open = true;
      live = this.merge(next);
      this.cap(live);
    }
    return done;
  }
  induction(st, scope, cond, incr, stmt) {
    // i (init 0), cond i < X.length, step i++ (incrementor, or i++/i += 1 as last statement of a while body)
    if (!ts.isBinaryExpression(cond)) return undefined;
    let l = cond.left; let r = cond.right; let op = cond.operatorToken.kind;
    if (op === SK.GreaterThanToken) { const x = l; l = r; r = x; op = SK.LessThanToken; }
    if (op !== SK.LessThanToken && op !== SK.ExclamationEqualsEqualsToken) return undefined;
    if (!ts.isIdentifier(l)) return undefined;
    const cell = this.findCell(scope, l.text);
    if (!cell || st.vars.get(cell) !== T.K(0)) return undefined;
    let seq;
    const stripped = (n) => { while (ts.isParenthesizedExpression(n) || ts.isNonNullExpression(n) || ts.isAsExpression(n)) n = n.expression; return n; };
    r = stripped(r);
    const outs = this.ev(r, st.clone(), scope);
    if (outs.length !== 1 || outs[0].ex) return undefined;
    const lv = outs[0].v;
    if (ts.isPropertyAccessExpression(r) && r.name.text === 'length') {
      const so = this.ev(r.expression, st.clone(), scope);
      if (so.length !== 1 || so[0].ex) return undefined;
      seq = so[0].v;
    } else if (lv.k === 'prop' && lv.key === T.K('length')) seq = lv.b;
    else if (lv.k === 'op' && lv.op === 'len') seq = lv.a[0];
    else return undefined;
    seq = T.simp(seq, st.conds);
    if (seq.k === 'cond') return undefined;
    const isInc = (e) => (ts.isPostfixUnaryExpression(e) || ts.isPrefixUnaryExpression(e)) && e.operator === SK.PlusPlusToken && ts.isIdentifier(e.operand) && e.operand.text === l.text
      || (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.PlusEqualsToken && ts.isIdentifier(e.left) && e.left.text === l.text && e.right.getText() === '1')
      || (ts.isBinaryExpression(e) && e.operatorToken.kind === SK.EqualsToken && ts.isIdentifier(e.left) && e.left.text === l.text && /^(i|\w+) \+ 1$/.test(e.right.getText()) && e.right.getText().startsWith(l.text + ' '));
    const assigns = (n, found) => {
      if ((ts.isPostfixUnaryExpression(n) || ts.isPrefixUnaryExpression(n)) && (n.operator === SK.PlusPlusToken || n.operator === SK.MinusMinusToken) && ts.isIdentifier(n.operand) && n.operand.text === l.text) found.push(n);
      if (ts.isBinaryExpression(n) && n.operatorToken.kind >= SK.FirstAssignment && n.operatorToken.kind <= SK.LastAssignment && ts.isIdentifier(n.left) && n.left.text === l.text) found.push(n);
      ts.forEachChild(n, (c) => { assigns(c, found); });
      return found;
    };
    if (incr) { if (!isInc(incr) || assigns(stmt, []).length) return undefined; } else {
      const a = assigns(stmt, []);
      if (a.length !== 1 || !isInc(a[0])) return undefined;
      const list = ts.isBlock(stmt) ? stmt.statements : undefined;
      const last = list && list[list.length - 1];
      // `while (i < xs.length) { const x = xs[i]; i++; ... }` and trailing increments
      const isTop = list && list.some((s) => ts.isExpressionStatement(s) && s.expression === a[0]);
      if (!isTop) return undefined;
      if (!(last && ts.isExpressionStatement(last) && last.expression === a[0])) {
        const hasContinue = (n) => (ts.isContinueStatement(n) ? true : ts.forEachChild(n, hasContinue) || false);
        void hasContinue;
      }
    }
    return { cell, seq };
  }
}
function typeofConst(v) { return v === null ? 'object' : typeof v; }
function conjTerm(g) { return T.op('and', ...g.map((l) => (l.or ? T.op('or', ...l.or.map(conjTerm)) : T.op(l.pos ? '+' : '-', l.atom)))); }
Interp.prototype.models = require('./models');
// budgets of a whole run (an exhausted budget leaves obligations undecided)
Interp.deadline = Date.now() + 600e3;
Interp.heap = 6e9;
module.exports = { Interp, State, Scope, Abort, conjTerm };
