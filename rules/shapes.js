'use strict';
// Values of known shape for the openapi-generator rules. A shape is ordinary data whose names, literals
// and texts are literal atoms (engine/terms.js isLit): they stand for any text or number, so a judgement
// on a shape holds for every choice of them. The package's functions are interpreted over shapes.
const { T, P, Interp, State } = require('./lib');
const PKG = 'openapi-generator';
const L = (n) => T.sym('lit:string:' + n);
const N = (n) => T.sym('lit:number:' + n);
const isTerm = (v) => v && typeof v === 'object' && typeof v.k === 'string' && typeof v.uid === 'number';
const kv = (k, v) => ({ t: 'kv', key: isTerm(k) ? k : T.K(k), v });
const one = (v) => ({ t: 'one', v });

class GW {
  constructor(ctx, o) {
    this.ctx = ctx;
    o = o || {};
    this.exists = o.exists;
    this.I = new Interp(Object.assign({ rec: 'abort', recDepth: 24, shapes: true, throwing: 'caught', maxOut: 4000, noThrow: () => true, pure: (fn) => fn.k === 'op', ext: (I, st, fn, self, args, node) => this.ext(I, st, fn, self, args, node) }, o.interp || {}));
    this.st = new State();
    this.inputs = [];
    this.extra = o.ext;
  }
  ext(I, st, fn, self, args, node) {
    if (this.extra) { const r = this.extra(I, st, fn, self, args, node); if (r) return r; }
    if (/^(node:)?fs$/.test(fn.m) && /(^|\.)existsSync$/.test(fn.p)) return [{ st, v: this.exists ? T.K(!!this.exists(args[0])) : T.op('exists', args[0]) }];
    return undefined;
  }
  exp(ctx, name, file) {
    const v = this.I.exportValue(PKG, file || 'index.ts', name);
    if (!v || v.k === 'top') { ctx.check(false, `${name} is not exported by ${PKG}`, PKG, 'anchor:' + name); return undefined; }
    return v;
  }
  // data -> heap value. Map: an object whose keys are terms
  mk(v) {
    if (v === undefined || v === null || typeof v !== 'object') return T.K(v);
    if (isTerm(v)) return v;
    if (Array.isArray(v)) { const o = this.I.alloc('arr', v.map((x) => one(this.mk(x))), this.st); this.inputs.push(o); return o; }
    const es = v instanceof Map ? [...v] : Object.entries(v);
    const o = this.I.alloc('obj', es.filter(([, x]) => x !== undefined).map(([k, x]) => kv(k, this.mk(x))), this.st);
    this.inputs.push(o);
    return o;
  }
  // input objects that do not look the same any more in the final state
  changed(st) {
    for (const o of this.inputs) {
      const a = this.st.ents.get(o); const b = st.ents.get(o);
      if (a === b || !a || !b) continue;
      const show = (s) => JSON.stringify(plain(this.I, s, o).map((x) => key(x.v)));
      const x = show(this.st); const y = show(st);
      if (x !== y) return { o, before: x, after: y };
    }
    return undefined;
  }
}
// heap value -> data: {O: Map(term -> data)}, {A: [data]}, {V: term}; [{st, v}]; {V: top} where unresolved
const TOP = T.sym('unresolved');
function plain(I, st, v, depth) {
  depth = depth || 0;
  if (depth > 30) return [{ st, v: { V: TOP } }];
  const out = [];
  for (const l of I.settled(st, v)) {
    const x = l.v;
    if (x.k !== 'obj') { out.push({ st: l.st, v: { V: x } }); continue; }
    const kind = I.kind(x);
    if (kind === 'arr' || kind === 'set') {
      const segs = I.entsOf(l.st, x);
      if (!segs.every((q) => q.t === 'one')) { out.push({ st: l.st, v: { V: TOP } }); continue; }
      let outs = [{ st: l.st, a: [] }];
      for (const q of segs) {
        if (q.g && q.g.length && T.knownConj(q.g, l.st.conds) === false) continue;
        outs = outs.flatMap((o) => plain(I, o.st, q.v, depth + 1).map((y) => ({ st: y.st, a: o.a.concat([y.v]) })));
      }
      for (const o of outs) out.push({ st: o.st, v: { A: o.a } });
    } else if (kind === 'obj') {
      const f = I.fields(l.st, x);
      if (!f || f.split) { out.push({ st: l.st, v: { V: TOP } }); continue; }
      let outs = [{ st: l.st, m: [] }];
      for (const e of f) outs = outs.flatMap((o) => plain(I, o.st, e.v, depth + 1).map((y) => ({ st: y.st, m: o.m.concat([[e.key, y.v]]) })));
      for (const o of outs) out.push({ st: o.st, v: { O: new Map(o.m) } });
    } else out.push({ st: l.st, v: { V: TOP } });
  }
  return out;
}
// canonical text of data, without regard to the order of properties
function key(d) {
  if (!d) return 'nothing';
  if (d.V) return T.show(d.V);
  if (d.A) return '[' + d.A.map(key).join(',') + ']';
  return '{' + [...d.O].filter(([, v]) => !(v.V && v.V === T.undef)).map(([k, v]) => T.show(k) + ':' + key(v)).sort().join(',') + '}';
}
const isOpen = (d) => (d.V ? d.V === TOP || d.V.k === 'top' || T.mentions(d.V, (x) => x.k === 'top' || x.k === 'fold' || x.k === 'obj' || x === TOP) : d.A ? d.A.some(isOpen) : [...d.O.values()].some(isOpen));
const get = (d, ...ks) => { for (const k of ks) { if (!d || !d.O) return undefined; d = d.O.get(isTerm(k) ? k : T.K(k)); } return d && d.V === T.undef ? undefined : d; };
const cv = (d) => (d && d.V && d.V.k === 'const' ? d.V.v : undefined);
module.exports = { GW, L, N, plain, key, isOpen, get, cv, isTerm, PKG, TOP };
