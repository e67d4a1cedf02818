'use strict';
// io-ts-http and response: H01..H03. The codecs the package builds are computed by interpreting its
// combinators over declarations with symbolic property codecs (rules/iots.js models io-ts itself).
const { T, P, Interp, State, scenario, hasTop, Abort } = require('./lib');
const M = require('../engine/models');
const IO = require('./iots');
const PKG = 'io-ts-http';
const anchorOf = (pkg, name) => { const s = P.findExport(pkg, 'index.ts', name); const d = s && (s.valueDeclaration || (s.declarations && s.declarations[0])); return d ? `${P.loc(d)} (${name})` : `${pkg} (${name} missing)`; };
const anchor = (name) => anchorOf(PKG, name);
const ACC = { req: { is: false, dec: 'Left' }, opt: { is: true, dec: 'Right' }, def: { is: false, dec: 'default' } };

class HW {
  constructor(ctx) {
    this.ctx = ctx;
    this.I = new Interp({ rec: 'abort', throwing: 'caught', maxOut: 4000, ext: IO.ext, construct: IO.construct, noThrow: () => true, pure: (fn) => fn.k === 'op' });
    this.writes = [];
    // writes to a value the caller owns
    for (const m of ['setProp', 'deleteProp']) {
      const orig = this.I[m].bind(this.I);
      this.I[m] = (st, b, key, ...r) => { const t = T.simp(b, st.conds); const i = t.k === 'obj' ? this.I.objs.get(t.id) : undefined; if (i && i.alias) this.writes.push({ st, m, key, of: i.alias, node: r[r.length - 1] }); return orig(st, b, key, ...r); };
    }
  }
  exp(name) {
    const v = this.I.exportValue(PKG, 'index.ts', name);
    if (!v || v.k === 'top') { this.ctx.check(false, `${name} is not exported by ${PKG}`, PKG, 'anchor:' + name); return undefined; }
    return v;
  }
  // {name: kind} -> a table of leaf codecs
  props(st, decl, sect) {
    const leaves = {};
    const o = this.I.alloc('obj', Object.keys(decl).map((k) => { const l = IO.leaf(this.I, st, `${sect}.${k}`, ACC[decl[k]]); leaves[k] = l; return IO.kv(k, l.self); }), st);
    return { o, leaves };
  }
}
const known = (st, t) => { t = T.simp(t, st.conds); return t.k === 'const' ? !!t.v : T.known(t, st.conds); };
// split a state on a boolean term
const cases = (I, st, t) => I.branch(st.clone(), T.simp(t, st.conds)).filter((x) => !contradictory(x.st.conds));
// equalities are transitive: a === b, a === undefined and b !== undefined cannot all hold
function contradictory(conds) {
  const up = new Map(); const find = (t) => { let r = t; while (up.has(r)) r = up.get(r); return r; };
  const no = [];
  for (const l of conds) {
    if (l.or || l.atom.k !== 'op' || l.atom.op !== '===') continue;
    const [a, b] = l.atom.a;
    if (l.pos) { const x = find(a); const y = find(b); if (x !== y) { if (x.k === 'const') up.set(y, x); else up.set(x, y); } } else no.push([a, b]);
  }
  const consts = new Map();
  for (const l of conds) if (!l.or && l.atom.k === 'op' && l.atom.op === '===' && l.pos) for (const t of l.atom.a) if (t.k === 'const') { const r = find(t); if (consts.has(r) && consts.get(r) !== t) return true; consts.set(r, t); }
  return no.some(([a, b]) => find(a) === find(b));
}

// does the judgement rest on the contents of an object the analysis could not resolve?
const open = (t) => T.mentions(t, (x) => (x.k === 'prop' && x.b.k === 'obj') || (x.k === 'op' && (x.op === 'has' || x.op === 'keys') && x.a[0].k === 'obj') || x.k === 'fold');
const unresolved = (st, ...ts) => ts.some((t) => t && open(t)) || st.conds.some(function f(l) { return l.or ? l.or.some((c) => [].concat(c).some(f)) : open(l.atom); });
const chk = (ctx, s, ok, ...r) => ctx.check(!ok && ok !== undefined && unresolved(s) ? undefined : ok, ...r);

// one decoded property. raw: the input's property; got/own: the result's
function judgeDecoded(W, ctx, st, leaf, raw, obj, k, what, A) {
  const { I } = W;
  for (const a of cases(I, st, I.eq(raw, T.undef, st))) {
    const own = (s) => known(s, I.has(s, obj, T.K(k)));
    const got = (s) => T.simp(I.getProp(s, obj, T.K(k)), s.conds);
    const each = (s, f) => { for (const c of cases(I, s, I.has(s, obj, T.K(k)))) f(c.st, c.b); };
    if (a.b) {
      if (leaf.acc.dec === 'Left') { ctx.check(false, `${what}: decoding succeeds although ${k} is absent and its codec does not accept undefined`, A, 'required'); continue; }
      if (leaf.acc.dec === 'default') { each(a.st, (s, o) => chk(ctx, s, o && got(s) === T.sym('default:' + leaf.c.n.slice(6)), `${what}: ${k}, absent, is ${o ? T.show(got(s)) : 'left out'} and not what its codec decodes undefined to`, A, 'default')); continue; }
      each(a.st, (s, o) => chk(ctx, s, !o, `${what}: ${k} is absent (or undefined) in the input and present in the result as ${T.show(got(s))} when ${T.showConds(s.conds).slice(0, 200)}`, A, 'absent'));
      continue;
    }
    const valid = T.known(T.op('valid', leaf.c, raw), a.st.conds);
    if (!ctx.check(valid === true, `${what}: decoding succeeds although ${k} was not accepted by its codec`, A, 'validated')) continue;
    const dec = T.op('dec', leaf.c, raw);
    for (const b of cases(I, a.st, I.eq(dec, T.undef, a.st))) each(b.st, (s, o) => {
      const g = got(s);
      if (hasTop(g) || open(g)) { ctx.check(undefined, `${what}: ${k}: ${T.show(g)}`); return; }
      const same = (x) => x === dec || known(s, I.eq(x, dec, s)) === true || (b.b && (x === T.undef || known(s, I.eq(x, T.undef, s)) === true));
      if (b.b && leaf.acc.is) chk(ctx, s, !o, `${what}: optional ${k} decodes to undefined and is present in the result as ${T.show(g)}`, A, 'undefined');
      else if (!b.b) chk(ctx, s, o && same(g), `${what}: ${k} is ${o ? T.show(g) : 'left out'} and not the value its own codec decodes it to`, A, 'decoded');
      else chk(ctx, s, !o || same(g), `${what}: ${k} is ${T.show(g)} and not the value its own codec decodes it to`, A, 'decoded');
    });
  }
}
// is there, among the assumptions of a failed decoding, a reason to fail?
function failReason(st, leaves, raws, dicts) {
  const kn = (t) => T.known(t, st.conds);
  if (dicts.some((d) => kn(IO.DICT(d)) === false)) return true;
  return leaves.some((l, i) => kn(T.op('valid', l.c, raws[i])) === false || (l.acc.dec === 'Left' && kn(T.op('===', raws[i], T.undef)) === true));
}
function judgeWrites(W, ctx, what, A) {
  const w = W.writes[0];
  ctx.check(!w, `${what}: ${w && w.m === 'deleteProp' ? 'deletes' : 'sets'} property ${w ? T.show(w.key) : ''} of a value that can be the caller's own ${w ? T.show(w.of) : ''}${w && w.node && w.node.getSourceFile ? ' at ' + P.loc(w.node) : ''}`, A, 'mutates');
}

// ---------- H02
const SECTIONS = ['params', 'query', 'headers', 'body'];
function shapes(ctx) {
  const out = [];
  const add = (d) => out.push(d);
  add({}); add({ params: {}, query: {}, headers: {}, body: {} });
  for (let m = 1; m < 16; m++) add(Object.fromEntries(SECTIONS.filter((_, i) => m & (1 << i)).map((s) => [s, ctx.tier !== 'quick' || (m & (m - 1)) === 0 || m === 3 || m === 10 ? { [s + 'R']: 'req', [s + 'O']: 'opt' } : { [s]: ['req', 'opt', 'def'][(m + SECTIONS.indexOf(s)) % 3] }])));
  for (const s of SECTIONS) {
    add({ [s]: { a: 'req', b: 'def' } }); add({ [s]: { a: 'opt', b: 'opt', c: 'opt' } }); add({ [s]: {} });
    // names that are also names of sections or of the codec's own parts
    add({ [s]: { query: 'req', params: 'opt', body: 'req' } });
    add({ [s]: { name: 'opt', type: 'req', headers: 'opt', length: 'req' } });
  }
  // the same property in two sections, with different codecs
  add({ params: { id: 'req' }, query: { id: 'opt' } }); add({ query: { id: 'req', q: 'opt' }, body: { id: 'req' } });
  // the same kind of property in every section, in an unusual order of sections
  add({ body: { b: 'req' }, headers: { h: 'req' }, query: { q: 'req' }, params: { p: 'req' } });
  add({ body: { b: 'opt' }, headers: { h: 'def' }, query: { q: 'opt' }, params: { p: 'def' } });
  if (ctx.tier !== 'quick') {
    for (const a of SECTIONS) for (const b of SECTIONS) if (a !== b) for (const x of ['req', 'opt', 'def']) for (const y of ['req', 'opt', 'def']) add({ [a]: { one: x, two: y }, [b]: { three: y, four: x } });
    add(Object.fromEntries(SECTIONS.map((s) => [s, { [s + '1']: 'req', [s + '2']: 'opt', [s + '3']: 'def' }])));
  }
  return out;
}
function H02(ctx) {
  ctx.limit = ctx.tier === 'quick' ? 15e3 : 60e3;
  const label = (d) => 'httpRequest(' + Object.keys(d).map((s) => `${s}{${Object.keys(d[s]).map((k) => k + ':' + d[s][k]).join(',')}}`).join(' ') + ')';
  for (const d of shapes(ctx)) scenario(ctx, label(d), () => {
    const A = anchor('httpRequest');
    const make = (f) => {
      const W = new HW(ctx); const { I } = W;
      const fn = W.exp('httpRequest');
      if (!fn) return;
      const st = new State();
      const leaves = {}; const tables = [];
      for (const s of Object.keys(d)) { const p = W.props(st, d[s], s); leaves[s] = p.leaves; tables.push(IO.kv(s, p.o)); }
      for (const c of I.callValue(fn, undefined, [I.alloc('obj', tables, st)], st, null)) {
        ctx.paths++;
        if (c.ex) { ctx.check(false, `${label(d)}: building the codec throws ${T.show(c.ex)}`, A, 'build'); continue; }
        W.writes = [];
        f(W, c.st, c.v, leaves);
      }
      ctx.use(I);
    };
    const declared = Object.keys(d);
    const all = [...new Set(['params', 'query', ...declared])];
    make((W, st0, c, leaves) => {
      const { I } = W; const IN = T.sym('input');
      for (const m of ['decode', 'validate']) for (const o of IO.call(I, st0.clone(), c, m, [IN, T.sym('context')], null)) {
        ctx.paths++;
        if (o.ex) { ctx.check(false, `${label(d)}: decoding throws ${T.show(o.ex)}`, A, 'throws'); continue; }
        for (const e of M.splitE(I, o.st, o.v)) {
          const ls = []; const raws = []; const dicts = [IN];
          for (const s of all) { dicts.push(T.prop(IN, T.K(s))); for (const k of Object.keys(leaves[s] || {})) { ls.push(leaves[s][k]); raws.push(T.prop(T.prop(IN, T.K(s)), T.K(k))); } }
          if (e.left) { ctx.check(failReason(e.st, ls, raws, dicts), `${label(d)}: decoding fails although every section and property is accepted: ${T.showConds(e.st.conds).slice(0, 200)}`, A, 'complete'); continue; }
          for (const s of declared) ctx.check(T.known(IO.DICT(T.prop(IN, T.K(s))), e.st.conds) === true, `${label(d)}: decoding succeeds without checking section ${s}`, A, 'section');
          const r = I.getProp(e.st, e.e, 'right');
          for (const x of I.leaves(e.st, r)) {
            if (x.v.k !== 'obj') { ctx.check(hasTop(x.v) ? undefined : false, `${label(d)}: decodes to ${T.show(x.v)}`, A, 'object'); continue; }
            ls.forEach((l, i) => { const k = raws[i].key.v; if (raws.some((q, j) => j !== i && q.key.v === k)) return; judgeDecoded(W, ctx, x.st, l, raws[i], x.v, k, `${label(d)}: section ${l.c.n.slice(6).split('.')[0]}`, A); });
            const extra = known(x.st, I.has(x.st, x.v, T.K('undeclared')));
            ctx.check(extra === false, `${label(d)}: a property that is not declared ${extra === undefined ? 'can reach' : 'reaches'} the decoded request`, A, 'undeclared');
          }
        }
      }
      judgeWrites(W, ctx, `${label(d)}: decoding`, A);
    });
    make((W, st0, c, leaves) => {
      const { I } = W; const V = T.sym('value');
      for (const o of IO.call(I, st0, c, 'encode', [V], null)) {
        ctx.paths++;
        if (o.ex) { ctx.check(false, `${label(d)}: encoding throws ${T.show(o.ex)}`, A, 'throws'); continue; }
        for (const x of I.leaves(o.st, o.v)) {
          if (x.v.k !== 'obj') { ctx.check(hasTop(x.v) ? undefined : false, `${label(d)}: encodes to ${T.show(x.v)}`, A, 'object'); continue; }
          for (const s of SECTIONS.concat(['undeclared'])) {
            const has = known(x.st, I.has(x.st, x.v, T.K(s)));
            if (!ctx.check(has === all.includes(s) ? true : has === undefined && all.includes(s) ? false : has === undefined ? undefined : false, `${label(d)}: the encoded request ${has ? 'has' : 'lacks'} section ${s}`, A, 'sections')) continue;
            if (!has) continue;
            const sec = T.simp(I.getProp(x.st, x.v, T.K(s)), x.st.conds);
            if (sec.k !== 'obj') { ctx.check(hasTop(sec) ? undefined : false, `${label(d)}: section ${s} is encoded as ${T.show(sec)}`, A, 'sectionObject'); continue; }
            const mine = leaves[s] || {};
            for (const k of Object.keys(mine)) {
              const raw = T.prop(V, T.K(k)); const enc = T.op('enc', mine[k].c, raw);
              for (const h of cases(I, x.st, I.has(x.st, V, T.K(k)))) {
                for (const u of cases(I, h.st, I.eq(enc, T.undef, h.st))) for (const w of cases(I, u.st, I.has(u.st, sec, T.K(k)))) {
                  const g = T.simp(I.getProp(w.st, sec, T.K(k)), w.st.conds);
                  const what = `${label(d)}: section ${s}, property ${k}`;
                  if (!h.b) { if (known(w.st, I.eq(raw, T.undef, w.st)) !== false) chk(ctx, w.st, !w.b || (mine[k].acc.dec === 'Left'), `${what}, which the value does not have, is encoded as ${T.show(g)}`, A, 'absent'); continue; }
                  if (u.b) { if (mine[k].acc.is) chk(ctx, w.st, !w.b, `${what}: an undefined optional property is encoded as ${T.show(g)}`, A, 'undefined'); continue; }
                  if (known(w.st, I.eq(raw, T.undef, w.st)) === true) continue;
                  chk(ctx, w.st, w.b && (g === enc || known(w.st, I.eq(g, enc, w.st)) === true), `${what} is ${w.b ? 'encoded as ' + T.show(g) : 'not encoded'} and not by its own codec`, A, 'encoded');
                }
              }
            }
            for (const k of ['undeclared'].concat(...SECTIONS.filter((q) => q !== s).map((q) => Object.keys(leaves[q] || {}))).filter((q) => !(q in mine))) {
              const h = known(x.st, I.has(x.st, sec, T.K(k)));
              ctx.check(h === false, `${label(d)}: section ${s} of the encoded request ${h ? 'has' : 'can have'} property ${k}, declared elsewhere`, A, 'foreign');
            }
          }
        }
      }
      judgeWrites(W, ctx, `${label(d)}: encoding`, A);
    });
  });
}

// ---------- H03
function H03(ctx) {
  ctx.limit = ctx.tier === 'quick' ? 15e3 : 60e3;
  const decls = [{}, { a: 'req' }, { a: 'opt' }, { a: 'def' }, { a: 'req', b: 'opt' }, { b: 'opt', a: 'req' }, { a: 'opt', b: 'opt' }, { a: 'req', b: 'req' }, { a: 'def', b: 'opt' }, { a: 'req', b: 'def', c: 'opt' }, { name: 'opt', type: 'req', props: 'opt' }];
  if (ctx.tier !== 'quick') for (const a of ['req', 'opt', 'def']) for (const b of ['req', 'opt', 'def']) for (const c of ['req', 'opt', 'def']) decls.push({ x: a, y: b, z: c });
  const label = (d) => `optionalized({${Object.keys(d).map((k) => k + ':' + d[k]).join(',')}})`;
  const A = anchor('optionalized');
  for (const d of decls) for (const via of ['codec', 'optional']) {
    if (via === 'optional' && !Object.values(d).includes('opt')) continue;
    scenario(ctx, label(d), () => {
      const make = (f) => {
        const W = new HW(ctx); const { I } = W;
        const fn = W.exp('optionalized'); const optional = W.exp('optional');
        if (!fn || !optional) return;
        const st = new State();
        let p; let outs = [{ st, v: undefined }];
        if (via === 'codec') { p = W.props(st, d, 'p'); outs = [{ st, v: p.o }]; } else {
          // optional(codec) around a codec that does not accept undefined
          p = W.props(st, Object.fromEntries(Object.keys(d).map((k) => [k, d[k] === 'opt' ? 'req' : d[k]])), 'p');
          const ents = I.entsOf(st, p.o);
          let cur = [{ st, ents: [] }];
          for (const e of ents) cur = [].concat(...cur.map((x) => (d[e.key.v] !== 'opt' ? [{ st: x.st, ents: x.ents.concat([e]) }] : I.callValue(optional, undefined, [e.v], x.st, null).map((o) => ({ st: o.st, ents: x.ents.concat([IO.kv(e.key.v, o.v)]) })))));
          outs = cur.map((x) => ({ st: x.st, v: I.alloc('obj', x.ents, x.st) }));
          for (const k of Object.keys(d)) if (d[k] === 'opt') p.leaves[k] = Object.assign({}, p.leaves[k], { acc: ACC.opt });
        }
        for (const o of outs) for (const named of [undefined, T.K('Name')]) for (const c of I.callValue(fn, undefined, named ? [o.v, named] : [o.v], o.st.clone(), null)) {
          ctx.paths++;
          if (c.ex) { ctx.check(false, `${label(d)}: building the codec throws ${T.show(c.ex)}`, A, 'build'); continue; }
          W.writes = [];
          f(W, c.st, c.v, p.leaves);
        }
        ctx.use(I);
      };
      const L = `${label(d)}${via === 'optional' ? ' with optional()' : ''}`;
      make((W, st0, c, leaves) => {
        const { I } = W; const IN = T.sym('input');
        for (const o of IO.call(I, st0, c, 'validate', [IN, T.sym('context')], null)) {
          ctx.paths++;
          if (o.ex) { ctx.check(false, `${L}: decoding throws ${T.show(o.ex)}`, A, 'throws'); continue; }
          for (const e of M.splitE(I, o.st, o.v)) {
            const ls = Object.values(leaves); const raws = Object.keys(leaves).map((k) => T.prop(IN, T.K(k)));
            if (e.left) { ctx.check(failReason(e.st, ls, raws, [IN]), `${L}: decoding fails although every property is accepted: ${T.showConds(e.st.conds).slice(0, 200)}`, A, 'complete'); continue; }
            for (const x of I.leaves(e.st, I.getProp(e.st, e.e, 'right'))) {
              if (x.v !== IN && x.v.k !== 'obj') { ctx.check(hasTop(x.v) ? undefined : false, `${L}: decodes to ${T.show(x.v)}`, A, 'object'); continue; }
              ls.forEach((l, i) => judgeDecoded(W, ctx, x.st, l, raws[i], x.v, raws[i].key.v, L, A));
            }
          }
        }
        judgeWrites(W, ctx, `${L}: decoding`, A);
      });
      make((W, st0, c, leaves) => {
        const { I } = W; const V = T.sym('value');
        st0.assume(T.lit(T.op('isdict', V), true));
        for (const o of IO.call(I, st0, c, 'encode', [V], null)) {
          ctx.paths++;
          if (o.ex) { ctx.check(T.mentions(o.ex, (t) => t.k === 'op' && t.op === 'encunion'), `${L}: encoding throws ${T.show(o.ex)}`, A, 'throws'); continue; }
          for (const x of I.leaves(o.st, o.v)) for (const k of Object.keys(leaves)) {
            const raw = T.prop(V, T.K(k)); const enc = T.op('enc', leaves[k].c, raw); const opt = d[k] === 'opt';
            for (const h of cases(I, x.st, I.has(x.st, V, T.K(k)))) for (const z of cases(I, h.st, I.eq(raw, T.undef, h.st))) for (const u of cases(I, z.st, I.eq(enc, T.undef, z.st))) for (const w of cases(I, u.st, I.has(u.st, x.v, T.K(k)))) {
              if (!h.b && !z.b) continue; // inherited: not decided
              const g = T.simp(I.getProp(w.st, x.v, T.K(k)), w.st.conds);
              if (opt) {
                if (z.b) chk(ctx, w.st, !w.b, `${L}: optional ${k}, undefined, is encoded as ${T.show(g)} when ${T.showConds(w.st.conds).slice(0, 160)}`, A, 'encUndefined');
                else if (u.b) chk(ctx, w.st, !w.b, `${L}: optional ${k}, which its codec encodes as undefined, is encoded as ${T.show(g)}`, A, 'encUndefined');
                else chk(ctx, w.st, w.b && (g === enc || known(w.st, I.eq(g, enc, w.st)) === true), `${L}: optional ${k} is ${w.b ? 'encoded as ' + T.show(g) : 'not encoded'} and not by its codec`, A, 'encoded');
              } else if (h.b && !u.b) chk(ctx, w.st, w.b && (g === enc || known(w.st, I.eq(g, enc, w.st)) === true), `${L}: ${k} is ${w.b ? 'encoded as ' + T.show(g) : 'not encoded'} and not by its codec`, A, 'encoded');
            }
          }
        }
        judgeWrites(W, ctx, `${L}: encoding`, A);
      });
      // the type guard: required properties must be there, optional ones need not
      for (const missing of [undefined].concat(Object.keys(d))) for (const bad of [undefined].concat(Object.keys(d).filter((k) => k !== missing))) make((W, st0, c, leaves) => {
        const { I } = W;
        const vals = Object.keys(d).filter((k) => k !== missing).map((k) => IO.kv(k, T.sym('v.' + k)));
        const o = I.alloc('obj', vals, st0);
        for (const k of Object.keys(d)) { st0.assume(T.lit(T.op('===', T.sym('v.' + k), T.undef), false)); st0.assume(T.lit(T.op('is', leaves[k].c, T.sym('v.' + k)), k !== bad)); }
        const want = !bad && (!missing || d[missing] === 'opt');
        for (const r of IO.call(I, st0, c, 'is', [o], null)) {
          ctx.paths++;
          for (const b of r.ex ? [] : I.branch(r.st, r.v)) ctx.check(b.b === want, `${L}: is() is ${b.b} for a value ${missing ? `without ${missing}` : 'with every property'}${bad ? ` whose ${bad} has the wrong type` : ''}`, A, 'is');
        }
      });
    });
  }
}

// ---------- H04
function H04(ctx) {
  ctx.limit = ctx.tier === 'quick' ? 15e3 : 60e3;
  const A = anchor('httpRequest');
  for (const d of shapes(ctx)) {
    const names = [].concat(...Object.keys(d).map((s) => Object.keys(d[s]).map((k) => [s, k])));
    if (new Set(names.map((x) => x[1])).size !== names.length) continue; // declared twice
    const label = 'httpRequest(' + Object.keys(d).map((s) => `${s}{${Object.keys(d[s]).map((k) => k + ':' + d[s][k]).join(',')}}`).join(' ') + ')';
    const kindOf = (k) => { const n = names.find((x) => x[1] === k); return d[n[0]][k]; };
    const keys = names.map((x) => x[1]);
    scenario(ctx, label, () => {
      const make = (f) => {
        const W = new HW(ctx); const { I } = W;
        const fn = W.exp('httpRequest');
        if (!fn) return;
        const st = new State();
        const leaves = {}; const tables = [];
        for (const s of Object.keys(d)) { const p = W.props(st, d[s], s); Object.assign(leaves, p.leaves); tables.push(IO.kv(s, p.o)); }
        for (const c of I.callValue(fn, undefined, [I.alloc('obj', tables, st)], st, null)) {
          ctx.paths++;
          if (c.ex) { ctx.check(false, `${label}: building the codec throws ${T.show(c.ex)}`, A, 'build'); continue; }
          W.writes = [];
          f(W, c.st, c.v, leaves);
        }
        ctx.use(I);
      };
      const guard = (W, st, c, v, want, what) => {
        for (const r of IO.call(W.I, st, c, 'is', [v], null)) {
          ctx.paths++;
          if (r.ex) { ctx.check(false, `${label}: is() throws ${T.show(r.ex)} for ${what}`, A, 'throws'); continue; }
          for (const b of W.I.branch(r.st, r.v)) {
            const k = T.known(T.simp(r.v, b.st.conds), b.st.conds);
            const vague = hasTop(r.v) || (k === undefined && T.simp(r.v, r.st.conds).k !== 'const');
            ctx.check(b.b === want ? true : vague || unresolved(b.st) ? undefined : false, `${label}: is() is ${b.b} for ${what}`, A, 'is');
          }
        }
        judgeWrites(W, ctx, `${label}: is()`, A);
      };
      const value = (W, st, leaves, missing, bad, extra) => {
        const vals = keys.filter((k) => k !== missing).map((k) => IO.kv(k, T.sym('v.' + k)));
        if (extra) vals.push(IO.kv('undeclared', T.sym('v.extra')));
        const o = W.I.alloc('obj', vals, st);
        for (const k of keys) { st.assume(T.lit(T.op('===', T.sym('v.' + k), T.undef), false)); st.assume(T.lit(T.op('is', leaves[k].c, T.sym('v.' + k)), k !== bad)); }
        return o;
      };
      make((W, st, c, l) => guard(W, st, c, value(W, st, l), true, 'a value with every property accepted'));
      make((W, st, c, l) => guard(W, st, c, value(W, st, l, undefined, undefined, true), true, 'a value with every property accepted and one that is not declared'));
      for (const k of keys) {
        make((W, st, c, l) => guard(W, st, c, value(W, st, l, k), kindOf(k) === 'opt', `a value without ${k} (${kindOf(k)})`));
        make((W, st, c, l) => guard(W, st, c, value(W, st, l, undefined, k), false, `a value whose ${k} is refused by its codec`));
      }
      make((W, st, c) => { const v = T.sym('nonObject'); st.assume(T.lit(IO.DICT(v), false)); guard(W, st, c, v, false, 'a value that is no object'); });
    });
  }
}

// ---------- H01
function H01(ctx) {
  const W = new HW(ctx); const { I } = W;
  const ts = P.ts; const { checker } = P.load();
  const st0 = new State();
  const exp = (pkg, name) => {
    const v = I.exportValue(pkg, 'index.ts', name);
    if (!v || v.k === 'top') { ctx.check(false, `${name} is not exported by ${pkg}`, pkg, `anchor:${pkg}:${name}`); return undefined; }
    return v;
  };
  // a constant table: Map name -> value
  const table = (pkg, name) => {
    const v = exp(pkg, name);
    if (!v) return undefined;
    const out = new Map(); const sym = P.findExport(pkg, 'index.ts', name);
    for (const k of checker.getTypeOfSymbolAtLocation(sym, sym.valueDeclaration).getProperties()) out.set(k.name, T.simp(I.getProp(st0, v, T.K(k.name)), st0.conds));
    const es = I.entsOf(st0, v);
    for (const e of es || []) if (e.t === 'kv' && e.key.k === 'const' && !out.has(String(e.key.v))) out.set(String(e.key.v), T.simp(I.getProp(st0, v, e.key), st0.conds));
    return { v, m: out };
  };
  let k2h; let h2k; const names = new Map();
  scenario(ctx, 'tables', () => {
    k2h = table(PKG, 'KeyToHttpStatus'); h2k = table(PKG, 'HttpToKeyStatus');
    if (!k2h || !h2k) return;
    const A = anchor('KeyToHttpStatus'); const B = anchor('HttpToKeyStatus');
    const seen = new Map(); const http = require('http').STATUS_CODES;
    const camel = (x) => x.replace(/[^A-Za-z ]/g, '').split(' ').map((w, i) => (i ? w[0].toUpperCase() + w.slice(1).toLowerCase() : w.toLowerCase())).join('');
    const std = new Map(Object.keys(http).map((n) => [camel(http[n]).toLowerCase(), Number(n)]));
    ctx.check(k2h.m.size > 0, 'KeyToHttpStatus is empty', A, 'empty');
    for (const [k, v] of k2h.m) {
      if (v.k !== 'const') { ctx.check(undefined, `KeyToHttpStatus.${k} is ${T.show(v)}`); continue; }
      names.set(k, v.v);
      ctx.check(Number.isInteger(v.v) && v.v >= 100 && v.v <= 599, `KeyToHttpStatus.${k} is ${T.show(v)}, not an HTTP status`, A, 'k2h:' + k);
      ctx.check(!seen.has(v.v), `KeyToHttpStatus: ${k} and ${seen.get(v.v)} are both ${T.show(v)}`, A, 'dup:' + k);
      seen.set(v.v, k);
      const s = std.get(k.toLowerCase());
      ctx.check(s === undefined || s === v.v, `KeyToHttpStatus.${k} is ${T.show(v)}; the HTTP status of that name is ${s}`, A, 'std:' + k);
      const back = h2k.m.get(String(v.v));
      ctx.check(back === undefined ? false : back.k === 'const' ? back.v === k : undefined, `KeyToHttpStatus.${k} is ${T.show(v)} and HttpToKeyStatus[${T.show(v)}] is ${back ? T.show(back) : 'missing'}`, A, 'inverse:' + k);
    }
    for (const [n, v] of h2k.m) {
      if (v.k !== 'const') { ctx.check(undefined, `HttpToKeyStatus[${n}] is ${T.show(v)}`); continue; }
      const f = k2h.m.get(String(v.v));
      ctx.check(f === undefined ? false : f.k === 'const' ? String(f.v) === n : undefined, `HttpToKeyStatus[${n}] is ${T.show(v)} and KeyToHttpStatus.${v.v} is ${f ? T.show(f) : 'missing'}`, B, 'inverse:' + n);
    }
    ctx.sample(`${names.size} statuses, ${h2k.m.size} numbers`);
  });
  if (!names.size) { ctx.use(I); return; }
  const helpers = [[PKG, 'Response', (k) => names.get(k)], ['response', 'Response', (k) => names.get(k)], ['response', 'KeyedResponse', (k) => k]];
  for (const [pkg, name, want] of helpers) scenario(ctx, `${pkg} ${name}`, () => {
    const t = table(pkg, name); const A = anchorOf(pkg, name);
    if (!t) return;
    for (const k of names.keys()) ctx.check(t.m.has(k), `${pkg}: ${name} has no helper ${k}`, A, 'missing:' + k);
    const sym = P.findExport(pkg, 'index.ts', name); const ty = checker.getTypeOfSymbolAtLocation(sym, sym.valueDeclaration);
    for (const [k, f] of t.m) {
      if (!ctx.check(names.has(k), `${pkg}: ${name}.${k} is not a known status`, A, 'unknown:' + k)) continue;
      for (const payload of [T.sym('payload'), T.undef, T.K(null), T.K(0), T.K('')]) for (const o of I.callValue(f, t.v, [payload], new State(), null)) {
        ctx.paths++;
        if (o.ex) { ctx.check(false, `${pkg}: ${name}.${k} throws`, A, 'throws:' + k); continue; }
        for (const x of I.leaves(o.st, o.v)) {
          const type = T.simp(I.getProp(x.st, x.v, T.K('type')), x.st.conds); const pl = T.simp(I.getProp(x.st, x.v, T.K('payload')), x.st.conds);
          if (hasTop(type) || hasTop(pl) || (type.k !== 'const' && type.k !== 'sym')) { ctx.check(undefined, `${pkg}: ${name}.${k}: ${T.show(type)}`); continue; }
          ctx.check(type === T.K(want(k)), `${pkg}: ${name}.${k}(payload) has type ${T.show(type)}, not ${T.show(T.K(want(k)))}`, A, 'type:' + k);
          ctx.check(pl === payload, `${pkg}: ${name}.${k}(${T.show(payload)}) has payload ${T.show(pl)}`, A, 'payload:' + k);
        }
      }
      // the declared result type says the same
      const prop = ty.getProperty(k); const sigs = prop ? checker.getTypeOfSymbolAtLocation(prop, sym.valueDeclaration).getCallSignatures() : [];
      for (const s of sigs) {
        const tp = s.getReturnType().getProperty('type');
        const tt = tp && checker.getTypeOfSymbolAtLocation(tp, sym.valueDeclaration);
        if (tt && tt.isLiteral()) ctx.check(tt.value === want(k), `${pkg}: ${name}.${k} is declared to return type ${checker.typeToString(tt)}, not ${JSON.stringify(want(k))}`, A, 'declared:' + k);
      }
    }
  });
  // the type-level sets
  const union = (pkg, name) => {
    const s = P.findExport(pkg, 'index.ts', name);
    // a name can be both a type and a value
    const d = s && s.declarations && s.declarations.find((x) => ts.isTypeAliasDeclaration(x));
    if (!d) { ctx.check(false, `type ${name} is not exported by ${pkg}`, pkg, `anchor:type:${name}`); return undefined; }
    return { t: checker.getTypeAtLocation(d.name), d };
  };
  const literals = (t) => (t.isUnion() ? t.types : [t]).map((x) => (x.isLiteral() ? x.value : undefined));
  for (const [name, all] of [['Status', [...names.values()]], ['KeyedStatus', [...names.keys()]]]) scenario(ctx, `type ${name}`, () => {
    const u = union('response', name);
    if (!u) return;
    const ls = literals(u.t); const where = `${P.loc(u.d)} (${name})`;
    if (ls.includes(undefined)) { ctx.check(undefined, `type ${name} is ${checker.typeToString(u.t)}`); return; }
    for (const x of all) ctx.check(ls.includes(x), `type ${name} of the response package lacks ${JSON.stringify(x)}`, where, 'lacks:' + x);
    for (const x of ls) ctx.check(all.includes(x), `type ${name} of the response package has ${JSON.stringify(x)}, unknown to io-ts-http`, where, 'extra:' + x);
  });
  for (const [name, f] of [['KeyToHttpStatus', (k) => names.get(k)], ['HttpToKeyStatus', (n) => { for (const [k, v] of names) if (String(v) === n) return k; return undefined; }]]) scenario(ctx, `type ${name}`, () => {
    const u = union(PKG, name);
    if (!u) return;
    const props = u.t.getProperties(); const where = `${P.loc(u.d)} (${name})`;
    ctx.check(props.length === names.size, `type ${name} has ${props.length} members for ${names.size} statuses`, where, 'size');
    for (const p of props) { const pt = checker.getTypeOfSymbolAtLocation(p, u.d); ctx.check(pt.isLiteral() ? pt.value === f(p.name) : undefined, `type ${name}: ${p.name} is ${checker.typeToString(pt)}, not ${JSON.stringify(f(p.name))}`, where, 'member:' + p.name); }
  });
  ctx.use(I);
}
module.exports = { H01, H02, H03, H04 };
