'use strict';
// superagent-wrapper: S01..S05. requestForRoute and both request factories are interpreted over a
// route with symbolic codecs; superagent is a mutable request object whose methods record their
// arguments and return it, and which resolves to a response with symbolic or constant parts.
const { T, P, Interp, State, scenario, flatEvents, hasTop, expand } = require('./lib');
const PKG = 'superagent-wrapper';
const VERBS = ['get', 'post', 'put', 'delete', 'patch'];
const anchor = (name) => { const s = P.findExport(PKG, 'index.ts', name); const d = s && (s.valueDeclaration || (s.declarations && s.declarations[0])); return d ? `${P.loc(d)} (${name})` : `${PKG} (${name} missing)`; };
const val = (st, v) => [{ st, v }];

class CW {
  constructor(o) {
    o = o || {};
    this.I = new Interp({ rec: 'abort',
      throwing: 'caught', maxOut: 4000,
      notPromise: (t) => t.k === 'sym' || t.k === 'prop' || t.k === 'call',
      truthy: (t) => t.k === 'sym' && /^(param|codec|res\.body)(:|$)/.test(t.n),
      noThrow: (fn, self) => (fn.k === 'ext' && fn.p === 'JSON.stringify') || (fn.k === 'op' && fn.op === 'new') || (fn.k === 'ext') || (o.noThrow && o.noThrow(fn, self)),
    });
    this.o = o;
    this.PARAMS = T.sym('params'); this.RES = o.res || T.sym('res'); this.BASE = T.sym('base');
  }
  exp(name) { return this.I.exportValue(PKG, 'index.ts', name); }
  kv(o, st) { return this.I.alloc('obj', Object.keys(o).map((k) => ({ t: 'kv', key: T.K(k), v: o[k] })), st); }
  newReq(st) {
    const { I } = this;
    const r = I.newPromise(st, T.op('ful', typeof this.RES === 'function' ? this.RES(this, st) : this.RES));
    for (const m of ['query', 'set', 'send', 'ok', 'type', 'accept', 'retry', 'timeout', 'auth', 'redirects', 'attach', 'field']) {
      I.setProp(st, r, T.K(m), I.native(m, (s, self, args, node) => {
        s.event({ t: 'req', m, self, args: args.slice(), snap: args.map((a) => (a && a.k === 'obj' ? I.entsOf(s, a) : undefined)), conds: s.conds.slice(), node });
        return val(s, self);
      }));
    }
    this.reqs = this.reqs || [];
    this.reqs.push(r);
    return r;
  }
  agent(st) {
    const { I } = this;
    const o = {};
    for (const v of VERBS.concat(['head', 'options', 'del'])) o[v] = I.native('agent.' + v, (s, self, args) => { const r = this.newReq(s); s.event({ t: 'start', verb: v, url: args[0], args, r, conds: s.conds.slice() }); return val(s, r); });
    return this.kv(o, st);
  }
  // outcomes of making the request factory of the given kind: [{st, v}]
  factory(kind, st) {
    const { I } = this;
    if (kind === 'custom') return val(st, I.native('factory', (s, self, args) => { const r = this.newReq(s); s.event({ t: 'start', custom: true, route: args[0], params: args[1], r, conds: s.conds.slice() }); return val(s, r); }));
    const f = this.exp(kind === 'superagent' ? 'superagentRequestFactory' : 'supertestRequestFactory');
    if (!f) return [];
    return I.callValue(f, undefined, kind === 'superagent' ? [this.agent(st), this.BASE] : [this.agent(st)], st, null);
  }
  route(st, r) {
    const { I } = this;
    const enc = I.native('request.encode', (s, self, args) => { const v = r.encoded(this, s); s.event({ t: 'encode', args: args.slice(), v }); return val(s, v); });
    this.requestCodec = this.kv({ encode: enc }, st);
    this.routeTerm = this.kv({ method: T.K(r.verb.toUpperCase()), path: r.path === undefined ? T.K('/a/{id}') : r.path, request: this.requestCodec, response: r.response ? r.response(this, st) : T.sym('responses') }, st);
    return this.routeTerm;
  }
  // requestForRoute(factory, route)(params): [{st, v|ex}]
  call(kind, r) {
    const { I } = this;
    const st = new State();
    for (const l of this.o.assume || []) st.assume(l);
    const route = this.route(st, r);
    const out = [];
    for (const f of this.factory(kind, st)) {
      if (f.ex) { out.push(f); continue; }
      const g = this.exp('requestForRoute');
      if (!g) continue;
      for (const b of I.callValue(g, undefined, [f.v, route], f.st, null)) {
        if (b.ex) { out.push(b); continue; }
        for (const x of I.callValue(b.v, undefined, [this.PARAMS], b.st, null)) out.push(x);
      }
    }
    return out;
  }
}
// is t the string conversion of x, or x itself?
const asString = (t, x) => t === x || (t.k === 'op' && (t.op === 'String' || t.op === 'concat') && t.a.length === 1 && t.a[0] === x);
// does x reach t without passing through `stop`?
function reaches(t, x, stop, seen) {
  seen = seen || new Set();
  if (!t || seen.has(t)) return false;
  seen.add(t);
  if (t === x) return true;
  if (stop(t)) return false;
  const r = (y) => reaches(y, x, stop, seen);
  switch (t.k) {
    case 'prop': return r(t.b) || r(t.key);
    case 'call': return (t.self && r(t.self)) || t.args.some((a) => r(a.spread || a));
    case 'op': return t.a.some(r);
    case 'cond': return r(t.a) || r(t.b);
    case 'item': return r(t.of);
    case 'fold': return r(t.init) || r(t.step);
    default: return false;
  }
}
const isEnc = (t) => t.k === 'op' && t.op === 'encodeURIComponent';
// verdict on a substituted path: expected is a list of strings and parameter terms
const CHANGES = /^(m:(trim|trimStart|trimEnd|toLowerCase|toUpperCase|slice|substring|substr|normalize|replace|replaceAll|padStart|padEnd|charAt|at)|decodeURIComponent|encodeURI|encodeURIComponent)$/;
// a value split at a separator, encoded piecewise and joined again is the encoded value only if the
// joint is the encoded separator
function rejoin(t, I, st, bad) {
  if (t.k !== 'op') return t;
  if (t.op === 'm:join' && t.a[0].k === 'obj' && (t.a[1] || T.K(',')).k === 'const') {
    const segs = I.entsOf(st, t.a[0]) || [];
    const g = segs.length === 1 && segs[0].t === 'each' ? segs[0] : undefined;
    const src = g && g.src.k === 'op' && g.src.op === 'm:split' && g.src.a.length === 2 && g.src.a[1].k === 'const' ? g.src : undefined;
    if (src && g.segs.length === 1 && g.segs[0].t === 'one' && !(g.segs[0].g && g.segs[0].g.length) && isEnc(g.segs[0].v) && g.segs[0].v.a[0] === g.item) {
      const sep = src.a[1].v;
      if (sep !== '' && sep !== undefined && (t.a[1] || T.K(',')).v === encodeURIComponent(sep)) return T.op('encodeURIComponent', src.a[0]);
      bad.push(`${T.show(src.a[0])} is split at ${JSON.stringify(sep)} and joined with ${T.show(t.a[1])}`);
    }
    return t;
  }
  const a = t.a.map((x) => rejoin(x, I, st, bad));
  return a.every((x, i) => x === t.a[i]) ? t : t.op === 'concat' ? T.concat(a) : T.op(t.op, ...a);
}
function judgePath(t, expected, params, I, st) {
  const bad = [];
  if (I) t = rejoin(t, I, st, bad);
  if (bad.length) return [false, bad[0]];
  const want = T.concat(expected.map((x) => (typeof x === 'string' ? T.K(x) : T.op('encodeURIComponent', x))));
  const norm = (x) => (isEnc(x) ? T.op('encodeURIComponent', params.find((p) => asString(x.a[0], p)) || x.a[0]) : x.k === 'op' && x.op === 'concat' ? T.concat(x.a.map(norm)) : x);
  const got = norm(t);
  if (got === want) return [true];
  if (got.k === 'op' && got.op === 'concat' && T.concat(got.a) === want) return [true];
  for (const p of params) if (reaches(t, p, isEnc)) return [false, `parameter value ${T.show(p)} reaches the URL without being percent-encoded`];
  let changed;
  T.mentions(t, (x) => { if (isEnc(x) && x.a[0].k === 'op' && CHANGES.test(x.a[0].op) && params.includes(x.a[0].a[0]) && !hasTop(x)) changed = x; return false; });
  if (changed) return [false, `the value encoded is ${T.show(changed.a[0])}, not the parameter's`];
  if (hasTop(t)) return [undefined, `path not resolved: ${T.show(t)}`];
  const parts = got.k === 'op' && got.op === 'concat' ? got.a : [got];
  if (parts.every((x) => x.k === 'const' || (isEnc(x) && (params.includes(x.a[0]) || isEnc(x.a[0]))))) return [false, `the path is ${T.show(got)}, expected ${T.show(want)}`];
  return [undefined, `path not resolved: ${T.show(t)}`];
}
// ---------------------------------------------------------------- S05
const PATHS = [
  ['/a/{id}/b', { id: 1 }, ['/a/', 'id', '/b']],
  ['/a/{id}/b/{id}/c/{other}', { id: 1, other: 1 }, ['/a/', 'id', '/b/', 'id', '/c/', 'other']],
  ['/{other}/{id}', { id: 1, other: 1 }, ['/', 'other', '/', 'id']],
  ['/x/{id}-{other}.json', { other: 1, id: 1 }, ['/x/', 'id', '-', 'other', '.json']],
  ['/{a.b}/{$&}/{aXb}', { 'a.b': 1, aXb: 1, '$&': 1 }, ['/', 'a.b', '/', '$&', '/', 'aXb']],
  ['/{id}/{ids}/{id2}', { id: 1, ids: 1, id2: 1 }, ['/', 'id', '/', 'ids', '/', 'id2']],
  ['/{a-b}/{_c}/{D9}', { 'a-b': 1, _c: 1, D9: 1 }, ['/', 'a-b', '/', '_c', '/', 'D9']],
  ['/a/:id/{id}', { id: 1 }, ['/a/:id/', 'id']],
  ['{id}', { id: 1 }, ['id']],
  ['/a/{id}', { id: 1, unused: 1 }, ['/a/', 'id']],
  ['/plain', { id: 1 }, ['/plain']],
  ['/plain', {}, ['/plain']],
  ['/{a}/{b}/{c}/{d}/{e}/{f}', { a: 1, b: 1, c: 1, d: 1, e: 1, f: 1 }, ['/', 'a', '/', 'b', '/', 'c', '/', 'd', '/', 'e', '/', 'f']],
];
function S05(ctx) {
  const sub = (names) => (W, st) => { const o = {}; for (const n of Object.keys(names)) o[n] = T.sym('param:' + n); return W.kv(o, st); };
  const ps = (names) => Object.keys(names).map((n) => T.sym('param:' + n));
  const exp = (e, names) => e.map((x) => (names[x] ? T.sym('param:' + x) : x));
  const report = (label, t, expected, names, A, st, W) => {
    // cases by what the path condition says about the text of the values
    const leaves = []; const walk = (x) => { x = T.simp(x, st.conds); if (x.k === 'cond') { walk(x.a); walk(x.b); } else leaves.push(x); };
    walk(t);
    for (const x of leaves) { const [v, why] = judgePath(x, exp(expected, names), ps(names), W.I, st); ctx.check(v, `${label}: ${why}`, A, 'path'); }
  };
  for (const [path, names, expected] of PATHS) {
    scenario(ctx, `substitutePathParams ${path}`, () => {
      const W = new CW();
      const st = new State();
      const f = W.exp('substitutePathParams');
      if (!f) return;
      const A = anchor('substitutePathParams');
      for (const x of W.I.callValue(f, undefined, [T.K(path), sub(names)(W, st)], st, null)) {
        ctx.paths++;
        if (!ctx.check(!x.ex, `path ${path}: throws ${x.ex && T.show(x.ex)}`, A, 'throws')) continue;
        report(`path ${path}`, x.v, expected, names, A, x.st, W);
      }
      ctx.use(W.I);
    });
    for (const kind of ['superagent', 'supertest']) scenario(ctx, `${kind} ${path}`, () => {
      const W = new CW();
      const A = anchor(kind === 'superagent' ? 'superagentRequestFactory' : 'supertestRequestFactory');
      const r = { verb: 'get', path: T.K(path), encoded: (W2, s) => W2.kv({ params: sub(names)(W2, s), query: T.sym('query') }, s) };
      let starts = 0;
      for (const x of W.call(kind, r)) {
        ctx.paths++;
        if (x.ex) { ctx.check(false, `${kind}, path ${path}: throws ${T.show(x.ex)}`, A, 'throws'); continue; }
        for (const e of flatEvents(x.st.events(null)).filter((q) => q.t === 'start')) {
          starts++;
          const u = urlParts(W, x.st, kind, e.url);
          if (u.bad) { ctx.check(false, `${kind}, path ${path}: ${u.bad}`, A, 'url'); continue; }
          if (u.unknown) { // still no raw parameter value may reach the URL
            for (const p of ps(names)) ctx.check(u.terms.some((t) => reaches(t, p, isEnc)) ? false : undefined, `${kind}, path ${path}: parameter value ${T.show(p)} reaches the URL unencoded or the URL is not resolved: ${u.unknown}`, A, 'raw');
            continue;
          }
          report(`${kind}, path ${path}`, u.path, expected, names, A, x.st, W);
        }
      }
      ctx.check(starts > 0, `${kind}: a request is started`, A, 'started');
      ctx.use(W.I);
    });
  }
}
// the path a request URL is made of, and whether the rest of it is the base URL's
function urlParts(W, st, kind, url) {
  if (!url) return { bad: 'no URL is given to the agent' };
  url = T.simp(url, st.conds);
  if (kind === 'supertest') return { path: url, terms: [url] };
  // new URL(base) with the pathname replaced, then printed
  let u;
  if (url.k === 'call' && url.self && url.fn.k === 'prop' && ['toString', 'toJSON'].includes(url.fn.key.v)) u = url.self;
  else if (url.k === 'prop' && url.key.v === 'href') u = url.b;
  else if (url.k === 'op' && ['String', 'concat', 'm:toString', 'm:toJSON'].includes(url.op) && url.a.length === 1) u = url.a[0];
  const sets = flatEvents(st.events(null)).filter((e) => e.t === 'set' && (!u || e.base === u));
  const terms = [url, ...sets.map((e) => e.v)];
  if (!u) { if (url.k === 'const' || !T.mentions(url, (x) => x === W.BASE)) return { bad: `the URL requested is ${T.show(url)}, not below the base URL` }; return { unknown: T.show(url), terms }; }
  const isUrl = u.k === 'call' && u.fn.k === 'op' && u.fn.op === 'new' && T.mentions(u.fn, (x) => x.k === 'ext' && x.p === 'URL');
  if (!isUrl) return { unknown: T.show(u), terms };
  if (u.args.length !== 1 || u.args[0] !== W.BASE) return { unknown: T.show(u), terms };
  const byKey = new Map();
  for (const e of sets) { if (e.key.k !== 'const') return { unknown: 'computed URL property', terms }; byKey.set(e.key.v, e.v); }
  for (const k of byKey.keys()) if (k !== 'pathname') return { bad: `the URL's ${k} is set to ${T.show(byKey.get(k))}` };
  if (!byKey.has('pathname')) return { bad: 'the path of the URL requested is the base path only' };
  const p = T.simp(byKey.get('pathname'), st.conds);
  const basePath = T.prop(u, 'pathname');
  const leaves = []; const walk = (x) => { if (x.k === 'cond') { walk(x.a); walk(x.b); } else leaves.push(x); };
  walk(p);
  if (leaves.length > 1) {
    for (const x of leaves) if (!T.mentions(x, (y) => y === basePath) && !hasTop(x)) return { bad: `the base URL's path is dropped: path set to ${T.show(x)}` };
    return { unknown: T.show(p), terms };
  }
  if (p.k === 'call' && p.fn.k === 'ext' && /(^|\.)join$/.test(p.fn.p) && p.args.length === 2 && p.args[0] === basePath) return { path: p.args[1], terms };
  if (!T.mentions(p, (x) => x === basePath)) return { bad: `the base URL's path is dropped: path set to ${T.show(p)}` };
  return { unknown: T.show(p), terms };
}
// ---------------------------------------------------------------- S01
function sameData(W, t, x, snap) {
  if (t === x) return true;
  const es = snap || (t.k === 'obj' ? undefined : undefined);
  if (es && es.length === 1 && es[0].t === 'spread' && (es[0].v === x || es[0].src === x) && !(es[0].omit && es[0].omit.length)) return true;
  return false;
}
// JSON text of x: JSON.stringify(x[, replacer]) where the replacer only renders bigints
function jsonOf(ctx, W, st, t, x) {
  t = T.simp(t, st.conds);
  if (t.k !== 'call' || t.fn.k !== 'ext' || t.fn.p !== 'JSON.stringify') return [reaches(t, x, () => false) ? undefined : false, `the body sent is ${T.show(t)}`];
  if (t.args[0] !== x) return [reaches(t.args[0], x, () => false) ? undefined : false, `the body sent is the JSON of ${T.show(t.args[0])}, not of the encoded body`];
  const rep = t.args[1];
  if (!rep || T.isNullishC(rep)) return [true];
  if (rep.k !== 'fn' && rep.k !== 'nat') return [undefined, 'replacer not resolved'];
  const s0 = st.clone();
  const k = T.sym('jsonKey'); const v = T.sym('jsonValue');
  for (const o of W.I.callValue(rep, undefined, [k, v], s0, null)) {
    if (o.ex) return [false, 'the JSON replacer throws'];
    for (const l of W.I.leaves(o.st, o.v)) {
      if (l.v === v) continue;
      const big = T.known(T.op('===', T.op('typeof', v), T.K('bigint')), l.st.conds) === true;
      if (!big) return [hasTop(l.v) ? undefined : false, `the JSON replacer turns values other than bigints into ${T.show(l.v)} (${T.showConds(l.st.conds)})`];
      if (!reaches(l.v, v, () => false)) return [false, `the JSON replacer renders bigints as ${T.show(l.v)}`];
    }
  }
  return [true];
}
const BODIES = [['absent'], ['undefined', T.undef], ['symbolic', T.sym('body')], ['null', T.K(null)], ['false', T.K(false)], ['zero', T.K(0)], ['empty text', T.K('')]];
const NAMES = { none: undefined, empty: [], two: ['authorization', 'x-b'], many: ['accept', 'Content-Language', 'cookie', 'host', 'user-agent', 'x-1', '1'], symbolic: 'sym' };
function S01(ctx) {
  let made = 0;
  for (const kind of ['superagent', 'supertest', 'custom']) for (const verb of VERBS) for (const hs of Object.keys(NAMES)) for (const [bn, body] of BODIES) {
    if (verb !== 'post' && (hs === 'many' || hs === 'empty' || !['absent', 'symbolic', 'null'].includes(bn))) continue;
    const label = `${kind} ${verb}, headers ${hs}, body ${bn}`;
    scenario(ctx, label, () => {
      const W = new CW();
      const QUERY = T.sym('query'); const H = T.sym('headers');
      const A = anchor('requestForRoute');
      if (!ctx.check(!!W.exp('requestForRoute'), 'requestForRoute is exported', A, 'exported')) return;
      const encoded = (W2, s) => {
        const o = { params: W2.kv({ id: T.sym('param:id') }, s), query: QUERY };
        W2.paramsTerm = o.params;
        if (NAMES[hs] === 'sym') o.headers = H; else if (NAMES[hs]) { const h = {}; for (const n of NAMES[hs]) h[n] = T.sym('header:' + n); o.headers = W2.kv(h, s); }
        if (bn !== 'absent') o.body = body;
        return W2.kv(o, s);
      };
      for (const x of W.call(kind, { verb, encoded })) {
        ctx.paths++; made++;
        const st = x.st;
        if (!ctx.check(!x.ex, `${label}: throws ${x.ex && T.show(x.ex)}`, A, 'throws')) continue;
        const raw = st.events(null);
        const evs = flatEvents(raw);
        const encs = evs.filter((e) => e.t === 'encode');
        ctx.check(encs.length > 0 && encs.every((e) => e.args[0] === W.PARAMS), `${label}: the argument is not encoded with the route's request codec`, A, 'encode');
        const starts = evs.filter((e) => e.t === 'start');
        if (!ctx.check(starts.length === 1, `${label}: ${starts.length} requests are started`, A, 'one')) continue;
        const s = starts[0];
        if (kind === 'custom') {
          ctx.check(s.route === W.routeTerm, `${label}: the request factory gets ${T.show(s.route || T.undef)} instead of the route`, A, 'route');
          ctx.check(s.params === W.paramsTerm, `${label}: the request factory gets ${T.show(s.params || T.undef)} instead of the encoded path parameters`, A, 'params');
        } else {
          ctx.check(s.verb === verb, `${label}: sent with method ${s.verb}`, A, 'method');
          const u = urlParts(W, st, kind, s.url);
          ctx.check(u.bad ? false : u.unknown ? undefined : judgePath(u.path, ['/a/', T.sym('param:id')], [T.sym('param:id')], W.I, st)[0], `${label}: ${u.bad || u.unknown || `requests ${T.show(u.path)}`}`, A, 'url');
        }
        const req = (m) => evs.filter((e) => e.t === 'req' && e.m === m && e.self === s.r);
        const qs = req('query');
        ctx.check(qs.length === 1 && sameData(W, qs[0].args[0] || T.undef, QUERY, qs[0].snap[0]) ? true : qs.length && qs.some((q) => q.args.some((a) => a && reaches(a, QUERY, () => false))) ? undefined : false, `${label}: the query sent is ${qs.map((q) => T.show(q.args[0] || T.undef))}, not the encoded query`, A, 'query');
        // headers
        const sets = req('set');
        const bodySent = bn !== 'absent' && T.known(T.op('===', body, T.undef), st.conds) !== true && body !== T.undef;
        const ct = sets.filter((e) => e.args[0] && e.args[0].k === 'const' && String(e.args[0].v).toLowerCase() === 'content-type');
        if (NAMES[hs] !== 'sym') {
          const names = NAMES[hs] || [];
          for (const n of names) {
            const mine = sets.filter((e) => e.args[0] === T.K(n));
            ctx.check(mine.length === 1 && asString(T.simp(mine[0].args[1] || T.undef, st.conds), T.sym('header:' + n)), `${label}: header ${n} is set ${mine.length} times${mine.length ? `, to ${T.show(mine[0].args[1] || T.undef)}` : ''} (${T.showConds(st.conds)})`, A, 'header');
          }
          for (const e of sets) if (!ct.includes(e)) ctx.check(e.args[0] && e.args[0].k === 'const' ? names.includes(e.args[0].v) : undefined, `${label}: header ${T.show(e.args[0] || T.undef)} is set, which the encoded request does not have`, A, 'foreign');
        } else symbolicHeaders(ctx, W, st, raw, H, s.r, label, A);
        // body
        const sends = req('send');
        if (!bodySent) {
          ctx.check(sends.length === 0, `${label}: a call without a body sends ${sends.map((e) => T.show(e.args[0] || T.undef))}`, A, 'nobody');
        } else {
          const why = T.showConds(st.conds);
          if (ctx.check(sends.length === 1, `${label}: the body is sent ${sends.length} times (${why})`, A, 'body')) {
            const [v, w] = jsonOf(ctx, W, st, sends[0].args[0] || T.undef, body);
            ctx.check(v, `${label}: ${w}`, A, 'json');
          }
          const last = ct[ct.length - 1] || evs.filter((e) => e.t === 'req' && e.m === 'type').pop();
          ctx.check(!!last && last.args.length > 0 && /^application\/json\b|^json$/.test(String(last.args[last.args.length - 1].v)), `${label}: the body is sent without content type application/json (${why})`, A, 'contentType');
        }
        const v = T.simp(x.v, st.conds);
        ctx.check(v === s.r ? true : hasTop(v) ? undefined : false, `${label}: returns ${T.show(v)} instead of the request`, A, 'returned');
      }
      ctx.use(W.I);
    });
  }
  ctx.check(made > 0, 'some call makes a request', anchor('requestForRoute'));
}
// headers of unknown names: one iteration per own key sets that header to its value
function symbolicHeaders(ctx, W, st, raw, H, r, label, A) {
  const loops = [];
  const walk = (es) => { for (const e of es) if (e.t === 'loop') { loops.push(e); for (const p of e.paths) walk(p.events); } };
  walk(raw);
  const nullish = T.known(T.op('nullish', H), st.conds) === true || T.known(T.op('===', H, T.undef), st.conds) === true;
  const mine = loops.filter((l) => T.mentions(l.src || T.undef, (x) => x === H));
  if (!mine.length) { ctx.check(nullish ? true : reachesAny(raw, H) ? undefined : false, `${label}: the encoded headers are not set`, A, 'headers'); return; }
  for (const l of mine) for (const p of l.paths) {
    const sets = flatEvents(p.events).filter((e) => e.t === 'req' && e.m === 'set' && e.self === r);
    if (sets.length === 0) {
      const own = p.conds.some((c) => !c.or && !c.pos && T.mentions(c.atom, (x) => x.k === 'op' && (x.op === 'has' || x.op === 'hasown' || x.op === 'own')));
      const und = p.conds.some((c) => !c.or && ((c.pos && c.atom.k === 'op' && (c.atom.op === 'nullish' || (c.atom.op === '===' && T.isNullishC(c.atom.a[1]))))));
      ctx.check(own || und, `${label}: a header is not set when ${T.showConds(p.conds)}`, A, 'headerSkipped');
    }
    for (const e of sets) {
      const [k, v] = e.args;
      const okKey = k && T.mentions(k, (x) => x.k === 'item' || x.k === 'keys');
      const okVal = v && (T.mentions(v, (x) => x === H) || T.mentions(v, (x) => x.k === 'item'));
      ctx.check(!okKey || !okVal ? false : v.k === 'prop' && v.b === H && v.key === k ? true : undefined, `${label}: header ${T.show(k || T.undef)} is set to ${T.show(v || T.undef)}`, A, 'headerValue');
    }
  }
}
const reachesAny = (evs, x) => flatEvents(evs).some((e) => e.t === 'req' && e.args.some((a) => a && reaches(a, x, () => false)));
// ---------------------------------------------------------------- S02, S03
const D = (codec, b) => T.call(T.prop(codec, 'decode'), codec, [b], 0);
// response variants: [name, parts, the value decoding must see]
const RESPONSES = [
  ['a truthy body', { body: T.sym('res.body'), text: T.sym('res.text') }, T.sym('res.body')],
  ['no body', { body: T.undef, text: T.sym('res.text') }, T.sym('res.text')],
  ['null body', { body: T.K(null), text: T.sym('res.text') }, T.sym('res.text')],
  ['false', { body: T.K(false), text: T.sym('res.text') }, T.K(false)],
  ['zero', { body: T.K(0), text: T.sym('res.text') }, T.K(0)],
  ['empty text', { body: T.K(''), text: T.sym('res.text') }, T.K('')],
  ['no body, empty text', { body: T.undef, text: T.K('') }, T.K('')],
];
const codecAt = (s) => T.sym('codec:' + s);
// route.response: by a symbolic table, or constant ones
const TABLES = {
  symbolic: () => T.sym('responses'),
  three: (W, st) => W.kv({ 200: codecAt(200), 404: codecAt(404), 500: codecAt(500) }, st),
  'explicit undefined': (W, st) => W.kv({ 200: codecAt(200), 404: T.undef }, st),
  one: (W, st) => W.kv({ 200: codecAt(200) }, st),
  none: (W, st) => W.kv({}, st),
};
// runs `use(W, st, patched)` for each way a call completes; yields settled outcomes
function clientCall(ctx, label, table, status, parts, method, args, f) {
  scenario(ctx, label, () => {
    const W = new CW({
      assume: status.k === 'sym' ? [T.lit(T.op('===', T.op('typeof', status), T.K('number')), true)] : [],
      res: (W2, st) => { const r = W2.kv(Object.assign({ status }, parts, { ok: T.sym('res.ok'), headers: T.sym('res.headers') }), st); W2.resTerm = r; return r; },
    });
    const A = anchor('requestForRoute');
    const run = W.call('custom', { verb: 'get', encoded: (W2, s) => W2.kv({ params: T.sym('p'), query: T.sym('q') }, s), response: TABLES[table] });
    if (!ctx.check(run.length > 0, 'requestForRoute is exported', A)) return;
    let settled = 0;
    for (const x of run) {
      if (x.ex) { ctx.check(false, `${label}: building the request throws ${T.show(x.ex)}`, A, 'throws'); continue; }
      const st = x.st;
      // non-2xx statuses must not make the request reject
      const oks = flatEvents(st.events(null)).filter((e) => e.t === 'req' && e.m === 'ok');
      if (method === 'decode') {
        const last = oks[oks.length - 1];
        if (ctx.check(!!last && !!last.args[0], `${label}: superagent's handling of non-2xx statuses is not overridden`, A, 'ok')) {
          for (const o of W.I.callValue(last.args[0], undefined, [T.sym('anyResponse')], st.clone(), null)) {
            const v = o.ex || W.I.boolVal(o.st, T.simp(o.v, o.st.conds));
            ctx.check(o.ex ? false : v === T.true_ ? true : hasTop(v) ? undefined : false, `${label}: a response is treated as an error when ${T.showConds(o.st.conds) || 'always'} (${T.show(v)})`, A, 'ok');
          }
        }
      }
      const fn = W.I.getProp(st, x.v, T.K(method));
      for (const o of W.I.callValue(fn, x.v, args, st, null)) {
        if (o.ex) { ctx.check(false, `${label}: ${method} throws ${T.show(o.ex)} instead of returning a promise`, A, 'throws'); continue; }
        for (const d of W.I.drain(o.st)) for (const q of W.I.awaitValue(d, o.v, null)) {
          ctx.paths++; settled++;
          // joined paths are taken apart again: one case per disjunct of the path condition
          for (const cs of expand(q.st.conds) || [q.st.conds]) {
            const s = q.st.clone(); s.conds = cs;
            for (const l of W.I.leaves(s, T.simp(q.ex || q.v, cs))) f(W, l.st, l.v, !!q.ex, A);
          }
        }
      }
    }
    ctx.check(settled > 0, `${label}: ${method} settles`, A, 'settles');
    ctx.use(W.I);
  });
}
// which codec (if any) the table declares for a status on this path: {codec} | {none} | {unknown}
function declared(table, status, st) {
  if (table === 'symbolic') {
    const c = T.prop(T.sym('responses'), status);
    const def = T.known(T.op('===', c, T.undef), st.conds);
    const inn = st.conds.find((l) => !l.or && l.atom.k === 'op' && /^(has|in|hasown|own)/.test(l.atom.op) && l.atom.a.includes(T.sym('responses')));
    if (def === true || (inn && !inn.pos)) return { none: true };
    if (def === false || T.known(c, st.conds) === true || T.known(T.op('nullish', c), st.conds) === false) return { codec: c };
    return { codec: c, unsure: true };
  }
  const t = { three: [200, 404, 500], 'explicit undefined': [200], one: [200], none: [] }[table];
  return t.includes(status.v) ? { codec: codecAt(status.v) } : { none: true };
}
const rightOf = (d) => T.prop(d, 'right');
const isRight = (d, conds) => { const a = T.op('===', T.prop(d, '_tag'), T.K('Left')); const b = T.op('===', T.prop(d, '_tag'), T.K('Right')); const x = T.known(a, conds); if (x !== undefined) return !x; return T.known(b, conds); };
const STATUSES = [['symbolic', T.sym('status')], ['three', T.K(200)], ['three', T.K(404)], ['three', T.K(500)], ['three', T.K(201)], ['explicit undefined', T.K(404)], ['explicit undefined', T.K(200)], ['one', T.K(404)], ['one', T.K(0)], ['one', T.K(599)], ['none', T.K(200)]];
// the decoded response r: 'success' | 'error' with its problems
// (called once per case of the response's own conditionals; then(result, st) for each)
function judgeCases(ctx, W, st0, r0, table, status, parts, want, label, A, then) {
  for (const a of W.I.leaves(st0, r0)) for (const b of W.I.leaves(a.st, W.I.getProp(a.st, a.v, T.K('status')))) for (const c of W.I.leaves(b.st, W.I.getProp(b.st, a.v, T.K('body')))) for (const d of W.I.leaves(c.st, W.I.getProp(c.st, a.v, T.K('original')))) {
    const r = judgeDecoded(ctx, W, d.st, a.v, table, status, parts, want, label, A);
    if (r) then(r, d.st);
  }
}
function judgeDecoded(ctx, W, st, r, table, status, parts, want, label, A) {
  const get = (k) => T.simp(W.I.getProp(st, r, T.K(k)), st.conds);
  const s = get('status'); const body = get('body');
  const und = [s, body].find(hasTop);
  if (und) { ctx.undetermined(`${label}: result not resolved: ${T.show(und)}`); return undefined; }
  ctx.check(get('original') === W.resTerm, `${label}: original is ${T.show(get('original'))}, not the response received`, A, 'original');
  const dec = declared(table, status, st);
  let received = want;
  if (!received) { // symbolic body: null or undefined means the text
    const n = T.known(T.op('nullish', parts.body), st.conds);
    received = n === true ? parts.text : n === false ? parts.body : undefined;
  }
  const err = s === T.K('decodeError');
  const cands = received ? [received] : [parts.body, parts.text, T.cond([T.lit(T.op('nullish', parts.body), true)], parts.text, parts.body)];
  const where = T.showConds(st.conds);
  if (err) {
    ctx.check(cands.includes(body), `${label}: the decode error carries ${T.show(body)} instead of the received body ${cands.map((c) => T.show(c))}`, A, 'errorBody');
    ctx.check(!T.isNullishC(get('error')) && get('error') !== T.K(''), `${label}: the decode error has no message`, A, 'message');
    if (dec.codec && !dec.unsure) for (const c of received ? [received] : []) ctx.check(isRight(D(dec.codec, c), st.conds) !== true, `${label}: a response its codec accepts is flagged as decode error (${where})`, A, 'flagged');
    if (dec.codec && !dec.unsure && received) ctx.check(isRight(D(dec.codec, received), st.conds) === false, `${label}: a response is flagged as decode error without its codec having rejected the received body (${where})`, A, 'flagged');
    return 'error';
  }
  ctx.check(!dec.none, `${label}: a response without declared codec is decoded as status ${T.show(s)} (${where})`, A, 'undeclared');
  if (dec.none) return 'success';
  ctx.check(s === status, `${label}: decoded with status ${T.show(s)}, received was ${T.show(status)}`, A, 'status');
  const ok = cands.some((c) => body === rightOf(D(dec.codec, c)) && isRight(D(dec.codec, c), st.conds) === true);
  ctx.check(ok, `${label}: the decoded body is ${T.show(body)}, not what the codec of status ${T.show(status)} made of the received body (${where})`, A, 'body');
  return 'success';
}
function S02(ctx) {
  let succ = 0; let err = 0;
  for (const [table, status] of STATUSES) for (const [rn, parts, want] of RESPONSES) {
    const label = `responses ${table}, status ${T.show(status)}, ${rn}`;
    clientCall(ctx, label, table, status, parts, 'decode', [], (W, st, v, rejected, A) => {
      if (rejected) { ctx.check(T.mentions(v, (x) => x.k === 'op' && x.op === 'exc'), `${label}: decode rejects with ${T.show(v)}`, A, 'rejects'); return; }
      judgeCases(ctx, W, st, v, table, status, parts, want, label, A, (r) => { if (r === 'success') succ++; if (r === 'error') err++; });
    });
  }
  ctx.check(succ > 0, 'some response is decoded', anchor('requestForRoute'));
  ctx.check(err > 0, 'some response is flagged as decode error', anchor('requestForRoute'));
}
const sameStatus = (W, st, status, exp) => {
  const eq = T.simp(W.I.eq(status, exp, st), st.conds);
  if (eq === T.true_ || eq === T.false_) return eq === T.true_;
  const k = T.known(T.op('===', status, exp), st.conds);
  return k === undefined ? T.known(T.op('===', exp, status), st.conds) : k;
};
function S03(ctx) {
  let succ = 0; let rej = 0;
  const expected = [T.K(200), T.K(404), T.K(500), T.sym('expected')];
  for (const [table, status] of STATUSES) for (const [rn, parts, want] of RESPONSES) for (const exp of expected) {
    const label = `responses ${table}, status ${T.show(status)}, expecting ${T.show(exp)}, ${rn}`;
    clientCall(ctx, label, table, status, parts, 'decodeExpecting', [exp], (W, st, v, rejected, A) => {
      const same = sameStatus(W, st, status, exp);
      const where = T.showConds(st.conds);
      if (!rejected) {
        succ++;
        ctx.check(same === true, `${label}: resolves although the received status is not known to be the expected one (${where})`, A, 'status');
        judgeCases(ctx, W, st, v, table, status, parts, want, label, A, (r) => ctx.check(r === 'success', `${label}: resolves with a response that could not be decoded (${where})`, A, 'undecoded'));
        return;
      }
      if (T.mentions(v, (x) => x.k === 'op' && x.op === 'exc')) return; // the codec threw
      rej++;
      const info = v.k === 'obj' ? W.I.objInfo && W.I.objInfo(v) : undefined; void info;
      const d = T.simp(W.I.getProp(st, v, T.K('decodedResponse')), st.conds);
      if (!ctx.check(v.k === 'obj' && d !== T.undef ? true : hasTop(v) || hasTop(d) ? undefined : false, `${label}: rejects with ${T.show(v)}, which does not carry the decoded response`, A, 'carries')) return;
      judgeCases(ctx, W, st, d, table, status, parts, want, label + ' (carried)', A, (r, s2) => { if (r === 'success') ctx.check(sameStatus(W, s2, status, exp) === false, `${label}: rejects a decodable response of the expected status (${T.showConds(s2.conds)})`, A, 'rejects'); });
    });
  }
  ctx.check(succ > 0, 'some response resolves', anchor('requestForRoute'));
  ctx.check(rej > 0, 'some response rejects', anchor('requestForRoute'));
}
// ---------------------------------------------------------------- S04
function S04(ctx) {
  const specs = {
    full: Object.fromEntries(['api.one', 'two', 'a-b', 'toString', 'constructor'].map((a) => [a, VERBS])),
    sparse: { 'api.one': ['get'], two: ['post', 'delete'], three: [], four: ['patch', 'put', 'get'] },
    foreign: { 'api.one': ['get', 'head', 'options', 'GET', 'name', 'all'], two: ['toString', 'put'], 3: ['use', 'patch'] },
    empty: {},
    shared: { a: ['get', 'put'], b: ['get', 'post'], c: ['put', 'post', 'get'] },
  };
  for (const sn of Object.keys(specs)) for (const undef of [false, true]) scenario(ctx, `spec ${sn}${undef ? ' with an undefined method' : ''}`, () => {
    const W = new CW();
    const { I } = W;
    const st = new State();
    const A = anchor('buildApiClient');
    const routes = {};
    const shared = sn === 'shared';
    const spec = {};
    for (const api of Object.keys(specs[sn])) {
      const o = {};
      for (const v of specs[sn][api]) {
        const id = `${api}:${v}`;
        routes[id] = W.kv({ method: T.K(v.toUpperCase()), path: T.K(shared ? '/x/{id}' : `/${id}`), request: W.kv({ encode: I.native('encode ' + id, (s, self, args) => { const r = W.kv({ params: T.sym('p:' + id), query: T.sym('q:' + id) }, s); s.event({ t: 'encode', id, args }); return val(s, r); }) }, st), response: T.sym('responses:' + id) }, st);
        o[v] = routes[id];
      }
      spec[api] = o;
    }
    const apis = Object.keys(spec);
    if (undef) { if (!apis.length) return; spec[apis[apis.length - 1]].get = T.undef; }
    const st2 = {};
    for (const a of apis) st2[a] = W.kv(spec[a], st);
    const specTerm = W.kv(st2, st);
    const factory = I.native('factory', (s, self, args) => { const r = W.newReq(s); s.event({ t: 'start', route: args[0], params: args[1], r }); return val(s, r); });
    const f = W.exp('buildApiClient');
    if (!ctx.check(!!f, 'buildApiClient is exported', A)) return;
    for (const x of I.callValue(f, undefined, [factory, specTerm], st, null)) {
      ctx.paths++;
      if (undef) { ctx.check(!!x.ex, `spec ${sn}: a method declared as undefined does not make building the client throw`, A, 'undefined'); continue; }
      if (!ctx.check(!x.ex, `spec ${sn}: building the client throws ${x.ex && T.show(x.ex)}`, A, 'throws')) continue;
      const keys = (o) => { const es = I.entsOf(x.st, o); if (!es || o.k !== 'obj' || es.some((e) => e.t !== 'kv' || e.key.k !== 'const' || (e.g && e.g.length))) return undefined; return [...new Set(es.map((e) => String(e.key.v)))]; };
      const c = T.simp(x.v, x.st.conds);
      const top = keys(c);
      if (!top) { ctx.undetermined(`spec ${sn}: keys of the client not resolved: ${T.show(c)}`); } else {
        for (const k of top) ctx.check(apis.includes(k), `spec ${sn}: the client has ${k}, which is no api of the spec`, A, 'foreignApi');
        for (const a of apis) ctx.check(top.includes(a), `spec ${sn}: the client lacks api ${a}`, A, 'missingApi');
      }
      for (const a of apis) {
        const o = T.simp(I.getProp(x.st, c, T.K(a)), x.st.conds);
        if (o.k !== 'obj') { ctx.check(hasTop(o) ? undefined : false, `spec ${sn}: api ${a} is ${T.show(o)} in the client`, A, 'missingApi'); continue; }
        const want = specs[sn][a].filter((v) => VERBS.includes(v));
        const ks = keys(o);
        if (ks) for (const k of ks) ctx.check(want.includes(k), `spec ${sn}: the client has ${a} ${k}, which the spec does not declare as an operation`, A, 'foreignMethod');
        for (const v of want) {
          const id = `${a}:${v}`;
          const fn = T.simp(I.getProp(x.st, o, T.K(v)), x.st.conds);
          if (!ctx.check(fn.k === 'fn' || fn.k === 'nat' ? true : hasTop(fn) ? undefined : false, `spec ${sn}: ${a} ${v} is ${T.show(fn)} in the client`, A, 'missing')) continue;
          const s0 = x.st.clone(); const mark = s0.ev;
          for (const q of I.callValue(fn, undefined, [W.PARAMS], s0, null)) {
            ctx.paths++;
            if (!ctx.check(!q.ex, `spec ${sn}: ${a} ${v} throws ${q.ex && T.show(q.ex)}`, A, 'callThrows')) continue;
            const evs = flatEvents(q.st.events(mark));
            const starts = evs.filter((e) => e.t === 'start'); const encs = evs.filter((e) => e.t === 'encode');
            ctx.check(starts.length === 1 && starts[0].route === routes[id], `spec ${sn}: ${a} ${v} requests ${starts.map((e) => Object.keys(routes).find((r) => routes[r] === e.route) || T.show(e.route || T.undef)).join(', ') || 'nothing'}`, A, 'crossed');
            ctx.check(encs.length > 0 && encs.every((e) => e.id === id), `spec ${sn}: ${a} ${v} encodes its argument with the codec of ${encs.map((e) => e.id)}`, A, 'crossedCodec');
          }
        }
      }
    }
    ctx.use(I);
  });
}
module.exports = { S01, S02, S03, S04, S05, CW, PKG, VERBS, anchor, reaches, asString, val };
