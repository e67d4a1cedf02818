'use strict';
// typed-express-router: T01..T08. The wrapper is interpreted abstractly over the current source:
// a spec with symbolic codecs, symbolic hooks and an opaque Express router; the chain of handlers
// it registers is taken from the registration call and followed under Express' calling convention
// (handlers in order, next() runs the following one, an exception or next(err) leaves the chain).
const { T, P, Interp, State, scenario, root, responses, flatEvents, throwsAssumed, hasTop, flows, expand } = require('./lib');
const { Abort } = require('../engine/interp');
const VERBS = ['get', 'post', 'put', 'delete', 'patch'];
const HOOKS = ['decodeErrorFormatter', 'getDecodeErrorStatusCode', 'encodeErrorFormatter', 'getEncodeErrorStatusCode', 'afterEncodedResponseSent'];
const PKG = 'typed-express-router';
const isOtel = (t) => { const r = root(t); return !!r && ((r.k === 'sym' && /^modvar:.*telemetry|^modvar:/.test(r.n)) || (r.k === 'ext' && /opentelemetry/.test(r.m))); };
const RES_NOTHROW = ['status', 'end', 'set', 'header', 'setHeader', 'type', 'sendStatus', 'writeHead', 'get', 'on', 'once'];

function mkInterp(mode) {
  return new Interp({ rec: 'abort',
    throwing: mode || 'caught',
    truthy: (t) => t.k === 'call' && t.fn.k === 'prop' && t.fn.key.k === 'const' && t.fn.key.v === 'startSpan' && isOtel(t.fn),
    noThrow(fn, self) {
      if (isOtel(fn) || (self && isOtel(self))) return true;
      if (fn.k === 'ext' && fn.p === 'JSON.stringify') return true;
      if (fn.k === 'op' && fn.op === 'new') return true;
      if (fn.k === 'prop' && fn.key.k === 'const' && self && root(self).k === 'sym' && root(self).n === 'res' && RES_NOTHROW.includes(fn.key.v)) return true;
      if (self && root(self) === T.sym('router')) return true;
      return false;
    },
  });
}
// a member of a value about whose members not everything is known
const unresolved = (I, st, o, m) => {
  m = T.simp(m, st.conds);
  if (hasTop(m)) return true;
  return T.mentions(m, (x) => x.k === 'prop' && x.b === o) && (o.k === 'fn' || o.k === 'nat' || o.k === 'obj') && (I.entsOf(st, o) || []).some((e) => e.t !== 'kv' && e.t !== 'spread' && e.t !== 'del' || (e.key && e.key.k !== 'const'));
};
class World {
  constructor(ctx, o) {
    this.ctx = ctx;
    this.o = Object.assign({ via: 'wrap', verb: 'get', unchecked: false, router: {}, route: {}, mode: 'caught', handlers: 2, mws: [], aliases: undefined, api: 'api.one', routeOpts: true, path: T.sym('path') }, o);
    this.I = mkInterp(this.o.mode);
    this.req = T.sym('req'); this.res = T.sym('res');
    this.hooks = new Map();
    this.request = T.sym('requestCodec'); this.response = T.sym('responseCodecs');
  }
  kv(o, st) { return this.I.alloc('obj', Object.keys(o).map((k) => ({ t: 'kv', key: T.K(k), v: o[k] })), st); }
  hook(level, name) {
    const id = `hook:${level}:${name}`;
    const sym = T.sym(id);
    return this.I.native(id, (st, self, args, node) => this.I.opaqueCall(st, sym, undefined, args, node));
  }
  hookObj(level, spec, st) {
    const o = {};
    for (const h of HOOKS) { const w = spec[h] || spec.all || 'given'; if (w === 'given') o[h] = this.hook(level, h); else if (w === 'undefined') o[h] = T.undef; }
    return o;
  }
  // -> list of {st, wrapped}
  build() {
    const { I, o } = this;
    const st = new State();
    if (o.otel !== undefined) this.pre = o.otel;
    this.routes = {};
    const ops = {};
    const r = this.kv({ method: T.sym('METHOD'), path: o.path, request: this.request, response: this.response }, st);
    this.route = r;
    for (const v of VERBS) ops[v] = v === o.verb ? r : this.kv({ method: T.sym('METHOD:' + v), path: T.sym('path:' + v), request: T.sym('requestCodec:' + v), response: T.sym('responseCodecs:' + v) }, st);
    const other = {};
    for (const v of VERBS) other[v] = this.kv({ method: T.sym('METHOD2:' + v), path: T.sym('path2:' + v), request: T.sym('requestCodec2:' + v), response: T.sym('responseCodecs2:' + v) }, st);
    this.spec = this.kv({ [o.api]: this.kv(ops, st), 'api.two': this.kv(other, st) }, st);
    this.routerTerm = T.sym('router');
    const ro = this.hookObj('router', o.router, st);
    let outs;
    if (o.via === 'wrap') {
      const f = I.exportValue(PKG, 'index.ts', 'wrapRouter');
      if (!f) return [];
      outs = I.callValue(f, undefined, [this.routerTerm, this.spec, this.kv(ro, st)], st, null);
    } else {
      const f = I.exportValue(PKG, 'index.ts', 'createRouter');
      if (!f) return [];
      const oo = Object.assign({ caseSensitive: T.sym('opt:caseSensitive') }, ro);
      outs = I.callValue(f, undefined, o.noRouterOptions ? [this.spec] : [this.spec, this.kv(oo, st)], st, null);
    }
    return outs.filter((x) => !x.ex).map((x) => ({ st: x.st, wrapped: x.v })).concat(outs.filter((x) => x.ex).map((x) => ({ st: x.st, ex: x.ex })));
  }
  user(name, f) {
    return this.I.native(name, (st, self, args) => {
      st.event({ t: 'user', name, req: args[0], res: args[1], decoded: args[0] && this.I.getProp(st, args[0], 'decoded'), conds: st.conds.slice(), st: st.clone() });
      const next = args[2];
      if (f) return f(st, args);
      if (!next) return [{ st, v: T.undef }];
      return this.I.callValue(next, undefined, [], st, null);
    });
  }
  // add the route; -> [{st, regs: [{verb, path, chain(segs)}], ex}]
  add(b) {
    const { I, o } = this;
    let states = [b.st];
    o.mws.forEach((m) => {
      const use = I.getProp(b.st, b.wrapped, 'use');
      states = states.flatMap((s) => I.callValue(use, b.wrapped, [m], s, null).filter((x) => !x.ex).map((x) => x.st));
    });
    const res = [];
    for (const st of states) {
      const name = o.verb + (o.unchecked ? 'Unchecked' : '');
      const f = I.getProp(st, b.wrapped, name);
      if (unresolved(I, st, b.wrapped, f)) throw new Abort(`${name} of the typed router not resolved`);
      this.userHandlers = [];
      const hs = o.handlersTerm || (() => { for (let i = 0; i < o.handlers; i++) this.userHandlers.push(this.user('handler' + i, i === o.handlers - 1 ? o.last : undefined)); return I.alloc('arr', this.userHandlers.map((v) => ({ t: 'one', v })), st); })();
      const ro = this.hookObj('route', o.route, st);
      if (o.aliases) ro.routeAliases = o.aliases(I, st);
      const args = [T.K(o.api), hs];
      if (o.routeOpts) args.push(this.kv(ro, st));
      const mark = st.ev;
      for (const x of I.callValue(f, b.wrapped, args, st, null)) {
        const regs = [];
        for (const e of flatEvents(x.st.events(mark))) {
          if (e.t !== 'call' || e.fn.k !== 'prop' || !e.self) continue;
          const rt = root(e.self);
          if (rt !== this.routerTerm && !(rt.k === 'ext' && rt.m === 'express')) continue;
          regs.push(Object.assign({ verb: e.fn.key, self: e.self, path: e.args[0], args: e.args, inLoop: e.inLoop, e }, {}));
        }
        for (const rg of regs) rg.chain = this.chainOf(x.st, rg);
        res.push({ st: x.st, ex: x.ex, regs, wrapped: b.wrapped });
      }
    }
    return res;
  }
  chainOf(st, rg) {
    const segs = [];
    for (const a of rg.args.slice(1)) {
      if (a.spread) { segs.push(...this.I.segsOf(st, a.spread)); continue; }
      const k = this.I.kind(a);
      if (k === 'arr') segs.push(...((rg.e.snap && rg.e.snap.get(a)) || this.I.entsOf(st, a)));
      else segs.push({ t: 'one', v: a });
    }
    return segs;
  }
  // follow a request through a chain; -> states
  run(st, segs, opts) {
    const { I } = this;
    opts = opts || {};
    const step = (i, s) => {
      if (i >= segs.length) { s.event({ t: 'end-of-chain' }); return [s]; }
      const seg = segs[i];
      if (seg.t !== 'one' || (seg.g && seg.g.length)) { s.event({ t: 'opaque-handlers', seg }); return step(i + 1, s); }
      const next = I.native('next', (s2, self, a) => {
        if (!a.length || (a[0].k === 'const' && !a[0].v)) return step(i + 1, s2).map((x) => ({ st: x, v: T.undef }));
        s2.event({ t: 'next-err', v: a[0] });
        return [{ st: s2, v: T.undef }];
      });
      const out = [];
      for (const o of I.callValue(seg.v, undefined, [this.req, this.res, next], s, null)) {
        if (o.ex) o.st.event({ t: 'express-error', ex: o.ex, i });
        out.push(...I.drain(o.st));
      }
      return out;
    };
    return step(0, st);
  }
}
// the decode call a trace uses, checked to be the route's codec applied to the four sections
function decodeCall(W, st, t) {
  let found;
  T.mentions(t, (x) => { if (x.k === 'call' && x.fn.k === 'prop' && x.fn.key.k === 'const' && x.fn.key.v === 'decode') found = found || x; return false; });
  return found;
}
function decodeArgOk(W, st, D) {
  const { I, req } = W;
  if (D.fn.b !== W.request || D.args.length < 1) return false;
  const a = D.args[0];
  if (a.spread) return false;
  const ents = I.entsOf(st, a);
  if (!ents || a.k !== 'obj') return false;
  const want = ['body', 'headers', 'params', 'query'];
  for (const k of want) if (T.simp(I.getProp(st, a, k), st.conds) !== T.prop(req, k)) return false;
  for (const e of ents) if (e.t !== 'kv' || e.key.k !== 'const' || !want.includes(e.key.v)) return false;
  return true;
}
// calls and writes by which the router itself would change the response before the user's handlers run
const PLAIN_RES = ['sendEncoded', 'locals'];
function touches(W, evs) {
  const end = evs.findIndex((e) => e.t === 'user');
  return evs.slice(0, end < 0 ? evs.length : end).filter((e) => (e.t === 'call' && e.self === W.res && e.fn.k === 'prop' && e.fn.key.k === 'const' && !/^(get|on|once|getHeader|hasHeader|emit|listenerCount)/.test(e.fn.key.v)) || (e.t === 'set' && e.base === W.res && e.key.k === 'const' && ['statusCode', 'statusMessage'].includes(e.key.v)));
}
void PLAIN_RES;
const leftAtom = (D) => T.op('===', T.prop(D, '_tag'), T.K('Left'));
function hookCalls(events) { return events.filter((e) => e.t === 'call' && e.fn.k === 'sym' && /^hook:/.test(e.fn.n)).map((e) => Object.assign({ hook: e.fn.n.split(':')[2], level: e.fn.n.split(':')[1] }, { e })); }
const showEv = (e) => (e.t === 'call' ? T.show(e.res) : e.t === 'user' ? `[${e.name} runs]` : e.t === 'set' ? `${T.show(e.base)}.${T.show(e.key)} = ${T.show(e.v)}` : e.t === 'express-error' ? `[exception ${T.show(e.ex)} leaves the chain]` : `[${e.t}]`);
const describe = (st, evs) => `when ${T.showConds(st.conds.slice(-6))}: ${evs.filter((e) => !(e.t === 'call' && isOtel(e.fn))).map(showEv).join('; ')}`;
function anchor(name) { const s = P.findExport(PKG, 'index.ts', name); return s && s.valueDeclaration ? `${P.loc(s.valueDeclaration)} (${name})` : `${PKG} (${name} missing)`; }
// run `f(W, afterAdd, reg)` for every build/add outcome
function each(ctx, o, f) {
  const label = `${o.via || 'wrap'}Router.${o.verb || 'get'}${o.unchecked ? 'Unchecked' : ''}`;
  scenario(ctx, label, () => {
    const W = new World(ctx, o);
    if (o.setup) o.setup(W);
    const bs = W.build();
    ctx.check(bs.some((b) => !b.ex) && (W.o.mode === 'all' || bs.every((b) => !b.ex)), `${label}: the router factory is exported and completes`, anchor(o.via === 'create' ? 'createRouter' : 'wrapRouter'));
    for (const b of bs) { if (b.ex) continue; for (const a of W.add(b)) f(W, a, label); }
    ctx.use(W.I);
  });
}
const routeRegs = (W, a) => a.regs.filter((r) => r.verb.k === 'const' && (VERBS.includes(r.verb.v) || ['all', 'use', 'head', 'options'].includes(r.verb.v)));

// ---------------------------------------------------------------- T01
function T01(ctx) {
  const combos = [];
  for (const via of ['wrap', 'create']) for (const verb of VERBS) combos.push({ via, verb, router: { all: 'given' }, route: { all: 'absent' } });
  combos.push({ router: { all: 'given' }, route: { all: 'given' } }, { router: { all: 'absent' }, route: { all: 'absent' } }, { router: { all: 'given' }, route: {}, routeOpts: false });
  for (const c of combos) each(ctx, c, (W, a, label) => {
    const A = anchor(c.via === 'create' ? 'createRouter' : 'wrapRouter');
    if (!ctx.check(!a.ex && routeRegs(W, a).length > 0, `${label}: adding a declared route registers a chain`, A)) return;
    for (const reg of routeRegs(W, a)) {
      const mark = a.st.ev;
      for (const st of W.run(a.st.clone(), reg.chain)) {
        ctx.paths++;
        const evs = flatEvents(st.events(mark));
        const users = evs.filter((e) => e.t === 'user');
        const err = evs.find((e) => e.t === 'express-error' || e.t === 'next-err');
        const sent = responses(W.I, st, evs, W.res);
        if (users.length) {
          const u = users[0];
          for (const x of users) {
            const d = T.simp(x.decoded, x.conds);
            if (hasTop(d)) { ctx.undetermined(`${label}: value of req.decoded not resolved`); continue; }
            const D = decodeCall(W, x.st, d);
            ctx.check(!!D && decodeArgOk(W, x.st, D), `${label}: ${x.name} runs although the request was not decoded with the route's codec from body, headers, params and query; req.decoded is ${T.show(d)}`, A, 'codec');
            if (!D) continue;
            ctx.check(T.known(leftAtom(D), x.conds) === false, `${label}: ${x.name} runs without the decode result being known successful (${T.showConds(x.conds.slice(-4))})`, A, 'gate');
            ctx.check(d === T.prop(D, 'right'), `${label}: ${x.name} sees req.decoded = ${T.show(d)} instead of the decoded value`, A, 'decoded');
            ctx.check(x.req === W.req && x.res === W.res, `${label}: ${x.name} is called with other objects than the request and response`, A);
          }
          ctx.check(users.length === W.o.handlers && users.every((x, i) => x.name === 'handler' + i), `${label}: handlers run as [${users.map((x) => x.name)}]`, A, 'order');
          ctx.check(sent.length === 0, `${label}: the router sends a response itself for a request that decodes: ${describe(st, evs)}`, A, 'extra');
          ctx.check(touches(W, evs).length === 0, `${label}: the router changes the response before the handlers run: ${describe(st, evs)}`, A, 'touch');
          void u;
          continue;
        }
        if (err) {
          // the codec or a hook threw: nothing ran; no success
          ctx.check(sent.length === 0, `${label}: response sent and exception raised: ${describe(st, evs)}`, A, 'err');
          continue;
        }
        // no handler ran: exactly one error response made by the hooks
        if (st.conds.some((l) => !l.or && l.atom.k === 'top')) { ctx.undetermined(`${label}: undecided branch`); continue; }
        if (!ctx.check(sent.length === 1, `${label}: request that reaches no handler gets ${sent.length} responses: ${describe(st, evs)}`, A, 'one')) continue;
        checkDecodeError(ctx, W, c, st, evs, sent[0], label, A);
      }
    }
    ctx.sample(`${label}: ${ctx.paths} paths so far`);
  });
}
function levelOf(c, h) {
  const ro = c.routeOpts === false ? 'absent' : (c.route && (c.route[h] || c.route.all)) || 'given';
  if (ro === 'given') return 'route';
  const r = (c.router && (c.router[h] || c.router.all)) || 'given';
  return r === 'given' ? 'router' : 'default';
}
function hookValue(ctx, W, c, st, v, h, args, label, A) {
  // is v the result of the expected hook applied to args?
  const lvl = levelOf(c, h);
  v = T.simp(v, st.conds);
  if (hasTop(v)) { ctx.undetermined(`${label}: ${h} result not resolved: ${T.show(v)}`); return; }
  let ok;
  if (lvl !== 'default') ok = v.k === 'call' && v.fn === T.sym(`hook:${lvl}:${h}`) && args(v.args);
  else if (h === 'getDecodeErrorStatusCode') ok = v === T.K(400);
  else if (h === 'getEncodeErrorStatusCode') ok = v === T.K(500);
  else if (h === 'encodeErrorFormatter') ok = v.k === 'obj' && (W.I.entsOf(st, v) || [1]).length === 0 && W.I.kind(v) === 'obj';
  else if (h === 'decodeErrorFormatter') ok = v.k === 'call' && v.fn.k === 'ext' && /PathReporter/.test(v.fn.m + v.fn.p) && /failure$/.test(v.fn.p) && args([v.args[0], W.req]);
  ctx.check(!!ok, `${label}: expected the ${lvl === 'default' ? 'default' : lvl + "'s"} ${h} applied to the error and the request, got ${T.show(v)}`, A, `${h}:${lvl}`);
}
function checkDecodeError(ctx, W, c, st, evs, r, label, A) {
  // which decode result is it about?
  const lits = st.conds.filter((l) => !l.or && l.pos && l.atom.k === 'op' && l.atom.op === '===' && l.atom.a[1] === T.K('Left'));
  const D = lits.map((l) => l.atom.a[0].b).find((x) => x && x.k === 'call');
  if (!ctx.check(!!D && decodeArgOk(W, st, D), `${label}: error response without the route's decode result being a failure: ${describe(st, evs)}`, A, 'cause')) return;
  const args = (a) => a.length === 2 && T.simp(a[0], st.conds) === T.prop(D, 'left') && a[1] === W.req;
  hookValue(ctx, W, c, st, r.status || T.K('(none)'), 'getDecodeErrorStatusCode', args, label, A);
  hookValue(ctx, W, c, st, r.body || T.K('(none)'), 'decodeErrorFormatter', args, label, A);
  ctx.check(r.how === 'json' || (r.how === 'send'), `${label}: the decode error is not sent as JSON (${r.how})`, A, 'json');
}

// ---------------------------------------------------------------- sendEncoded exploration
// runs res.sendEncoded(status, payload) from inside the last handler of the chain
function sendScenario(ctx, o, f) {
  const status = o.status || T.sym('status');
  const payload = T.sym('payload');
  let marker;
  const last = (st, args) => {
    const W = last.W;
    W.sendMark = W.sendMark || new Map();
    const se = W.I.getProp(st, args[1], 'sendEncoded');
    st.event({ t: 'send-begin' });
    const outs = W.I.callValue(se, args[1], [status, payload], st, null);
    for (const x of outs) { if (x.ex) x.st.event({ t: 'send-threw', ex: x.ex }); x.st.event({ t: 'send-end' }); }
    return outs;
  };
  each(ctx, Object.assign({ handlers: 1, last, unchecked: true }, o, { setup: (W) => { last.W = W; } }), (W, a, label) => {
    const regs = routeRegs(W, a);
    if (!regs.length) { ctx.check(false, `${label}: no route registered`, anchor('wrapRouter')); return; }
    marker = a.st.ev;
    for (const st of W.run(a.st.clone(), regs[0].chain)) {
      const all = flatEvents(st.events(marker));
      const i = all.findIndex((e) => e.t === 'send-begin');
      if (i < 0) continue;
      ctx.paths++;
      f(W, st, all.slice(i + 1), label, status, payload, all);
    }
  });
}
function responseTable(W) { return T.prop; }
void responseTable;
function sendFacts(W, st, evs, status, payload) {
  const sent = responses(W.I, st, evs, W.res);
  const codec = T.prop(W.response, status);
  return { sent, codec, after: hookCalls(evs).filter((h) => h.hook === 'afterEncodedResponseSent') };
}
// ---------------------------------------------------------------- T03
function T03(ctx) {
  const A = anchor('wrapRouter');
  const table = (I) => I.exportValue('io-ts-http', 'statusCode.ts', 'KeyToHttpStatus');
  const cases = [{}, { route: { all: 'absent' } }, { via: 'create', route: { all: 'absent' } }, { unchecked: false }];
  for (const v of VERBS) cases.push({ verb: v, unchecked: v.length % 2 === 0, route: { all: 'absent' } });
  const consts = [];
  {
    const I = mkInterp();
    const t = table(I);
    const ents = t && I.entsOf(new State(), t);
    ctx.check(!!ents && ents.length > 50, 'KeyToHttpStatus is an exported constant table', 'packages/io-ts-http/src/statusCode.ts');
    for (const e of ents || []) if (e.t === 'kv' && e.key.k === 'const') consts.push([e.key.v, e.v]);
  }
  const keys = ctx.tier === 'thorough' ? consts : consts.filter(([k]) => ['ok', 'created', 'noContent', 'invalidRequest', 'notFound', 'internalError'].includes(k));
  for (const [k, v] of keys) cases.push({ status: T.K(k), expect: v, route: { all: 'absent' } });
  for (const n of [200, 404, 599, 299]) cases.push({ status: T.K(n), expect: T.K(n), route: { all: 'absent' } });
  cases.push({ status: T.K('notAStatus'), expect: null, route: { all: 'absent' } });
  for (const c of cases) sendScenario(ctx, c, (W, st, evs, label0, status, payload) => {
    const label = `${label0} sendEncoded(${T.show(status)}, payload)`;
    const { sent, codec, after } = sendFacts(W, st, evs, status, payload);
    const conds = st.conds;
    if (sent.some((r) => (r.body && hasTop(r.body)) || (r.status && hasTop(r.status)))) { ctx.undetermined(`${label}: response not resolved`); return; }
    const hookThrew = evs.find((e) => e.t === 'send-threw');
    if (hookThrew) { ctx.check(sent.length <= 1, `${label}: ${sent.length} responses: ${describe(st, evs)}`, A, 'one'); return; }
    if (!ctx.check(sent.length === 1, `${label}: ${sent.length} responses sent: ${describe(st, evs)}`, A, 'one')) return;
    const r = sent[0];
    const encoded = T.call(T.prop(codec, 'encode'), codec, [payload], 0);
    const body = r.body ? T.simp(r.body, conds) : undefined;
    const carries = body && carriesPayload(body, payload);
    if (body === encoded) {
      // success: every precondition established
      ctx.check(T.known(codec, conds) === true || T.known(T.op('nullish', codec), conds) === false || T.known(T.op('===', codec, T.undef), conds) === false, `${label}: payload sent although the codec of the status may be missing: ${T.showConds(conds)}`, A, 'nocodec');
      const is = T.call(T.prop(codec, 'is'), codec, [payload], 0);
      ctx.check(T.known(is, conds) === true, `${label}: payload sent without being accepted by the codec of its status: ${T.showConds(conds)}`, A, 'is');
      const stt = T.simp(r.status || T.undef, conds);
      if (c.expect !== undefined) ctx.check(stt === c.expect, `${label}: answered with status ${T.show(stt)}, expected ${c.expect ? T.show(c.expect) : 'an error'}`, A, 'status');
      else {
        const isNum = T.op('===', T.op('typeof', status), T.K('number'));
        const leafOk = (v, cs) => {
          v = T.simp(v, cs);
          if (v.k === 'cond') {
            const y = leafOk(v.a, cs.concat(v.g)); const n = v.g.length === 1 && !v.g[0].or ? leafOk(v.b, cs.concat([T.neg(v.g[0])])) : leafOk(v.b, cs);
            return y && n;
          }
          const num = T.known(isNum, cs);
          if (v === status) return num !== false;
          if (v.k === 'prop' && v.key === status && v.b === table(W.I)) return num !== true && T.known(T.op('===', v, T.undef), cs) !== true;
          return false;
        };
        ctx.check(leafOk(stt, conds), `${label}: answered with status ${T.show(stt)} which is not the HTTP status named by the argument`, A, 'status');
        // named statuses must be known
        const named = T.prop(table(W.I), status);
        const unk = T.known(T.op('===', named, T.undef), conds.concat([T.lit(isNum, false)]));
        ctx.check(T.known(isNum, conds) === true || unk === false || T.known(named, conds.concat([T.lit(isNum, false)])) === true, `${label}: a status name without HTTP status is answered as success: ${T.showConds(conds)}`, A, 'unknown');
      }
      const hs = after.filter((h) => h.level === levelOf(c, 'afterEncodedResponseSent'));
      if (levelOf(c, 'afterEncodedResponseSent') !== 'default') {
        ctx.check(hs.length === 1 && after.length === 1, `${label}: after-response hook called ${after.length} times after a sent response`, A, 'after');
        if (hs.length) {
          const pos = evs.findIndex((e) => e === hs[0].e || (e.t === 'call' && e.res === hs[0].e.res));
          ctx.check(pos > r.at, `${label}: after-response hook runs before the response is sent`, A, 'afterorder');
          const a = hs[0].e.args;
          ctx.check(a.length === 4 && T.simp(a[0], conds) === stt && a[1] === payload && a[2] === W.req && a[3] === W.res, `${label}: after-response hook called with (${a.map((x) => T.show(x.spread || x))})`, A, 'afterargs');
        }
      }
      ctx.check(!carriesElsewhere(evs, r, payload), `${label}: payload leaves in another call too`, A, 'leak');
    } else {
      ctx.check(!carries, `${label}: sends ${T.show(body || T.undef)} which is not the payload encoded by the codec of its status`, A, 'body');
      if (carries) return;
      ctx.check(after.length === 0, `${label}: after-response hook runs although the payload was not sent: ${describe(st, evs)}`, A, 'afterneg');
      const errOf = (a) => a.length === 2 && a[1] === W.req && !(a[0].k === 'const');
      hookValue(ctx, W, c, st, r.status || T.K('(none)'), 'getEncodeErrorStatusCode', errOf, label, A);
      hookValue(ctx, W, c, st, r.body || T.K('(none)'), 'encodeErrorFormatter', errOf, label, A);
      // there must be a reason for the failure
      const is = T.call(T.prop(codec, 'is'), codec, [payload], 0);
      const named = T.prop(table(W.I), status);
      const cause = (cs) => T.known(codec, cs) === false || T.known(is, cs) === false || T.known(T.op('===', codec, T.undef), cs) === true || T.known(T.op('nullish', codec), cs) === true
        || T.known(T.op('===', named, T.undef), cs) === true || T.known(T.op('nullish', named), cs) === true || T.known(named, cs) === false || c.expect === null
        || cs.some((l) => l.pos && l.atom.k === 'op' && l.atom.op === 'throws' && !isHook(l.atom.a[0]));
      const ex = expand(conds);
      ctx.check(!ex ? undefined : ex.every(cause) ? true : ex.some((cs) => cs.some((l) => hasTop(l.atom))) ? undefined : false, `${label}: a declared status with an accepted payload is answered with an error: ${T.showConds(conds)}`, A, 'complete');
    }
  });
}
const isHook = (t) => t.k === 'call' && t.fn.k === 'sym' && /^hook:/.test(t.fn.n);
const carriesPayload = (t, p) => flows(t, p, isHook);
function carriesElsewhere(evs, r, payload) {
  return evs.some((e) => e.t === 'call' && e !== r.e && e.self && root(e.self).k === 'sym' && root(e.self).n === 'res' && e.args.some((a) => !a.spread && carriesPayload(a, payload)) && e.res !== r.e.res);
}

// ---------------------------------------------------------------- T02
function T02(ctx) {
  const A = anchor('wrapRouter');
  const LV = ['given', 'absent', 'undefined'];
  const runDecode = (c, label) => each(ctx, Object.assign({ handlers: 1 }, c), (W, a, lb) => {
    for (const reg of routeRegs(W, a).slice(0, 1)) {
      const mark = a.st.ev;
      for (const st of W.run(a.st.clone(), reg.chain)) {
        ctx.paths++;
        const evs = flatEvents(st.events(mark));
        if (evs.some((e) => e.t === 'express-error' || e.t === 'next-err')) continue;
        for (const h of hookCalls(evs)) checkHookCall(ctx, W, c, st, h, `${lb} ${label}`, A);
        const sent = responses(W.I, st, evs, W.res);
        if (!evs.some((e) => e.t === 'user') && sent.length === 1) checkDecodeError(ctx, W, c, st, evs, sent[0], `${lb} ${label}`, A);
      }
    }
  });
  const runSend = (c, label) => sendScenario(ctx, c, (W, st, evs, lb, status, payload) => {
    for (const h of hookCalls(evs)) checkHookCall(ctx, W, c, st, h, `${lb} ${label}`, A);
    if (evs.some((e) => e.t === 'send-threw')) return;
    const sent = responses(W.I, st, evs, W.res);
    if (sent.length !== 1) return;
    const r = sent[0];
    const carries = r.body && carriesPayload(r.body, payload);
    if (!carries) {
      const errOf = (a) => a.length === 2 && a[1] === W.req && a[0].k !== 'const';
      hookValue(ctx, W, c, st, r.status || T.K('(none)'), 'getEncodeErrorStatusCode', errOf, `${lb} ${label}`, A);
      hookValue(ctx, W, c, st, r.body || T.K('(none)'), 'encodeErrorFormatter', errOf, `${lb} ${label}`, A);
    } else {
      const after = hookCalls(evs).filter((h) => h.hook === 'afterEncodedResponseSent');
      const lvl = levelOf(c, 'afterEncodedResponseSent');
      ctx.check(lvl === 'default' ? after.length === 0 : after.length === 1 && after[0].level === lvl, `${lb} ${label}: after-response hook: expected the ${lvl}'s, called ${after.map((h) => h.level)}`, A, 'after:' + lvl);
    }
  });
  const vias = ['wrap', 'create'];
  for (const via of vias) for (const h of HOOKS) for (const a of LV) for (const b of LV) {
    if (ctx.tier === 'quick' && via === 'create' && a === 'undefined' && b === 'undefined') continue;
    const c = { via, router: { all: 'given', [h]: b }, route: { all: 'given', [h]: a } };
    const label = `[${h}: route ${a}, router ${b}]`;
    if (/Decode|decode/.test(h)) runDecode(c, label); else runSend(c, label);
  }
  // every verb, checked and unchecked: hooks of route and router mixed, and no options at all
  for (const verb of VERBS) {
    const mixed = { verb, router: { all: 'given' }, route: { all: 'absent', decodeErrorFormatter: 'given', getEncodeErrorStatusCode: 'given' } };
    runDecode(mixed, '[mixed]'); runSend(Object.assign({ unchecked: true }, mixed), '[mixed]'); runSend(Object.assign({}, mixed, { unchecked: false }), '[mixed, checked]');
    const none = { verb, router: { all: 'given' }, route: {}, routeOpts: false };
    runDecode(none, '[no route options]'); runSend(none, '[no route options]');
  }
  const bare = { via: 'create', noRouterOptions: true, router: { all: 'absent' }, route: {}, routeOpts: false };
  runDecode(bare, '[no options anywhere]'); runSend(bare, '[no options anywhere]');
}
function checkHookCall(ctx, W, c, st, h, label, A) {
  const lvl = levelOf(c, h.hook);
  ctx.check(h.level === lvl, `${label}: the ${h.level}'s ${h.hook} is called where the ${lvl}'s applies`, A, `${h.hook}:${lvl}`);
  const a = h.e.args.map((x) => (x.spread ? x.spread : T.simp(x, st.conds)));
  let ok;
  if (/ecodeError/.test(h.hook)) ok = a.length === 2 && a[1] === W.req && a[0].k === 'prop' && a[0].key.v === 'left';
  else if (/ncodeError/.test(h.hook)) ok = a.length === 2 && a[1] === W.req && a[0].k !== 'const';
  else ok = a.length === 4 && a[1].k === 'sym' && a[1].n === 'payload' && a[2] === W.req && a[3] === W.res;
  ctx.check(ok, `${label}: ${h.hook} is called with (${a.map((x) => T.show(x))})`, A, `${h.hook}:args`);
}

// ---------------------------------------------------------------- T04
function T04(ctx) {
  const A = anchor('wrapRouter');
  const conv = (p) => p.replace(/{(\w+)}/g, ':$1');
  const templates = ['/', '/a/{id}', '/{a}/{b}', '/x/{a_1}/y/{b2}', '/{a}-{b}', '/{id}/{id}', '/no/params', '/a/{x}/b/{y}/c/{z}', '/{a}{b}'];
  const aliasLists = { none: () => T.undef, two: (I, st) => I.alloc('arr', [{ t: 'one', v: T.K('/alias/{keep}/:one') }, { t: 'one', v: T.sym('alias2') }], st), any: () => T.sym('aliases') };
  for (const unchecked of [false, true]) for (const verb of VERBS) for (const al of Object.keys(aliasLists)) {
    for (const tpl of al === 'two' && verb === 'get' ? templates : [templates[1]]) {
      const handlersTerm = al === 'any' ? T.sym('handlers') : undefined;
      each(ctx, { verb, unchecked, aliases: aliasLists[al], path: T.K(tpl), handlersTerm, handlers: 3, via: verb === 'put' ? 'create' : 'wrap' }, (W, a, label) => {
        ctx.paths++;
        if (a.ex) { if (!hasTop(a.ex)) ctx.check(false, `${label}: adding a declared route throws ${T.show(a.ex)} when ${T.showConds(a.st.conds)}`, A, 'throws'); return; }
        const regs = a.regs.filter((r) => !(r.verb.k === 'const' && ['use', 'param', 'call'].includes(r.verb.v)));
        const wrong = regs.filter((r) => r.verb !== T.K(verb));
        ctx.check(wrong.length === 0, `${label}: registered under ${wrong.map((r) => T.show(r.verb))}`, A, 'verb');
        const main = regs.filter((r) => r.path === T.K(conv(tpl)) && !r.inLoop);
        if (regs.some((r) => r.path && hasTop(r.path))) { ctx.undetermined(`${label}: path not resolved`); return; }
        ctx.check(main.length === 1, `${label}: path ${tpl} registered at [${regs.map((r) => T.show(r.path || T.undef))}], expected once at ${conv(tpl)}`, A, 'path');
        const rest = regs.filter((r) => !main.includes(r));
        if (al === 'none') ctx.check(rest.length === 0, `${label}: also registered at [${rest.map((r) => T.show(r.path || T.undef))}]`, A, 'extra');
        if (al === 'two') {
          ctx.check(rest.length === 2 && rest.some((r) => r.path === T.K('/alias/{keep}/:one')) && rest.some((r) => r.path === T.sym('alias2')), `${label}: aliases '/alias/{keep}/:one', alias2 registered as [${rest.map((r) => T.show(r.path || T.undef))}]`, A, 'alias');
        }
        if (al === 'any') {
          const item = rest.filter((r) => r.inLoop && r.path.k === 'item' && r.path.of === T.sym('aliases'));
          const none = T.known(T.op('nullish', T.sym('aliases')), a.st.conds) === true;
          ctx.check(none ? rest.length === 0 : item.length === 1 && rest.length === 1, `${label}: aliases of any number: registered [${rest.map((r) => T.show(r.path || T.undef))}]`, A, 'aliasany');
        }
        // same chain, in order
        const show = (segs) => segs.map((s) => (s.t === 'one' ? T.show(s.v) : `each ${T.show(s.src || T.undef)}`)).join(' ');
        if (main.length) {
          const ch = main[0].chain;
          for (const r of rest) ctx.check(show(r.chain) === show(ch), `${label}: ${T.show(r.path)} has another chain of handlers than the route's path`, A, 'chain');
          if (handlersTerm) {
            const tail = ch[ch.length - 1];
            ctx.check(!!tail && tail.t === 'each' && tail.src === handlersTerm && tail.segs.length === 1 && tail.segs[0].v === tail.item && !(tail.g && tail.g.length), `${label}: the chain does not end with all of the caller's handlers in order (${show(ch)})`, A, 'handlers');
          } else {
            const tail = ch.slice(-3);
            ctx.check(tail.every((s, i) => s.t === 'one' && s.v === W.userHandlers[i]) && ch.slice(0, -3).every((s) => !W.userHandlers.includes(s.v)), `${label}: the chain does not end with the caller's handlers in the order given`, A, 'handlers');
          }
        }
      });
    }
  }
  // a path of any shape is the declared one with the conversion applied
  each(ctx, { handlers: 1 }, (W, a, label) => {
    const main = a.regs.filter((r) => r.verb === T.K('get'));
    for (const r of main) ctx.check(!!r.path && (r.path === T.sym('path') ? false : hasTop(r.path) ? undefined : T.mentions(r.path, (x) => x === T.sym('path'))), `${label}: registered path ${T.show(r.path || T.undef)} is not computed from the route's declared path`, A, 'pathsrc');
  });
  // undeclared routes throw and register nothing
  for (const unchecked of [false, true]) for (const verb of VERBS) for (const how of ['undefined', 'absent', 'api']) {
    scenario(ctx, 'undeclared', () => {
      const W = new World(ctx, { verb, unchecked, handlers: 1 });
      const orig = W.kv.bind(W);
      const bs0 = W.build();
      for (const b of bs0) {
        if (b.ex) continue;
        const ops = W.I.getProp(b.st, W.spec, 'api.one');
        b.st.ents.set(ops, W.I.entsOf(b.st, ops).filter((e) => how === 'undefined' || e.key !== T.K(verb)).map((e) => (e.key === T.K(verb) ? Object.assign({}, e, { v: T.undef }) : e)));
        if (how === 'api') W.o.api = 'no.such.api';
        for (const a of W.add(b)) {
          ctx.paths++;
          ctx.check(!!a.ex && a.regs.length === 0, `${verb}${unchecked ? 'Unchecked' : ''} of an operation the spec does not define (${how}): ${a.ex ? 'throws' : 'does not throw'}, ${a.regs.length} registrations`, A, 'undeclared');
        }
      }
      void orig;
      ctx.use(W.I);
    });
  }
}

// ---------------------------------------------------------------- T05
const spanStart = (e) => e.t === 'call' && isOtel(e.fn) && e.fn.k === 'prop' && e.fn.key.k === 'const' && (e.fn.key.v === 'startSpan' || e.fn.key.v === 'startActiveSpan');
function spanBalance(ctx, st, evs, label, A) {
  const starts = evs.filter(spanStart);
  ctx.extra.spans = (ctx.extra.spans || 0) + starts.length;
  for (const s of starts) {
    const ends = evs.filter((e) => e.t === 'call' && e.fn.k === 'prop' && e.fn.key.k === 'const' && e.fn.key.v === 'end' && e.self && T.simp(e.self, st.conds) === s.res);
    ctx.check(ends.length === 1, `${label}: span ${T.show(s.args[0] || T.undef)} ended ${ends.length} times: ${describe(st, evs)}`, A, 'end');
  }
}
function T05(ctx) {
  const A = anchor('wrapRouter');
  let started = 0;
  const traces = {};
  const otelAtom = (a) => T.mentions(a, (x) => isOtel(x) && (x.k === 'sym' || x.k === 'ext')) ;
  const canon = (W, st, evs) => {
    const cs = st.conds.filter((l) => !l.or && !otelAtom(l.atom)).map((l) => T.showLit(l, 8));
    const es = evs.filter((e) => !(e.t === 'call' && (isOtel(e.fn) || (e.self && isOtel(e.self)))) && e.t !== 'modset').map((e) => (e.t === 'call' ? `call ${T.show(e.fn, 8)}(${e.args.map((x) => T.show(x.spread || x, 8).replace(/obj#\d+/g, 'obj'))})` : showEv(e)));
    return { key: [...new Set(cs)].sort().join(' & ').replace(/obj#\d+/g, 'obj').replace(/@\d+>/g, '>'), trace: es.join('; ').replace(/obj#\d+/g, 'obj').replace(/(fn|nat)<[^>]*>/g, 'fn') };
  };
  const note = (kind, W, st, evs) => {
    const on = evs.some(spanStart);
    if (on) started++;
    const c = canon(W, st, evs);
    const t = (traces[kind] = traces[kind] || { on: new Map(), off: new Map() });
    const m = on ? t.on : t.off;
    if (!m.has(c.key)) m.set(c.key, new Set());
    m.get(c.key).add(c.trace);
  };
  for (const c of [{}, { route: { all: 'absent' } }, { unchecked: true }, { verb: 'delete', via: 'create' }, { verb: 'post' }, { verb: 'put', unchecked: true }, { verb: 'patch' }]) {
    each(ctx, Object.assign({ handlers: 1, mode: 'all' }, c), (W, a, label) => {
      for (const reg of routeRegs(W, a).slice(0, 1)) {
        const mark = a.st.ev;
        for (const st of W.run(a.st.clone(), reg.chain)) {
          ctx.paths++;
          const evs = flatEvents(st.events(mark));
          spanBalance(ctx, st, evs, `${label} request`, A);
          note(`${label} request`, W, st, evs);
        }
      }
    });
    sendScenario(ctx, Object.assign({ mode: 'all' }, c, { unchecked: true }), (W, st, evs, label, status, payload, all) => {
      spanBalance(ctx, st, all, `${label} sendEncoded`, A);
      note(`${label} sendEncoded`, W, st, all);
    });
  }
  ctx.check(started > 0 ? true : undefined, 'decode and encode spans are started when tracing is available', A);
  for (const k of Object.keys(traces)) {
    const { on, off } = traces[k];
    if (!on.size) { ctx.undetermined(`${k}: no traced path`); continue; }
    for (const [key, tr] of on) {
      const o = off.get(key);
      if (!o) { ctx.extra.unmatched = (ctx.extra.unmatched || 0) + 1; continue; }
      const a = [...tr].sort().join('\n'); const b = [...o].sort().join('\n');
      ctx.check(a === b, `${k}: with tracing: ${a} / without: ${b} (when ${key})`, A, 'same');
    }
    for (const key of off.keys()) if (!on.has(key)) ctx.extra.unmatched = (ctx.extra.unmatched || 0) + 1;
  }
}

// ---------------------------------------------------------------- T10
const spanCall = (st, e, s, names) => e.t === 'call' && e.fn.k === 'prop' && e.fn.key.k === 'const' && names.includes(e.fn.key.v) && !!e.self && T.simp(e.self, st.conds) === s.res;
// what a span records before it ends: {attrs: key -> value, errors: [exception], status: [...], open: not all resolved}
function spanRecord(W, st, evs, s) {
  const { I } = W;
  const r = { attrs: new Map(), exceptions: [], failed: false, open: false };
  const put = (e, o) => {
    if (!o || o === T.undef) return;
    const take = (ents) => { for (const x of ents) {
      if (x.t === 'spread' && x.v.k === 'obj') { take((e.snap && e.snap.get(x.v)) || I.entsOf(st, x.v) || []); continue; }
      if (x.t !== 'kv' || x.key.k !== 'const') { r.open = true; continue; }
      const g = x.g && x.g.length ? T.knownConj(x.g, st.conds) : true;
      if (g === false) continue;
      const k = String(x.key.v);
      r.attrs.set(k, [{ v: T.simp(x.v, st.conds), g: g === true ? [] : x.g }].concat(g === true ? [] : r.attrs.get(k) || []));
    } };
    const ents = o.k === 'obj' ? (e.snap && e.snap.get(o)) || I.entsOf(st, o) : undefined;
    if (!ents) { r.open = true; return; }
    take(ents);
  };
  const from = evs.indexOf(s);
  for (const e of evs.slice(from)) {
    if (e === s) { if (s.args[1]) { const a = I.getProp(st, s.args[1], T.K('attributes')); if (a !== T.undef) put(s, T.simp(a, st.conds)); } continue; }
    if (spanCall(st, e, s, ['end'])) break;
    if (spanCall(st, e, s, ['setAttributes'])) put(e, T.simp(e.args[0] || T.undef, st.conds));
    else if (spanCall(st, e, s, ['setAttribute'])) { const k = T.simp(e.args[0] || T.undef, st.conds); if (k.k === 'const') r.attrs.set(String(k.v), [{ v: T.simp(e.args[1] || T.undef, st.conds), g: [] }]); else r.open = true; }
    else if (spanCall(st, e, s, ['recordException'])) r.exceptions.push(T.simp(e.args[0] || T.undef, st.conds));
    else if (spanCall(st, e, s, ['setStatus'])) {
      const a = T.simp(e.args[0] || T.undef, st.conds);
      const c = a.k === 'obj' ? T.simp(I.getProp(st, a, T.K('code')), st.conds) : T.TOP;
      if (c === T.K(2) || (c.k === 'prop' && c.key === T.K('ERROR')) || (c.k === 'ext' && /\.ERROR$/.test(c.p))) r.failed = true;
      else if (c === T.K(1) || c === T.K(0) || (c.k === 'prop' && (c.key === T.K('OK') || c.key === T.K('UNSET'))) || (c.k === 'ext' && /\.(OK|UNSET)$/.test(c.p))) r.failed = false;
      else r.open = true;
    } else if (e.t === 'call' && e.args.some((a) => !a.spread && T.simp(a, st.conds) === s.res)) r.open = true;
  }
  return r;
}
// the value recorded under a key, given what is known: {v} or {vague: true}
function recorded(r, key, conds) {
  for (const a of r.attrs.get(key) || []) {
    const g = a.g.length ? T.knownConj(a.g, conds) : true;
    if (g === true) return { v: T.simp(a.v, conds) };
    if (g === undefined) return { vague: true };
  }
  return {};
}
function T10(ctx) {
  const A = anchor('wrapRouter');
  let seen = 0;
  const falsy = (st, t) => T.known(t, st.conds) === false;
  const identity = (W, st, r, label) => {
    const want = { 'api_ts.operation_id': T.K(W.o.api), 'api_ts.method': T.sym('METHOD'), 'api_ts.path': W.o.path };
    for (const k of Object.keys(want)) {
      // an empty method or path may be left out
      const { v: got, vague } = recorded(r, k, want[k].k === 'const' ? st.conds : st.conds.concat([T.lit(want[k], true)]));
      if (got === undefined) { ctx.check(falsy(st, want[k]) ? true : r.open || vague ? undefined : false, `${label}: the span does not carry ${k} when ${T.showConds(st.conds.slice(-5))}`, A, k); continue; }
      ctx.check(got === want[k] ? true : hasTop(got) ? undefined : false, `${label}: the span carries ${k} = ${T.show(got)} and not ${T.show(want[k])}`, A, k);
    }
  };
  const failing = (W, st, r, label, status, about) => {
    ctx.check(r.failed ? true : r.open ? undefined : false, `${label}: the operation fails and its span does not say so (no ERROR status): ${T.showConds(st.conds.slice(-5))}`, A, 'error');
    ctx.check(r.exceptions.length > 0 ? true : r.open ? undefined : false, `${label}: the operation fails and its span records no exception`, A, 'exception');
    for (const x of r.exceptions) ctx.check(hasTop(x) ? undefined : T.mentions(x, about), `${label}: the span of the failing operation records ${T.show(x)}, which is not about its error`, A, 'exception');
    if (!status) return;
    const { v: got, vague } = recorded(r, 'api_ts.status_code', st.conds);
    ctx.check(got === status ? true : r.open || vague || (got && hasTop(got)) ? undefined : false, `${label}: the span of the failing operation carries api_ts.status_code = ${got ? T.show(got) : 'nothing'}; the status of the error response is ${T.show(status)}`, A, 'status');
  };
  const succeeding = (W, st, r, label, status) => {
    ctx.check(!r.failed ? true : r.open ? undefined : false, `${label}: the operation succeeds and its span has the ERROR status: ${T.showConds(st.conds.slice(-5))}`, A, 'noerror');
    ctx.check(!r.exceptions.length, `${label}: the operation succeeds and its span records the exception ${r.exceptions.length ? T.show(r.exceptions[0]) : ''}`, A, 'noexception');
    if (!status) return;
    const { v: got, vague } = recorded(r, 'api_ts.status_code', st.conds);
    ctx.check(got === status ? true : r.open || vague || (got && hasTop(got)) ? undefined : false, `${label}: the span of a response sent with status ${T.show(status)} carries api_ts.status_code = ${got ? T.show(got) : 'nothing'}`, A, 'sent');
  };
  const of = (evs, name, threw, st) => hookCalls(evs).filter((h) => h.hook === name && throwsAssumed(st.conds, h.e.res) === threw);
  for (const c of [{}, { route: { all: 'absent' } }, { unchecked: true }, { verb: 'delete', via: 'create' }, { verb: 'post', path: T.K('/a/{b}') }, { verb: 'put', unchecked: true }, { verb: 'patch' }]) {
    each(ctx, Object.assign({ handlers: 1 }, c), (W, a, label) => {
      for (const reg of routeRegs(W, a)) {
        const mark = a.st.ev;
        for (const st of W.run(a.st.clone(), reg.chain)) {
          const evs = flatEvents(st.events(mark));
          const starts = evs.filter(spanStart);
          if (!starts.length) continue;
          ctx.paths++;
          const put = evs.find((e) => e.t === 'set' && e.base === W.req && e.key === T.K('decoded')); const D = put && decodeCall(W, st, put.v);
          for (const s of starts) {
            seen++;
            const r = spanRecord(W, st, evs, s); const L = `${label} request`;
            identity(W, st, r, L);
            // a codec or a hook that throws: only the identity is promised
            if (!D || evs.some((e) => e.t === 'express-error') || throwsAssumed(st.conds, D)) continue;
            const left = T.known(leftAtom(D), st.conds);
            if (left === undefined) { ctx.check(undefined, `${L}: not known whether the request decodes`); continue; }
            if (!left) { succeeding(W, st, r, L); continue; }
            const upTo = evs.findIndex((e) => spanCall(st, e, s, ['end']));
            const hs = of(upTo < 0 ? evs : evs.slice(0, upTo), 'getDecodeErrorStatusCode', false, st);
            failing(W, st, r, L, hs.length ? hs[hs.length - 1].e.res : undefined, (x) => x === D || (x.k === 'call' && x.fn.k === 'sym' && /^hook:[^:]*:decodeErrorFormatter$/.test(x.fn.n)));
          }
        }
      }
    });
    sendScenario(ctx, Object.assign({}, c, { unchecked: true }), (W, st, evs, label, status, payload, all) => {
      const L = `${label} sendEncoded`;
      const end = evs.findIndex((e) => e.t === 'send-end');
      const mine = end < 0 ? evs : evs.slice(0, end);
      if (mine.some((e) => e.t === 'send-threw')) return;
      for (const s of mine.filter(spanStart)) {
        seen++; ctx.paths++;
        const r = spanRecord(W, st, mine, s);
        identity(W, st, r, L);
        const { sent, codec } = sendFacts(W, st, mine, status, payload);
        if (sent.length !== 1) continue; // T03
        const encoded = T.call(T.prop(codec, 'encode'), codec, [payload], 0);
        const body = sent[0].body ? T.simp(sent[0].body, st.conds) : undefined;
        const code = sent[0].status ? T.simp(sent[0].status, st.conds) : undefined;
        if (body === encoded) succeeding(W, st, r, L, code);
        else failing(W, st, r, L, code, () => true);
      }
    });
  }
  ctx.check(seen > 0 ? true : undefined, 'decode and encode spans are started when tracing is available', A);
  ctx.extra.spans = seen;
}
// ---------------------------------------------------------------- T06
function T06(ctx) {
  const A = anchor('wrapRouter');
  for (const stop of [undefined, 0, 1]) for (const via of ['wrap', 'create']) for (const verb of VERBS) for (const unchecked of [false, true]) {
    if (ctx.tier === 'quick' && via === 'create' && verb !== 'get') continue;
    const o = { via, verb, unchecked, handlers: 1, aliases: (I, st0) => I.alloc('arr', [{ t: 'one', v: T.K('/alias') }], st0), setup: (W) => { W.o.mws = [0, 1].map((i) => W.user('mw' + i, stop === i ? (st) => [{ st, v: T.undef }] : undefined)); } };
    each(ctx, o, (W, a, label) => {
      const regs = routeRegs(W, a);
      if (!ctx.check(regs.length > 0, `${label}: route registered`, A)) return;
      const mark = a.st.ev;
      for (const reg of regs) for (const st of W.run(a.st.clone(), reg.chain)) {
        ctx.paths++;
        const evs = flatEvents(st.events(mark));
        if (evs.some((e) => e.t === 'express-error')) continue;
        const us = evs.filter((e) => e.t === 'user').map((e) => e.name);
        const want = stop === undefined ? ['mw0', 'mw1'] : ['mw0', 'mw1'].slice(0, stop + 1);
        ctx.check(us.slice(0, want.length).join() === want.join() && us.filter((n) => n.startsWith('mw')).length === want.length, `${label}: router middleware mw0, mw1 (added in this order${stop !== undefined ? `, mw${stop} does not call next` : ''}) ran as [${us}]`, A, 'order');
        const sent = responses(W.I, st, evs, W.res);
        if (stop !== undefined) {
          ctx.check(us.length === want.length && sent.length === 0, `${label}: after mw${stop} did not call next the chain went on: ${describe(st, evs)}`, A, 'stop');
        } else {
          if (!unchecked) ctx.check(us.includes('handler0') || sent.length === 1, `${label}: neither handler nor decode error after the router middleware`, A, 'go');
          const firstUse = evs.findIndex((e) => e.t === 'user' && e.name === 'mw1');
          for (const r of sent) ctx.check(r.at > firstUse, `${label}: the decode error is sent before the router middleware ran`, A, 'before');
        }
        for (const e of evs) {
          if (e.t !== 'user' || !e.name.startsWith('mw')) continue;
          const d = T.simp(e.decoded, e.conds);
          const D = decodeCall(W, e.st, d);
          ctx.check(hasTop(d) ? undefined : d === D && decodeArgOk(W, e.st, D), `${label}: ${e.name} sees req.decoded = ${T.show(d)} instead of the decode result`, A, 'decoded');
          const get = (b, k) => T.simp(W.I.getProp(e.st, b, k), e.conds);
          ctx.check(get(W.req, 'apiName') === T.K('api.one'), `${label}: ${e.name} sees req.apiName = ${T.show(get(W.req, 'apiName'))}`, A, 'apiName');
          ctx.check(get(W.req, 'httpRoute') === W.route, `${label}: ${e.name} sees req.httpRoute = ${T.show(get(W.req, 'httpRoute'))}`, A, 'httpRoute');
          const se = get(W.res, 'sendEncoded');
          ctx.check(se.k === 'fn' || se.k === 'nat' || (se.k === 'op' && se.op === 'bind'), `${label}: ${e.name} sees res.sendEncoded = ${T.show(se)}`, A, 'sendEncoded');
        }
      }
    });
  }
}

// ---------------------------------------------------------------- T07
function T07(ctx) {
  const A = anchor('wrapRouter');
  for (const via of ['wrap', 'create']) for (const verb of VERBS) {
    each(ctx, { via, verb, unchecked: true, handlers: 2, route: via === 'wrap' ? { all: 'given' } : { all: 'absent' } }, (W, a, label) => {
      const reg = routeRegs(W, a)[0];
      if (!ctx.check(!!reg, `${label}: route registered`, A)) return;
      const mark = a.st.ev;
      for (const st of W.run(a.st.clone(), reg.chain)) {
        ctx.paths++;
        const evs = flatEvents(st.events(mark));
        if (evs.some((e) => e.t === 'express-error')) continue;
        const us = evs.filter((e) => e.t === 'user');
        ctx.check(us.length === 2, `${label}: ${us.length} of 2 handlers run: ${describe(st, evs)}`, A, 'run');
        for (const e of us) {
          const d = T.simp(e.decoded, e.conds);
          const D = decodeCall(W, e.st, d);
          ctx.check(hasTop(d) ? undefined : !!D && d === D && decodeArgOk(W, e.st, D), `${label}: ${e.name} sees req.decoded = ${T.show(d)} instead of the result of decoding body, headers, params and query`, A, 'decoded');
        }
        const sent = responses(W.I, st, evs, W.res);
        ctx.check(sent.length === 0, `${label}: the router itself responds: ${describe(st, evs)}`, A, 'sent');
        ctx.check(touches(W, evs).length === 0, `${label}: the router changes the response before the handlers run: ${describe(st, evs)}`, A, 'touch');
      }
    });
  }
}

// ---------------------------------------------------------------- T08
// Every cell that handling a request writes and that outlives the request (closure variables of
// the router and of the route, objects and module variables that existed before) is replaced by a
// "stale" value, at the start of the request and again whenever user code runs (other requests may
// interleave there). A stale value that reaches a branch or an effect is state shared between requests.
function collectWrites(W, before, st, written) {
  for (const [k, v] of st.vars) if (!/^(prom|cur|acc):/.test(k) && (before.vars.has(k) ? before.vars.get(k) !== v : /^mod:/.test(k))) written.cells.set(k, v);
  for (const [k, v] of st.ents) {
    if (k === W.req || k === W.res || root(k) === W.req || root(k) === W.res) continue;
    const old = before.ents.get(k);
    if (old === v) continue;
    if (old === undefined && k.k === 'obj' && !W.I.statics.has(k)) continue; // made by this request
    if (k.k === 'fn' || k.k === 'nat') continue;
    written.objs.add(k);
  }
}
function checkStale(ctx, W, evs, st, written, A) {
  const bad = (t) => T.mentions(t, (x) => (x.k === 'sym' && x.n.startsWith('stale:')) || (x.k === 'prop' && written.objs.has(x.b)));
  for (const e of evs) {
    if (e.t === 'call') ctx.check(![e.fn, e.self, ...e.args.map((x) => x.spread || x)].some((x) => x && bad(x)), `${T.show(e.res)} uses a value left behind by another request`, e.node ? P.loc(e.node) : A, 'stale');
    else if (e.t === 'user') ctx.check(!bad(e.decoded), `${e.name} sees req.decoded = ${T.show(e.decoded)}, left behind by another request`, A, 'stale');
    else if (e.t === 'svc') { for (const x of e.args) { const v = x.k === 'obj' ? W.I.getProp(e.st, x, 'other') : x; ctx.check(!bad(v) && !bad(x), `the service function of ${e.id} receives ${T.show(v)}, left behind by another request`, A, 'stale'); } } else if (e.t === 'set' && (e.base === W.req || e.base === W.res)) ctx.check(!bad(e.v), `${T.show(e.base)}.${T.show(e.key)} is set to a value left behind by another request`, e.node ? P.loc(e.node) : A, 'stale');
  }
  for (const l of st.conds) if (!l.or) ctx.check(!bad(l.atom), `a branch depends on a value left behind by another request: ${T.showLit(l, 4)}`, A, 'stalecond');
}
const staleSetter = (written) => (st) => { for (const cell of written.cells.keys()) st.vars.set(cell, T.sym('stale:' + cell)); for (const t of written.objs) st.ents.set(t, [{ t: 'unknown' }]); };
function T08(ctx) {
  require('./wrapper').sharedState(ctx);
  const A = anchor('wrapRouter');
  for (const c of [{}, { unchecked: true }, { via: 'create', verb: 'post' }, { verb: 'put' }, { verb: 'delete', unchecked: true }, { verb: 'patch' }]) {
    scenario(ctx, 'T08', () => {
      const status = T.sym('status'); const payload = T.sym('payload');
      const go = (W, b, stale) => {
        const last = (st, args) => {
          if (stale) stale(st);
          const se = W.I.getProp(st, args[1], 'sendEncoded');
          return W.I.callValue(se, args[1], [status, payload], st, null);
        };
        W.o.last = last;
        W.mwHook = stale;
        return W.add(b);
      };
      const W = new World(ctx, Object.assign({ handlers: 1 }, c));
      W.o.mws = [W.user('mw', (st, args) => { if (W.mwHook) W.mwHook(st); return W.I.callValue(args[2], undefined, [], st, null); })];
      for (const b of W.build()) {
        if (b.ex) continue;
        // pass 1: what does a request write?
        const written = { cells: new Map(), objs: new Set() };
        let stale;
        const mk = (on) => (on ? staleSetter(written) : undefined);
        for (let pass = 0; pass < 2; pass++) {
          stale = mk(pass === 1);
          W.I.opts.onResume = stale;
          for (const a of go(W, { st: b.st.clone(), wrapped: b.wrapped }, stale)) {
            if (a.ex) continue;
            const reg = routeRegs(W, a)[0];
            if (!reg) continue;
            const s0 = a.st.clone();
            if (stale) stale(s0);
            const before = a.st;
            const mark = s0.ev;
            for (const st of W.run(s0, reg.chain)) {
              ctx.paths++;
              if (pass === 0) collectWrites(W, before, st, written);
              else checkStale(ctx, W, flatEvents(st.events(mark)), st, written, A);
            }
          }
        }
        ctx.extra.sharedCellsWritten = [...written.cells.keys()].map((k) => k.replace(/^\d+:/, '')).concat([...written.objs].map((t) => T.show(t)));
      }
      ctx.use(W.I);
    });
  }
}
// ---------------------------------------------------------------- T09
const OWN = ['params', '_params', 'caseSensitive', 'mergeParams', 'strict', 'stack'];
const INHERITED = ['all', 'route', 'param', 'head', 'options', 'trace', 'handle', 'process_params', 'm-search', 'memberAddedByALibrary'];
function T09(ctx) {
  for (const via of ['wrap', 'create']) for (const hooks of ['given', 'absent']) scenario(ctx, `${via}Router, hooks ${hooks}`, () => {
    const label = `${via}Router, hooks ${hooks}`;
    const A = anchor(via === 'create' ? 'createRouter' : 'wrapRouter');
    const W = new World(ctx, { via, router: { all: hooks } });
    const { I } = W;
    // an Express router: a function with members of its own and members it inherits
    const member = (name) => I.native('router.' + name, (st, self, args, node) => { st.event({ t: 'member', name, self, args, node }); return [{ st, v: T.sym('result:' + name) }]; });
    const members = new Map(INHERITED.concat(VERBS, 'use').map((n) => [n, member(n)]));
    const router = I.native('router', (st, self, args, node) => { st.event({ t: 'member', name: '()', self: router, args, node }); return [{ st, v: T.undef }]; });
    const own = OWN.map((n) => ({ t: 'kv', key: T.K(n), v: T.sym('router.' + n) }));
    const make = (st) => {
      if (st.ents.has(router)) return;
      st.ents.set(router, own);
      st.vars.set('proto:' + router.uid, I.alloc('obj', [...members].map(([n, v]) => ({ t: 'kv', key: T.K(n), v })), st));
    };
    I.opts.ext = (I2, st, fn, self, args) => { if (fn.k !== 'ext' || fn.m !== 'express' || !/(^|\.)Router$/.test(fn.p)) return undefined; make(st); st.event({ t: 'express.Router', args }); return [{ st, v: router }]; };
    const b0 = W.build.bind(W);
    let outs;
    if (via === 'wrap') {
      // World.build with the router above
      const st = new State();
      const op = (v) => W.kv({ method: T.sym('METHOD:' + v), path: T.sym('path:' + v), request: T.sym('requestCodec:' + v), response: T.sym('responseCodecs:' + v) }, st);
      make(st);
      const f = I.exportValue(PKG, 'index.ts', 'wrapRouter');
      if (!ctx.check(!!f, `${label}: exported`, A)) return;
      const spec = W.kv({ 'api.one': W.kv({ get: op('get'), post: op('post') }, st) }, st);
      outs = I.callValue(f, undefined, [router, spec, W.kv(W.hookObj('router', W.o.router, st), st)], st, null).map((x) => ({ st: x.st, ex: x.ex, wrapped: x.v }));
    } else outs = b0();
    if (!ctx.check(outs.some((b) => !b.ex), `${label}: the router factory is exported and completes`, A)) return;
    for (const b of outs) {
      ctx.paths++;
      if (b.ex) { ctx.check(hasTop(b.ex) ? undefined : false, `${label}: throws ${T.show(b.ex)}`, A, 'throws'); continue; }
      const R = b.wrapped;
      const evs = flatEvents(b.st.events(null));
      const touched = evs.filter((e) => e.t === 'member');
      ctx.check(touched.length === 0, `${label}: making the router calls ${touched.map((e) => e.name)} of the Express router`, A, 'untouched');
      const now = b.st.ents.get(router);
      ctx.check(!!now && now.length === own.length && own.every((e, i) => now[i] === e || (now[i].t === 'kv' && now[i].key === e.key && now[i].v === e.v)), `${label}: making the router modifies the Express router`, A, 'modified');
      if (via === 'create') {
        const made = evs.filter((e) => e.t === 'express.Router');
        if (ctx.check(made.length === 1, `${label}: ${made.length} Express routers are made`, A, 'made')) {
          const a = made[0].args[0];
          const got = a ? T.simp(I.getProp(b.st, a, 'caseSensitive'), b.st.conds) : T.undef;
          ctx.check(hasTop(got) ? undefined : got === T.sym('opt:caseSensitive'), `${label}: the Express router is made with option caseSensitive ${T.show(got)} instead of the given one`, A, 'options');
        }
      }
      for (const n of OWN) {
        const got = T.simp(I.getProp(b.st, R, n), b.st.conds);
        ctx.check(unresolved(I, b.st, R, got) ? undefined : got === T.sym('router.' + n), `${label}: ${n} of the typed router is ${T.show(got).slice(0, 80)} instead of the Express router's`, A, 'own ' + n);
      }
      const calls = (name, f, args, want) => {
        const st = b.st.clone();
        const mark = st.ev;
        for (const x of I.callValue(f, R, args, st, null)) {
          ctx.paths++;
          const es = flatEvents(x.st.events(mark)).filter((e) => e.t === 'member' || e.t === 'call');
          const bad = x.ex && hasTop(x.ex) || es.some((e) => e.args.some(hasTop));
          const ok = !x.ex && es.length === 1 && es[0].t === 'member' && want.includes(es[0].name) && (es[0].self === router || es[0].self === R) && es[0].args.length >= args.length && args.every((a, i) => es[0].args[i] === a);
          ctx.check(ok ? true : bad ? undefined : false, `${label}: calling ${name} of the typed router ${x.ex ? `throws ${T.show(x.ex).slice(0, 80)}` : `calls [${es.map((e) => `${e.t === 'member' ? e.name : T.show(e.fn)}(${e.args.map((a) => T.show(a)).join(', ')})`)}]`} instead of the Express router's with the same arguments`, A, 'call ' + name);
        }
      };
      for (const n of INHERITED) {
        const f = T.simp(I.getProp(b.st, R, n), b.st.conds);
        if (unresolved(I, b.st, R, f)) { ctx.undetermined(`${label}: ${n} not resolved`); continue; }
        calls(n, f, [T.sym('arg0'), T.sym('arg1'), T.sym('arg2')], [n]);
      }
      calls('it', R, [T.sym('req'), T.sym('res'), T.sym('next')], ['()', 'handle']);
    }
    ctx.use(I);
  });
}
module.exports = { T09, T10, collectWrites, checkStale, staleSetter, T01, T02, T03, T04, T05, T06, T07, T08, World, VERBS, HOOKS };
