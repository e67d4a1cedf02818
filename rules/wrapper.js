'use strict';
// express-wrapper: E01..E05. routerForApiSpec / createServer are interpreted over a concrete table of
// operations with symbolic codecs; the chain registered on the Express router is followed for a request
// whose decoding succeeds, with middleware and service functions that finish in every possible way.
const { T, P, Interp, State, scenario, root, responses, flatEvents, hasTop, flows, expand } = require('./lib');
const { World, VERBS, collectWrites, checkStale, staleSetter } = require('./router');
const PKG = 'express-wrapper';
const isOtel = (t) => { const r = root(t); return !!r && ((r.k === 'sym' && /^modvar:/.test(r.n)) || (r.k === 'ext' && /opentelemetry/.test(r.m))); };
const RES_NOTHROW = ['status', 'end', 'set', 'header', 'setHeader', 'type', 'sendStatus', 'writeHead', 'get', 'on', 'once'];
const anchor = (name) => { const s = P.findExport(PKG, 'index.ts', name); return s && s.valueDeclaration ? `${P.loc(s.valueDeclaration)} (${name})` : `${PKG} (${name} missing)`; };
const val = (st, v) => [{ st, v }];
function mkInterp() {
  return new Interp({ rec: 'abort',
    throwing: 'caught', maxOut: 4000,
    // a decoded request and what was taken from it are plain data, not thenables
    notPromise: (t) => t.k === 'sym' || (t.k === 'prop' && t.key.k === 'const' && t.key.v === 'right' && t.b.k === 'call' && t.b.fn.k === 'prop' && t.b.fn.key.v === 'decode'),
    truthy: (t) => t.k === 'call' && t.fn.k === 'prop' && t.fn.key.k === 'const' && t.fn.key.v === 'startSpan' && isOtel(t.fn),
    noThrow(fn, self) {
      if (isOtel(fn) || (self && isOtel(self))) return true;
      if (fn.k === 'op' && fn.op === 'new') return true;
      if (fn.k === 'prop' && fn.key.k === 'const' && self && root(self).k === 'sym' && root(self).n === 'res' && RES_NOTHROW.includes(fn.key.v)) return true;
      if (self && root(self).k === 'ext' && root(self).m === 'express') return true;
      if (fn.k === 'ext' && fn.m === 'express') return true;
      return false;
    },
  });
}
// telemetry module variables preset to "tracing not available": tracing is T05's subject
function tracingOff(I, st) {
  const { ts, sourceFiles, srcRoot } = P.load();
  for (const sf of sourceFiles) {
    if (!/telemetry/.test(srcRoot(sf.fileName).rel)) continue;
    for (const s of sf.statements) if (ts.isVariableStatement(s) && !(s.declarationList.flags & ts.NodeFlags.Const)) for (const d of s.declarationList.declarations) st.vars.set('mod:' + P.loc(d), T.undef);
  }
}
const GONE = ['here', undefined, ''];
class EW extends World {
  constructor(ctx, o) {
    super(ctx, {});
    this.I = mkInterp();
    this.w = o;
    this.routes = {};
    this.svcs = {};
  }
  exp(name) { const f = this.I.exportValue(PKG, 'index.ts', name); return f; }
  // spec and handler table; o.ops: [[api, verb, makeHandler(W, st, api, verb)]]
  start() {
    const { I, w } = this;
    const st = new State();
    tracingOff(I, st);
    const apis = {};
    const table = {};
    for (const [api, verb, mk, path] of w.ops) {
      const id = `${api}:${verb}`;
      const r = this.kv({ method: T.K(verb.toUpperCase()), path: T.K(path || `/${api}/{id}/${verb}`), request: T.sym('request:' + id), response: w.response ? w.response(this, st, id) : T.sym('response:' + id) }, st);
      this.routes[id] = r;
      (apis[api] = apis[api] || {})[verb] = r;
      (table[api] = table[api] || {})[verb] = mk(this, st, api, verb);
    }
    const o2 = (t) => { const x = {}; for (const k of Object.keys(t)) x[k] = this.kv(t[k], st); return this.kv(x, st); };
    this.spec = o2(apis);
    this.table = o2(table);
    this.startSt = st;
    const opts = { spec: this.spec, routeHandlers: this.table };
    for (const k of Object.keys(w.opts || {})) opts[k] = w.opts[k](this, st);
    if (w.via === 'createServer') {
      const f = this.exp('createServer');
      if (!f) return [];
      const conf = I.native('configure', (s, self, args) => { s.event({ t: 'configure', args }); return val(s, this.table); });
      return I.callValue(f, undefined, [this.spec, conf], st, null);
    }
    const f = this.exp('routerForApiSpec');
    if (!f) return [];
    return I.callValue(f, undefined, [this.kv(opts, st)], st, null);
  }
  // registrations made since the start: [{verb, path, args, chain, self}]
  regsOf(st) {
    const regs = [];
    for (const e of flatEvents(st.events(null))) {
      if (e.t !== 'call' || e.fn.k !== 'prop' || !e.self) continue;
      const rt = root(e.self);
      if (!(rt.k === 'ext' && rt.m === 'express')) continue;
      const rg = { verb: e.fn.key.k === 'const' ? e.fn.key.v : undefined, self: e.self, path: e.args[0], args: e.args, inLoop: e.inLoop, e };
      rg.chain = this.chainOf(st, rg);
      regs.push(rg);
    }
    return regs;
  }
  // ---- actors
  mw(i, outcomes) {
    const { I } = this;
    return I.native('mw' + i, (st, self, args, node) => {
      const out = [];
      for (const o of outcomes) {
        const s = st.clone();
        if (this.onUser) this.onUser(s);
        s.event({ t: 'mw', i, o, req: args[0], res: args[1] });
        const next = args[2];
        const later = /^later:/.test(o);
        const kind = o.replace(/^later:/, '');
        const E = T.sym('error' + i);
        const act = (s2) => {
          const done = (ok) => s2.event({ t: 'mwdone', i, ok });
          if (kind === 'ok') { done(true); return I.callValue(next, undefined, [], s2, node); }
          if (kind === 'undef') { done(true); return I.callValue(next, undefined, [T.undef], s2, node); }
          if (kind === 'res') { done(true); return I.callValue(next, undefined, [T.undef, this.result(i, s2)], s2, node); }
          if (kind === 'err') { done(false); s2.assume(T.lit(E, true)); return I.callValue(next, undefined, [E], s2, node); }
          if (kind === 'error') { done(false); return I.callValue(next, undefined, [I.alloc('obj', [{ t: 'kv', key: T.K('message'), v: T.sym('message' + i) }], s2)], s2, node); }
          if (kind === 'errres') { done(false); s2.assume(T.lit(E, true)); return I.callValue(next, undefined, [E, this.result(i, s2)], s2, node); }
          if (kind === 'throw') { done(false); return [{ st: s2, ex: E }]; }
          done(false); // never finishes
          return val(s2, T.undef);
        };
        if (later) {
          s.esc = s.esc.concat([{ fn: I.native(`async part of mw${i}`, (s2) => act(s2)), call: T.sym('async' + i), i: 0 }]);
          out.push({ st: s, v: T.undef });
        } else out.push(...act(s));
      }
      return out;
    });
  }
  // the properties middleware i produces: a<i> only by it, and b shared by all, c shared by i and i+1
  result(i, st) { return this.kv({ [`only${i}`]: T.K(`r${i}.only`), shared: T.K(`r${i}.shared`), [`pair${i}`]: T.K(`r${i}.pair`), [`pair${i + 1}`]: T.K(`r${i}.pairNext`), gone: T.K(GONE[i % 3]) }, st); }
  // middlewareFn(fn), fn finishing in the given ways
  mwFn(i, outcomes, st) {
    const { I } = this;
    const fn = I.native('mwfn' + i, (st0, self, args) => outcomes.flatMap((o) => {
      const s = st0.clone();
      s.event({ t: 'mw', i, o, req: args[0], res: args[1] });
      const ok = o === 'resolve' || o === 'resolveSym';
      s.event({ t: 'mwdone', i, ok });
      if (o === 'resolve') return val(s, I.newPromise(s, T.op('ful', this.result(i, s))));
      if (o === 'resolveSym') return val(s, I.newPromise(s, T.op('ful', T.sym('resolved' + i))));
      if (o === 'reject') { s.assume(T.lit(T.sym('error' + i), true)); return val(s, I.newPromise(s, T.op('rej', T.sym('error' + i)))); }
      if (o === 'rejectUndefined') return val(s, I.newPromise(s, T.op('rej', T.undef)));
      return [{ st: s, ex: T.sym('error' + i) }];
    }));
    const f = this.exp('middlewareFn');
    const outs = f ? I.callValue(f, undefined, [fn], st, null).filter((x) => !x.ex) : [];
    return outs.length ? outs[0].v : fn;
  }
  svc(id, outcomes, make) {
    const { I } = this;
    return I.native('svc:' + id, (st, self, args) => (outcomes || ['return']).flatMap((o) => {
      const s = st.clone();
      if (this.onUser) this.onUser(s);
      s.event({ t: 'svc', id, o, args: args.slice(), nargs: args.length, conds: s.conds.slice(), st: s.clone() });
      if (o === 'throw') return [{ st: s, ex: T.sym('svcError') }];
      if (o === 'reject') return val(s, I.newPromise(s, T.op('rej', T.sym('svcError'))));
      if (o === 'rejectUndefined') return val(s, I.newPromise(s, T.op('rej', T.undef)));
      const v = make ? make(this, s) : this.kv({ type: T.K('ok'), payload: T.sym('payload:' + id) }, s);
      if (o === 'promise') return val(s, I.newPromise(s, T.op('ful', v)));
      if (o === 'later') {
        const p = I.newPromise(s, T.op('pend'));
        s.esc = s.esc.concat([{ fn: I.native('async result', (s2) => { I.resolvePromise(s2, p, v); return val(s2, T.undef); }), call: T.sym('asyncsvc'), i: 0 }]);
        return val(s, p);
      }
      if (o === 'laterReject') {
        const p = I.newPromise(s, T.op('pend'));
        s.esc = s.esc.concat([{ fn: I.native('async result', (s2) => { I.rejectPromise(s2, p, T.sym('svcError')); return val(s2, T.undef); }), call: T.sym('asyncsvc'), i: 0 }]);
        return val(s, p);
      }
      return val(s, v);
    }));
  }
  handler(form, st, mws, svc) {
    const { I } = this;
    const arr = () => I.alloc('arr', mws.map((v) => ({ t: 'one', v })), st);
    if (form === 'fn') return svc;
    if (form === 'plain') return this.kv({ middleware: arr(), handler: svc }, st);
    const f = this.exp('routeHandler');
    const arg = form === 'brandNoMw' ? { handler: svc } : { middleware: arr(), handler: svc };
    const outs = f ? I.callValue(f, undefined, [this.kv(arg, st)], st, null).filter((x) => !x.ex) : [];
    if (!outs.length) return svc;
    if (outs[0].st !== st) { st.vars = outs[0].st.vars; st.ents = outs[0].st.ents; st.conds = outs[0].st.conds; }
    return outs[0].v;
  }
}
const evName = (e) => (e.t === 'mw' ? `[mw${e.i}: ${e.o}]` : e.t === 'mwdone' ? '' : e.t === 'svc' ? `[service function ${e.id}: ${e.o}]` : e.t === 'call' ? T.show(e.res) : e.t === 'express-error' ? `[exception ${T.show(e.ex)} leaves the handler]` : e.t === 'end-of-chain' ? '[passed on to other routes]' : e.t === 'next-err' ? '[next(error)]' : '');
const describe = (st, evs) => `${evs.map(evName).filter(Boolean).join('; ').slice(0, 900)}${st.conds.length ? ` when ${T.showConds(st.conds.slice(-4))}` : ''}`;
// build, register, run one operation's chain for requests
function request(ctx, label, o, f) {
  scenario(ctx, label, () => {
    const W = new EW(ctx, o);
    const outs = W.start();
    const A = anchor(o.via === 'createServer' ? 'createServer' : 'routerForApiSpec');
    const good = outs.filter((x) => !x.ex);
    if (!ctx.check(good.length > 0, `${label}: exported and completes (${outs.map((x) => x.ex && T.show(x.ex)).join() || 'not exported'})`, A)) return;
    for (const x of good) {
      const regs = W.regsOf(x.st).filter((r) => VERBS.includes(r.verb));
      ctx.check(regs.length === o.ops.length, `${label}: ${regs.length} registrations for ${o.ops.length} operations`, A, 'registered');
      const go = o.ops.length === 1 ? regs.slice(0, 1) : regs;
      for (const reg of go) {
        const mark = x.st.ev;
        const s0 = x.st.clone(); s0.esc = [];
        const stuck = [];
        if (o.stuck) W.I.opts.onStuck = (st) => stuck.push(st.clone());
        for (const st of [...W.run(s0, reg.chain), ...stuck]) { ctx.paths++; f(W, st, flatEvents(st.events(mark)), A, reg, x); }
      }
    }
    ctx.use(W.I);
  });
}
const decodeOf = (t, codec) => { let f; T.mentions(t, (x) => { if (!f && x.k === 'call' && x.fn.k === 'prop' && x.fn.b === codec && x.fn.key.k === 'const' && x.fn.key.v === 'decode') f = x; return false; }); return f; };

// ---------------------------------------------------------------- E01 / E02 / E05 share the middleware scenarios
const OKS = ['ok', 'undef', 'res', 'later:ok', 'later:res'];
const BAD = ['err', 'error', 'errres', 'throw', 'stop', 'later:err', 'later:errres'];
function mwScenarios(ctx) {
  const out = [];
  const max = ctx.tier === 'thorough' ? 3 : 2;
  const all = OKS.concat(BAD);
  for (const form of ['brand', 'plain']) {
    for (let n = 0; n <= max; n++) out.push({ form, label: `${form} handler, ${n} middleware finishing in any way`, mws: (W) => Array.from({ length: n }, (_, i) => W.mw(i, n === 3 ? ['ok', 'res', 'later:res', 'err', 'throw', 'stop', 'later:err'] : all)) });
    // as many as the types allow, one of them failing at each position
    for (let n = 3; n <= 7; n++) {
      if (ctx.tier === 'quick' && n > 3 && n < 7) continue;
      for (let k = 0; k <= n; k++) {
        if (ctx.tier === 'quick' && n === 7 && ![0, 3, 6, 7].includes(k)) continue;
        out.push({ form, label: `${form} handler, ${n} middleware, ${k === n ? 'all succeeding' : `number ${k} failing`}`, mws: (W) => Array.from({ length: n }, (_, i) => W.mw(i, i === k ? ['err', 'throw', 'stop', 'later:err'] : i === k - 1 ? ['res', 'later:ok'] : ['res'])) });
      }
    }
    out.push({ form, label: `${form} handler, middlewareFn middleware`, fn: true, mws: (W, st) => [W.mwFn(0, ['resolve', 'reject', 'rejectUndefined', 'throw'], st), W.mwFn(1, ['resolve', 'reject', 'rejectUndefined', 'throw'], st)] });
    out.push({ form, label: `${form} handler, mixed middleware`, fn: true, mws: (W, st) => [W.mw(0, ['ok', 'res', 'later:err']), W.mwFn(1, ['resolve', 'reject'], st), W.mw(2, ['later:res', 'throw', 'err'])] });
  }
  out.push({ form: 'fn', label: 'plain function handler', mws: () => [] });
  out.push({ form: 'brandNoMw', label: 'routeHandler without middleware', mws: () => [] });
  return out;
}
function mwRun(ctx, svcOutcomes, f) {
  for (const sc of mwScenarios(ctx)) {
    const ops = [['api.one', 'get', (W, st) => { const ms = sc.mws(W, st); W.n = ms.length; return W.handler(sc.form, st, ms, W.svc('api.one:get', svcOutcomes)); }]];
    request(ctx, sc.label, { ops, stuck: true }, (W, st, evs, A) => {
      const actors = evs.filter((e) => e.t === 'mw' || e.t === 'mwdone' || e.t === 'svc');
      const failedAt = actors.findIndex((e) => e.t === 'mwdone' && !e.ok);
      f(W, st, evs, A, sc, actors, failedAt);
    });
  }
}
function E01(ctx) {
  let ran = 0;
  mwRun(ctx, ['return', 'throw'], (W, st, evs, A, sc, actors, failedAt) => {
    let expect = 0; let open = false;
    let bad;
    for (const e of actors) {
      if (e.t === 'mw') {
        if (e.i !== expect || open) bad = bad || `middleware ${e.i} runs ${open ? `before middleware ${expect - 1} has finished` : `where middleware ${expect} is due`}`;
        if (e.req !== W.req || e.res !== W.res) bad = bad || `middleware ${e.i} is not called with the request and the response`;
        expect = e.i + 1; open = true;
      } else if (e.t === 'mwdone') open = false;
      else {
        ran++;
        if (open) bad = bad || 'the service function starts before the last middleware has finished';
        if (expect !== W.n) bad = bad || `the service function runs after ${expect} of ${W.n} middleware`;
      }
    }
    ctx.check(!bad, `${sc.label}: ${bad}: ${describe(st, evs)}`, A, bad && bad.replace(/\d+/g, 'N'));
    if (failedAt >= 0) {
      const f = actors[failedAt];
      const how = actors.filter((e) => e.t === 'mw' && e.i === f.i)[0].o;
      ctx.check(failedAt === actors.length - 1, `${sc.label}: middleware ${f.i} ended with '${how}', yet ${actors.slice(failedAt + 1).map(evName).filter(Boolean)[0]} runs`, A, 'stop');
    } else if (actors.filter((e) => e.t === 'mwdone').length === W.n && !st.conds.some((l) => !l.or && l.pos && l.atom.k === 'op' && l.atom.op === '===' && l.atom.a[1] === T.K('Left'))) {
      const err = evs.some((e) => e.t === 'express-error');
      ctx.check(actors.some((e) => e.t === 'svc') || err || actors.length === 0, `${sc.label}: all middleware succeeded but the service function does not run: ${describe(st, evs)}`, A, 'run');
    }
  });
  ctx.check(ran > 0 ? true : false, 'some path reaches the service function', anchor('routerForApiSpec'));
}
const okErrorStatus = (W, st, s) => {
  const code = T.prop(W.res, 'statusCode');
  if (s !== undefined) s = T.simp(s, st.conds);
  if (s === T.K(500)) return true;
  if (s === undefined || s === code) return T.known(T.op('<', code, T.K(400)), st.conds) === false || T.known(T.op('>=', code, T.K(400)), st.conds) === true;
  if (s.k === 'cond') return ['a', 'b'].every((x) => { const s2 = st.clone(); if (x === 'a') s2.conds = st.conds.concat(s.g); else s2.conds = s.g.length === 1 && !s.g[0].or ? st.conds.concat([T.neg(s.g[0])]) : st.conds; return okErrorStatus(W, s2, s[x]); });
  if (hasTop(s)) return undefined;
  return false;
};
function E02(ctx) {
  let failing = 0;
  mwRun(ctx, ['return', 'promise', 'later', 'throw', 'reject', 'rejectUndefined', 'laterReject'], (W, st, evs, A, sc, actors, failedAt) => {
    const svc = actors.find((e) => e.t === 'svc');
    const sent = responses(W.I, st, evs, W.res);
    const how = failedAt >= 0 ? actors.find((e) => e.t === 'mw' && e.i === actors[failedAt].i).o : svc && svc.o;
    if (how === 'stop') { ctx.check(sent.length === 0, `${sc.label}: a response is sent although the middleware has not finished`, A, 'pending'); return; }
    if (!svc && failedAt < 0) return;
    const svcFailed = svc && /throw|reject/i.test(svc.o);
    const passedOn = evs.find((e) => e.t === 'end-of-chain' || e.t === 'next-err' || e.t === 'express-error');
    ctx.check(!passedOn, `${sc.label}: the request is ${passedOn && passedOn.t === 'express-error' ? 'left with an exception' : 'passed on'} after it was handled: ${describe(st, evs)}`, A, 'passed');
    if (failedAt >= 0 || svcFailed) {
      failing++;
      if (!ctx.check(sent.length === 1, `${sc.label}: ${failedAt >= 0 ? `middleware ended with '${how}'` : `the service function ended with '${how}'`} and ${sent.length} responses are sent: ${describe(st, evs)}`, A, 'count')) return;
      const s = sent[0].status;
      ctx.check(okErrorStatus(W, st, s), `${sc.label}: ${failedAt >= 0 ? `middleware ended with '${how}'` : `the service function ended with '${how}'`} and the answer has status ${s ? T.show(s) : 'as set before (possibly a success status)'}: ${describe(st, evs)}`, A, 'status');
      const p = T.sym('payload:api.one:get');
      ctx.check(!(sent[0].body && flows(sent[0].body, p)) && !(sent[0].extra && flows(sent[0].extra, p)), `${sc.label}: the payload is sent although the handler failed`, A, 'payload');
    } else ctx.check(sent.length === 1, `${sc.label}: handled request gets ${sent.length} responses: ${describe(st, evs)}`, A, 'one');
  });
  ctx.extra.failing_paths = failing;
  ctx.check(failing > 0, 'failing middleware and service functions are explored', anchor('routerForApiSpec'));
}
function E05(ctx) {
  let seen = 0;
  mwRun(ctx, ['return'], (W, st, evs, A, sc, actors) => {
    const svcs = actors.filter((e) => e.t === 'svc');
    if (!svcs.length) return;
    ctx.check(svcs.length === 1, `${sc.label}: the service function is called ${svcs.length} times`, A, 'once');
    const e = svcs[0];
    seen++;
    const a = e.args[0] && T.simp(e.args[0], e.conds);
    if (!a) { ctx.check(false, `${sc.label}: the service function is called without argument`, A, 'arg'); return; }
    if (hasTop(a)) { ctx.undetermined(`${sc.label}: argument not resolved`); return; }
    const codec = T.sym('request:api.one:get');
    const get = (o, k) => T.simp(W.I.getProp(e.st, o, k), e.conds);
    // what each middleware produced
    const results = new Map();
    for (const x of actors) if (x.t === 'mw') results.set(x.i, /res$|resolve/.test(x.o) && !/err/.test(x.o));
    const producing = sc.form === 'brand' ? [...results.keys()].filter((i) => results.get(i)) : [];
    if (!producing.length) {
      // the decoded request itself (or, for routeHandler, a copy of it)
      let R = a;
      if (sc.form === 'brand' && a.k === 'obj') {
        const es = W.I.entsOf(e.st, a) || [];
        R = es.length === 1 && es[0].t === 'spread' && !(es[0].omit && es[0].omit.length) ? T.simp(es[0].v || es[0].src, e.conds) : a;
        if (R === a) { const d = get(a, 'anything'); R = d.k === 'prop' ? d.b : a; }
      }
      const D = decodeOf(R, codec);
      ctx.check(!!D && R === T.prop(D, 'right'), `${sc.label}: the service function receives ${T.show(a)} instead of the decoded request`, A, 'decoded');
      return;
    }
    const want = {};
    for (const i of producing.sort((x, y) => x - y)) { want[`only${i}`] = `r${i}.only`; want.shared = `r${i}.shared`; want[`pair${i}`] = `r${i}.pair`; want[`pair${i + 1}`] = `r${i}.pairNext`; want.gone = GONE[i % 3]; }
    for (const k of Object.keys(want)) {
      const g = get(a, k);
      ctx.check(hasTop(g) ? undefined : g === T.K(want[k]), `${sc.label}: property '${k}' of the service function's input is ${T.show(g)}, the last middleware producing it gave ${want[k]}: ${describe(st, evs)}`, A, 'merge');
    }
    for (const k of ['other', 'id', 'body']) {
      const g = get(a, k);
      const D = decodeOf(g, codec);
      ctx.check(hasTop(g) ? undefined : !!D && g === T.prop(T.prop(D, 'right'), k), `${sc.label}: property '${k}' of the service function's input is ${T.show(g)} instead of the decoded request's`, A, 'rest');
    }
  });
  ctx.check(seen > 0, 'some path reaches the service function', anchor('routerForApiSpec'));
  // middlewareFn hands on exactly what its function resolves to
  scenario(ctx, 'middlewareFn', () => {
    const W = new EW(ctx, { ops: [] });
    const st = new State();
    const A = anchor('middlewareFn');
    const f = W.exp('middlewareFn');
    if (!ctx.check(!!f, 'middlewareFn is exported', A)) return;
    const m = W.mwFn(0, ['resolveSym', 'reject', 'rejectUndefined', 'throw'], st);
    const next = W.I.native('next', (s, self, a) => { s.event({ t: 'next', a: a.slice() }); return val(s, T.undef); });
    for (const o of W.I.callValue(m, undefined, [W.req, W.res, next], st, null)) for (const s of W.I.drain(o.st)) {
      ctx.paths++;
      const evs = flatEvents(s.events(null));
      const how = (evs.find((e) => e.t === 'mw') || {}).o;
      const nx = evs.filter((e) => e.t === 'next');
      if (how === 'resolveSym') ctx.check(nx.length === 1 && nx[0].a[0] === T.undef && nx[0].a[1] === T.sym('resolved0'), `middlewareFn: function resolved, next called with (${nx.map((e) => e.a.map((x) => T.show(x)).join(', ')).join(') (')})`, A, 'resolve');
      else if (how === 'throw') ctx.check(!!o.ex || (nx.length === 1 && !!nx[0].a[0] && nx[0].a[0] !== T.undef), 'middlewareFn: an exception of the function is dropped', A, 'throw');
      else if (how) ctx.check(nx.length === 1 && nx[0].a.length > 0 && T.known(T.op('===', nx[0].a[0], T.undef), s.conds) !== true && nx[0].a[0] !== T.undef && T.known(nx[0].a[0], s.conds) !== false, `middlewareFn: function ended with '${how}', next called with (${nx.map((e) => e.a.map((x) => T.show(x)).join(', ')).join(') (')})`, A, how);
    }
    ctx.use(W.I);
  });
}
// ---------------------------------------------------------------- E03
function E03(ctx) {
  const consts = [];
  let tableTerm;
  {
    const I = mkInterp();
    tableTerm = I.exportValue('io-ts-http', 'statusCode.ts', 'KeyToHttpStatus');
    const es = tableTerm && I.entsOf(new State(), tableTerm);
    ctx.check(!!es && es.length > 50, 'KeyToHttpStatus is an exported constant table', 'packages/io-ts-http/src/statusCode.ts');
    for (const e of es || []) if (e.t === 'kv' && e.key.k === 'const') consts.push([e.key.v, e.v]);
  }
  const cases = [{ type: T.sym('type') }];
  const keys = ctx.tier === 'thorough' ? consts : consts.filter(([k]) => ['ok', 'created', 'noContent', 'invalidRequest', 'notFound', 'internalError'].includes(k));
  for (const [k, v] of keys) cases.push({ type: T.K(k), expect: v });
  for (const n of [200, 204, 404, 599]) cases.push({ type: T.K(n), expect: T.K(n) });
  cases.push({ type: T.K('notAStatus'), expect: null });
  // declared responses: unknown, or a table where only some statuses are declared
  const tables = [{ name: 'any response table' }];
  tables.push({ name: 'route declaring 200 and 404', response: (W, st) => W.kv({ 200: T.sym('codec200'), 404: T.sym('codec404') }, st), declared: { 200: T.sym('codec200'), 404: T.sym('codec404') } });
  let success = 0;
  for (const tb of tables) for (const c of cases) for (const form of c.type.k === 'sym' ? ['fn', 'brand', 'plain'] : ['fn']) {
    const payload = T.sym('payload');
    const label0 = `service result {type: ${T.show(c.type)}, payload} of a ${form} handler, ${tb.name}`;
    const label = label0;
    const make = (W, s) => W.kv({ type: c.type, payload }, s);
    const check1 = (W, st, evs, A, r, body) => {
      if (body) body = T.simp(body, st.conds);
      const stt = T.simp(r.status || T.undef, st.conds);
      const resp = tb.response ? undefined : T.sym('response:api.one:get');
      const carries = (body && flows(body, payload)) || (r.extra && flows(r.extra, payload));
      if (carries) {
        success++;
        const codec = body && body.k === 'call' && body.fn.k === 'prop' && body.fn.key.k === 'const' && body.fn.key.v === 'encode' && body.args.length === 1 && body.args[0] === payload ? body.fn.b : undefined;
        if (!ctx.check(!!codec, `${label}: sends ${T.show(body)}, not the payload encoded by a codec`, A, 'body')) return;
        if (tb.declared) {
          const want = c.expect && c.expect.k === 'const' ? tb.declared[c.expect.v] : undefined;
          if (c.expect !== undefined) ctx.check(!!want && codec === want && stt === c.expect, `${label}: answered with status ${T.show(stt)} and codec ${T.show(codec)}`, A, 'declared');
          else { const hit = Object.keys(tb.declared).filter((k) => tb.declared[k] === codec); ctx.check(hit.length === 1 && (T.known(T.op('===', T.op('concat', stt), T.K(hit[0])), st.conds) === true), `${label}: status ${T.show(stt)} answered with ${T.show(codec)}`, A, 'declared'); }
          return;
        }
        ctx.check(codec.k === 'prop' && codec.b === resp && T.simp(codec.key, st.conds) === stt, `${label}: answered with status ${T.show(stt)} but encoded with ${T.show(codec)}`, A, 'codec');
        if (c.expect !== undefined) ctx.check(stt === c.expect, `${label}: answered with status ${T.show(stt)}, expected ${c.expect ? T.show(c.expect) : 'an error'}`, A, 'status');
        else {
          const isNum = T.op('===', T.op('typeof', c.type), T.K('number'));
          const leaf = (v, cs) => {
            v = T.simp(v, cs);
            if (v.k === 'cond') return leaf(v.a, cs.concat(v.g)) && leaf(v.b, v.g.length === 1 && !v.g[0].or ? cs.concat([T.neg(v.g[0])]) : cs);
            if (v === c.type) return T.known(isNum, cs) !== false;
            return v.k === 'prop' && v.key === c.type && v.b.k === 'obj' && isTable(W, v.b, consts) && T.known(isNum, cs) !== true;
          };
          ctx.check(leaf(stt, st.conds), `${label}: answered with status ${T.show(stt)}, which is not the HTTP status the result names`, A, 'status');
        }
        return;
      }
      ctx.check(stt === T.K(500), `${label}: the payload is not sent and the status is ${T.show(stt)} instead of 500: ${describe(st, evs)}`, A, '500');
      const codecKnownMissing = (cs) => cs.some((l) => !l.or && !l.pos && l.atom.k === 'prop' && l.atom.b === resp) || cs.some((l) => !l.or && l.pos && l.atom.k === 'op' && ['===', 'nullish'].includes(l.atom.op) && l.atom.a[0].k === 'prop');
      const threw = (cs) => cs.some((l) => !l.or && l.pos && l.atom.k === 'op' && l.atom.op === 'throws');
      const undeclared = tb.declared && (c.expect === undefined || c.expect === null || !tb.declared[c.expect.v]);
      const ex = expand(st.conds);
      const cause = (cs) => c.expect === null || undeclared || codecKnownMissing(cs) || threw(cs);
      ctx.check(!ex ? undefined : ex.every(cause) ? true : ex.some((cs) => cs.some((l) => hasTop(l.atom))) ? undefined : false, `${label}: a declared status is answered with 500 although nothing failed: ${describe(st, evs)}`, A, 'complete');
      if (c.expect === null) ctx.check(true, 'unknown status');
    };
    const ops = [['api.one', 'get', (W, st) => W.handler(form, st, [], W.svc('api.one:get', ['return', 'promise'], make))]];
    request(ctx, label0, { ops, response: tb.response }, (W, st, evs, A, reg) => {
      if (!evs.some((e) => e.t === 'svc')) return;
      const sent = responses(W.I, st, evs, W.res);
      if (sent.some((r) => (r.body && hasTop(r.body)) || (r.status && hasTop(r.status)))) { ctx.undetermined(`${label}: response not resolved`); return; }
      if (!ctx.check(sent.length === 1, `${label}: ${sent.length} responses: ${describe(st, evs)}`, A, 'one')) return;
      const r = sent[0];
      for (const lf of W.I.leaves(st.clone(), r.body || T.undef)) check1(W, lf.st, evs, A, r, r.body ? lf.v : undefined);
      void reg;
    });
    // a status name that is not in the table is never answered as success: covered by expect === null and, for symbolic types, the leaf test
  }
  ctx.check(success > 0, 'some path sends the encoded payload', anchor('routerForApiSpec'));
}
function isTable(W, b, consts) {
  const es = W.I.entsOf(new State(), b);
  return !!es && es.length === consts.length && es.every((e) => e.t === 'kv' && e.key.k === 'const' && consts.some(([k, v]) => k === e.key.v && v === e.v));
}
// calling v with a request runs the given Express router on it (or v is that router)
function delegates(W, st, v, router) {
  v = T.simp(v, st.conds);
  if (v === router) return true;
  if (v.k !== 'fn' && v.k !== 'nat') return hasTop(v) ? undefined : false;
  const next = T.sym('next');
  const s0 = st.clone(); const mark = s0.ev;
  const outs = W.I.callValue(v, undefined, [W.req, W.res, next], s0, null);
  return outs.length > 0 && outs.every((o) => {
    const cs = flatEvents(o.st.events(mark)).filter((e) => e.t === 'call' && e.args.some((a) => a === W.req));
    return cs.length === 1 && (cs[0].fn === router || (cs[0].fn.k === 'prop' && cs[0].fn.b === router && cs[0].fn.key.v === 'handle')) && cs[0].args[0] === W.req && cs[0].args[1] === W.res && cs[0].args[2] === next;
  });
}
// ---------------------------------------------------------------- E04
function E04(ctx) {
  const apis = ['api.one', 'b.two', 'three'];
  const full = (mk) => apis.flatMap((api) => VERBS.map((v) => [api, v, mk]));
  const forms = ['fn', 'plain', 'brand', 'brandNoMw'];
  const expressPath = (op) => (op[3] ? op[3].replace(/{(\w+)}/g, ':$1') : `/${op[0]}/:id/${op[1]}`);
  // operations that share paths, within an api and across apis
  const rest = (mk) => [['api.one', 'get', mk, '/shared/{id}'], ['api.one', 'put', mk, '/shared/{id}'], ['b.two', 'delete', mk, '/shared/{id}'], ['b.two', 'get', mk, '/shared'], ['three', 'post', mk, '/shared'], ['three', 'patch', mk, '/shared/{id}']];
  const hook = (n) => (W) => { const sym = T.sym('given:' + n); return W.I.native('given:' + n, (st, self, args, node) => W.I.opaqueCall(st, sym, undefined, args, node)); };
  const given = { encoder: hook('encoder'), decodeErrorFormatter: hook('decodeErrorFormatter'), getDecodeErrorStatusCode: hook('getDecodeErrorStatusCode'), encodeErrorFormatter: hook('encodeErrorFormatter'), getEncodeErrorStatusCode: hook('getEncodeErrorStatusCode') };
  const sparse = (mk) => [['api.one', 'get', mk], ['api.one', 'delete', mk], ['b.two', 'patch', mk], ['three', 'put', mk], ['three', 'post', mk]];
  const variants = [];
  for (const form of forms) variants.push({ form, ops: full, name: `every method, ${form} handlers` });
  for (const form of forms) variants.push({ form, ops: sparse, name: `some methods, ${form} handlers` });
  for (const form of ['fn', 'brand']) variants.push({ form, ops: rest, name: `operations sharing paths, ${form} handlers` });
  variants.push({ form: 'fn', ops: full, opts: given, name: 'given encoder and hooks' }, { form: 'plain', ops: full, opts: given, name: 'given encoder and hooks, plain handlers' }, { form: 'brand', ops: full, opts: given, name: 'given encoder and hooks, routeHandler' });
  for (const h of Object.keys(given)) variants.push({ form: 'fn', ops: sparse, opts: { [h]: given[h] }, name: `only ${h} given` }, { form: 'fn', ops: sparse, opts: Object.fromEntries(Object.entries(given).filter(([k]) => k !== h)), name: `all but ${h} given` });
  variants.push({ form: 'fn', ops: full, via: 'createServer', name: 'createServer' }, { form: 'brand', ops: sparse, via: 'createServer', name: 'createServer, routeHandler' });
  for (const vr of variants) {
    // middleware of `plain`/`brand` handlers asks for an encode error through res.sendEncoded
    const mk = (W, st, api, verb) => W.handler(vr.form, st, vr.form === 'plain' || vr.form === 'brand' ? [W.mw(0, ['ok'])] : [], W.svc(`${api}:${verb}`, ['return']));
    const ops = vr.ops(mk);
    const served = new Map();
    request(ctx, vr.name, { ops, opts: vr.opts, via: vr.via }, (W, st, evs, A, reg, built) => {
      const bad = ops.filter((op) => reg.verb === op[1] && reg.path === T.K(expressPath(op)));
      if (!ctx.check(reg.path && hasTop(reg.path) ? undefined : bad.length === 1, `${vr.name}: ${reg.verb} ${T.show(reg.path || T.undef)} registered, which is no operation of the spec`, A, 'path')) return;
      const id = `${bad[0][0]}:${bad[0][1]}`;
      if (!served.has(id)) served.set(id, new Set());
      served.get(id).add(reg);
      ctx.check(served.get(id).size === 1, `${vr.name}: operation ${id} registered twice`, A, 'twice');
      const codec = T.sym('request:' + id);
      const left = st.conds.find((l) => !l.or && l.pos && l.atom.k === 'op' && l.atom.op === '===' && l.atom.a[1] === T.K('Left'));
      const sent = responses(W.I, st, evs, W.res);
      const svcs = evs.filter((e) => e.t === 'svc');
      for (const e of svcs) {
        ctx.check(e.id === id, `${vr.name}: operation ${id} is served by the handler of ${e.id}`, A, 'crossed');
        const a0 = T.simp(e.args[0] || T.undef, e.conds);
        const D = decodeOf(a0.k === 'obj' ? W.I.getProp(e.st, a0, 'anything') : a0, codec);
        ctx.check(hasTop(a0) ? undefined : !!D, `${vr.name}: operation ${id}: the request is decoded as ${T.show(e.args[0])}, not with the codec declared there`, A, 'route');
      }
      if (evs.some((e) => e.t === 'express-error')) return;
      if (left) {
        const D = left.atom.a[0].b;
        ctx.check(svcs.length === 0 && sent.length === 1, `${vr.name}: operation ${id}: rejected request gets ${sent.length} responses and runs ${svcs.length} handlers`, A, 'reject');
        if (sent.length !== 1) return;
        const s = T.simp(sent[0].status || T.undef, st.conds); const b = T.simp(sent[0].body || T.undef, st.conds);
        const isGiven = (h, t) => t.k === 'call' && t.fn === T.sym('given:' + h) && t.args.length === 2 && T.simp(t.args[0], st.conds) === T.prop(D, 'left') && t.args[1] === W.req;
        const o = vr.opts || {};
        ctx.check(hasTop(s) ? undefined : o.getDecodeErrorStatusCode ? isGiven('getDecodeErrorStatusCode', s) : s === T.K(400), `${vr.name}: operation ${id}: decode error answered with status ${T.show(s)}`, A, 'decodeStatus');
        const def = (t) => { if (t.k !== 'obj') return false; const e = W.I.getProp(st, t, 'error'); return T.mentions(e, (x) => x.k === 'ext' && /failure$/.test(x.p) && /PathReporter/.test(x.m + x.p)) && T.mentions(e, (x) => x === T.prop(D, 'left')); };
        ctx.check(hasTop(b) ? undefined : o.decodeErrorFormatter ? isGiven('decodeErrorFormatter', b) : def(b), `${vr.name}: operation ${id}: decode error answered with ${T.show(b)}`, A, 'decodeBody');
        return;
      }
      ctx.check(svcs.length === 1, `${vr.name}: operation ${id}: the handler runs ${svcs.length} times: ${describe(st, evs)}`, A, 'served');
      // encoding
      if (vr.opts && vr.opts.encoder) {
        const enc = evs.filter((e) => e.t === 'call' && e.fn === T.sym('given:encoder'));
        ctx.check(enc.length === 1 && enc[0].args[0] === W.routes[id], `${vr.name}: operation ${id}: the given encoder is called ${enc.length} times, with ${enc.map((e) => T.show(e.args[0] || T.undef))}`, A, 'encoder');
        if (enc.length === 1) {
          const p = W.I.getProp(st, enc[0].args[1] || T.undef, 'payload');
          ctx.check(hasTop(p) ? undefined : p === T.sym('payload:' + id), `${vr.name}: operation ${id}: the encoder does not get the service function's result`, A, 'encarg');
          const run = evs.filter((e) => e.t === 'call' && e.fn === enc[0].res);
          const threw = T.known(T.op('throws', enc[0].res), st.conds) === true;
          if (!threw) ctx.check(run.length === 1 && run[0].args[0] === W.req && run[0].args[1] === W.res, `${vr.name}: operation ${id}: what the encoder returns is ${run.length ? 'not called with the request and the response' : 'not run'}`, A, 'encrun');
        }
      } else if (sent.length === 1 && sent[0].body && flows(sent[0].body, T.sym('payload:' + id))) {
        const b = T.simp(sent[0].body, st.conds);
        ctx.check(T.mentions(b, (x) => x === T.sym('response:' + id)), `${vr.name}: operation ${id}: the result is encoded as ${T.show(b)}, not with the responses declared there`, A, 'resproute');
      }
      void built;
    });
    // every operation appears; createServer mounts exactly this router
    scenario(ctx, vr.name + ' mounting', () => {
      const W = new EW(ctx, { ops, opts: vr.opts, via: vr.via });
      const A = anchor(vr.via || 'routerForApiSpec');
      for (const x of W.start()) {
        if (x.ex) { ctx.check(T.known(T.op('throws', x.ex), x.st.conds) === undefined && false, `${vr.name}: throws ${T.show(x.ex)}`, A, 'throws'); continue; }
        const regs = W.regsOf(x.st);
        let v = T.simp(x.v, x.st.conds);
        // app.use returns the application
        while (vr.via === 'createServer' && v.k === 'call' && v.fn.k === 'prop' && v.fn.key === T.K('use') && v.self) v = v.self;
        for (const op of ops) {
          const [api, verb] = op;
          const mine = regs.filter((r) => r.verb === verb && r.path === T.K(expressPath(op)));
          ctx.check(mine.length === 1, `${vr.name}: operation ${api} ${verb} is registered ${mine.length} times`, A, 'all');
          if (vr.via !== 'createServer' && mine.length) ctx.check(delegates(W, x.st, v, mine[0].self), `${vr.name}: operation ${api} ${verb} is registered on another router than the one returned`, A, 'sameRouter');
        }
        if (vr.via === 'createServer') {
          const conf = flatEvents(x.st.events(null)).filter((e) => e.t === 'configure');
          const uses = regs.filter((r) => r.verb === 'use');
          const routerTerms = new Set(regs.filter((r) => VERBS.includes(r.verb)).map((r) => r.self));
          ctx.check(conf.length === 1 && conf[0].args[0] === v, 'createServer: the application is not configured exactly once by the caller', A, 'configure');
          ctx.check(uses.length === 1 && uses[0].self === v && uses[0].args.length === 1 && routerTerms.size === 1 && delegates(W, x.st, uses[0].args[0], [...routerTerms][0]), `createServer: the router is mounted ${uses.length} times: ${uses.map((u) => T.show(u.e.res)).join(' ')}`, A, 'mount');
          ctx.check(v.k === 'call' && v.fn.k === 'ext' && v.fn.m === 'express', `createServer returns ${T.show(v)}`, A, 'app');
        }
      }
      ctx.use(W.I);
    });
  }
  // hooks of encode errors: a middleware that sends a response the codec rejects
  const names = Object.keys(given); const only = (f) => Object.fromEntries(Object.entries(given).filter(([k]) => f(k)));
  const sets = [given, {}, ...names.map((h) => only((k) => k === h)), ...names.map((h) => only((k) => k !== h))];
  for (const opts of sets) scenario(ctx, 'encode error hooks', () => {
    let encErrors = 0;
    const label = `given: ${Object.keys(opts).join(', ') || 'nothing'}`;
    const payload = T.sym('p');
    const mk = (W, st) => {
      const m = W.I.native('sender', (s, self, args) => W.I.callValue(W.I.getProp(s, args[1], 'sendEncoded'), args[1], [T.K(200), payload], s, null));
      return W.handler('plain', st, [m], W.svc('api.one:get', ['return']));
    };
    request(ctx, `res.sendEncoded in middleware, ${label}`, { ops: [['api.one', 'get', mk]], opts, stuck: true }, (W, st, evs, A) => {
      const sent = responses(W.I, st, evs, W.res);
      if (sent.length !== 1) return;
      if (sent[0].body && flows(sent[0].body, payload, (t) => t.k === 'call' && t.fn.k === 'sym' && /^given:/.test(t.fn.n))) return;
      if (st.conds.some((l) => !l.or && l.pos && l.atom.k === 'op' && l.atom.op === '===' && l.atom.a[1] === T.K('Left'))) return;
      const s = T.simp(sent[0].status || T.undef, st.conds); const b = T.simp(sent[0].body || T.undef, st.conds);
      if (!sent[0].body) return; // the wrapper's own error answer
      const g = (h, t) => t.k === 'call' && t.fn === T.sym('given:' + h);
      encErrors++;
      ctx.check(hasTop(s) ? undefined : opts.getEncodeErrorStatusCode ? g('getEncodeErrorStatusCode', s) : s === T.K(500), `encode error answered with status ${T.show(s)} (${label})`, A, 'encodeStatus');
      ctx.check(hasTop(b) ? undefined : opts.encodeErrorFormatter ? g('encodeErrorFormatter', b) : b.k === 'obj' && (W.I.entsOf(st, b) || [1]).length === 0, `encode error answered with ${T.show(b)} (${label})`, A, 'encodeBody');
    });
    ctx.check(encErrors > 0, `some path answers an encode error (${label})`, anchor('routerForApiSpec'));
  });
}
// T08, second half: handling of a request by express-wrapper
function sharedState(ctx) {
  for (const form of ['fn', 'plain', 'brand']) scenario(ctx, `shared state, ${form} handler`, () => {
    const ops = [['api.one', 'get', (W, st) => W.handler(form, st, form === 'fn' ? [] : [W.mw(0, ['ok', 'res', 'later:res', 'err']), W.mwFn(1, ['resolve', 'reject'], st), W.mw(2, ['later:res', 'throw'])], W.svc('api.one:get', ['return', 'promise', 'later', 'throw'], (W2, s) => W2.kv({ type: T.sym('type'), payload: T.sym('payload') }, s)))]];
    const W = new EW(ctx, { ops });
    const A = anchor('routerForApiSpec');
    for (const x of W.start()) {
      if (x.ex) continue;
      const regs = W.regsOf(x.st).filter((r) => VERBS.includes(r.verb));
      if (!ctx.check(regs.length > 0, `express-wrapper registers the operation (${form})`, A)) continue;
      const written = { cells: new Map(), objs: new Set() };
      for (let pass = 0; pass < 2; pass++) {
        const stale = pass ? staleSetter(written) : undefined;
        W.onUser = stale; W.I.opts.onResume = stale;
        const s0 = x.st.clone(); s0.esc = [];
        if (stale) stale(s0);
        const mark = s0.ev;
        for (const st of W.run(s0, regs[0].chain)) {
          ctx.paths++;
          if (pass === 0) collectWrites(W, x.st, st, written); else checkStale(ctx, W, flatEvents(st.events(mark)), st, written, A);
        }
      }
      ctx.extra.sharedCellsWrittenByWrapper = [...written.cells.keys()].map((k) => k.replace(/^\d+:/, '')).concat([...written.objs].map((t) => T.show(t)));
    }
    ctx.use(W.I);
  });
}
module.exports = { sharedState, E01, E02, E03, E04, E05, EW };
