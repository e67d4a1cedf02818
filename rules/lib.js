'use strict';
// Shared helpers for the rules: reporting context and readers of abstract traces.
const T = require('../engine/terms');
const P = require('../engine/program');
const { Interp, State, Abort } = require('../engine/interp');

class Ctx {
  constructor(id, tier) { this.id = id; this.tier = tier; this.obligations = 0; this.discharged = 0; this.violations = []; this.undet = []; this.samples = []; this.analysed = new Set(); this.scenarios = 0; this.paths = 0; this.extra = {}; this.t0 = Date.now(); this.budget = tier === 'quick' ? 480e3 : 780e3; }
  // one obligation; v: true (holds), false (violated), undefined (not decided)
  check(v, what, where, key) {
    this.obligations++;
    if (v === true) { this.discharged++; return true; }
    if (v === undefined) { this.undetermined(what); return undefined; }
    this.violation(what, where, key);
    return false;
  }
  violation(what, where, key) { if (this.violations.length < 200) this.violations.push({ what, where: where || '', key: key || what }); }
  undetermined(why) { if (this.undet.length < 100) this.undet.push(why); }
  sample(s) { if (this.samples.length < 8) this.samples.push(s); }
  use(I) { for (const n of I.analysed) this.analysed.add(n); for (const u of I.unknowns) if (!this.unk || this.unk.size < 50) (this.unk = this.unk || new Set()).add(u); }
}
// run a scenario; engine limits make it undecided, never a violation
function scenario(ctx, name, f) {
  ctx.scenarios++;
  // the whole check stays within its time: what is left is undecided
  const spent = Date.now() - ctx.t0;
  if (spent > ctx.budget || (ctx.violations.length && spent > ctx.budget / 4)) { ctx.undetermined(`${name}: not reached in time`); return; }
  const end = Interp.deadline;
  Interp.deadline = Math.min(end, Date.now() + (ctx.limit || 300e3), ctx.t0 + ctx.budget + 60e3);
  try { f(); } catch (e) {
    if (e instanceof Abort) ctx.undetermined(`${name}: ${e.message}`);
    else if (process.env.VERIF_DEBUG) throw e;
    else ctx.undetermined(`${name}: analysis error ${e.message} ${(e.stack || '').split('\n')[1] || ''}`);
  } finally { Interp.deadline = end; }
}
const root = (t) => {
  for (;;) {
    if (!t) return t;
    if (t.k === 'prop') t = t.b;
    else if (t.k === 'call') t = t.self || t.fn;
    else if (t.k === 'op' && (t.op === 'new' || t.op === 'bind' || t.op === 'awaited')) t = t.a[0];
    else if (t.k === 'item' || t.k === 'idx' || t.k === 'keys') t = t.of;
    else return t;
  }
};
const hasTop = (t) => T.mentions(t, (x) => x.k === 'top' || x.k === 'fold' || x.k === 'loopvar');
// disjunctive expansion of a path condition (bounded); each result is free of disjunctions
function expand(conds, cap) {
  cap = cap || 400;
  let outs = [[]];
  const add = (c, l) => { const v = T.knownLit(l, c); return v === false ? null : v === true ? c : c.concat([l]); };
  const addConj = (cs, conj) => {
    let cur = [cs];
    for (const l of conj) {
      const nx = [];
      for (const c of cur) {
        if (!l.or) { const r = add(c, l); if (r) nx.push(r); } else for (const d of l.or) nx.push(...addConj(c, d));
        if (nx.length > cap) return nx;
      }
      cur = nx;
    }
    return cur;
  };
  const plain = conds.filter((l) => !l.or); const ors = conds.filter((l) => l.or);
  outs = addConj([], plain.concat(ors));
  return outs.length > cap ? undefined : outs;
}
const isProp = (t, b, key) => t && t.k === 'prop' && (!b || t.b === b) && t.key.k === 'const' && t.key.v === key;
const throwsAssumed = (conds, res) => T.known(T.op('throws', res), conds) === true;
// flat list of events including those inside abstract loops (marked)
function flatEvents(evs, out, inLoop) {
  out = out || [];
  for (const e of evs) {
    if (e.t === 'loop') for (const p of e.paths) flatEvents(p.events, out, true);
    else out.push(inLoop ? Object.assign({ inLoop: true }, e) : e);
  }
  return out;
}
// HTTP responses sent through `res` along a trace: [{status, body, how, at}]
const SENDERS = ['json', 'send', 'jsonp', 'end', 'sendStatus', 'sendFile', 'render', 'redirect', 'download', 'write', 'writeHead'];
function responses(I, st, events, res) {
  const out = [];
  let status;
  let open;
  let i = -1;
  for (const e of events) {
    i++;
    if (e.t === 'set' && e.base === res && e.key.k === 'const' && e.key.v === 'statusCode') { status = e.v; continue; }
    if (e.t !== 'call' || !e.self || root(e.self) !== res) continue;
    if (e.fn.k !== 'prop') continue;
    const name = e.fn.key.k === 'const' ? e.fn.key.v : undefined;
    // chained on res itself or on the result of a chained call
    let s = e.self;
    while (s.k === 'call' && s.self) s = s.self;
    if (s !== res) continue;
    const failed = throwsAssumed(st.conds, e.res);
    if (name === 'status') { if (!failed) status = e.args[0]; continue; }
    if (name === 'writeHead') { if (!failed) status = e.args[0]; continue; }
    if (name === undefined) { out.push({ status, body: undefined, how: '?', at: i, e }); continue; }
    if (!SENDERS.includes(name)) continue;
    if (failed) continue;
    if (name === 'end' && open) { open = undefined; if (e.args.length) out[out.length - 1].extra = e.args[0]; continue; }
    const r = { status: name === 'sendStatus' ? e.args[0] : status, body: e.args.length ? e.args[0] : undefined, how: name, at: i, e, nargs: e.args.length, inLoop: e.inLoop };
    if (name === 'end' || name === 'write') { if (open) continue; }
    out.push(r);
    open = name === 'write' || name === 'json' || name === 'send' || name === 'sendStatus' || name === 'jsonp' ? r : undefined;
    if (name === 'end') open = undefined;
  }
  return out;
}
function exactObject(I, st, o, want, snap) {
  // is o an object literal with exactly the given properties?
  const ents = (snap && snap.get(o)) || I.entsOf(st, o);
  if (!ents || o.k !== 'obj') return false;
  const seen = new Map();
  for (const e of ents) { if (e.t !== 'kv' || e.key.k !== 'const' || (e.g && e.g.length)) return false; seen.set(e.key.v, e.v); }
  const keys = Object.keys(want);
  if (seen.size !== keys.length) return false;
  return keys.every((k) => seen.get(k) === want[k]);
}
// does the value p reach t as data (not through an exception, a hook's result or a branch)?
function flows(t, p, stop, seen) {
  seen = seen || new Set();
  if (!t || seen.has(t)) return false;
  seen.add(t);
  if (t === p) return true;
  if (stop && stop(t)) return false;
  const r = (x) => flows(x, p, stop, seen);
  switch (t.k) {
    case 'prop': return r(t.b) || r(t.key);
    case 'call': return (t.self && r(t.self)) || t.args.some((a) => r(a.spread || a));
    case 'op': return t.op === 'exc' || t.op === 'rejected' || t.op === 'throws' ? false : t.a.some(r);
    case 'cond': return r(t.a) || r(t.b);
    case 'item': return r(t.of);
    case 'fold': return r(t.init) || r(t.step);
    default: return false;
  }
}
module.exports = { Ctx, scenario, root, hasTop, isProp, throwsAssumed, flatEvents, responses, exactObject, flows, expand, T, P, Interp, State, Abort, SENDERS };
