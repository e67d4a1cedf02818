'use strict';
// Rules over whole runs of the generator: parameters, literals, options, and what a document depends on.
const { T, P, scenario } = require('./lib');
const { key, get, isOpen } = require('./shapes');
const { VP } = require('./source');
const { entry, lib, marks, runs, outcome, response, operation, said, IMPORTS, at, PACKAGES } = require('./project');
const C = require('./cli');
const ts = P.ts;

// ---------- G10: parameters
// properties of a section: [name, codec text, mark, required]
const PROPS = {
  plain: (m) => [`t.literal('$${m}')`, true], string: (m) => [`t.union([t.literal('$${m}'), t.number])`, true], optional: (m) => [`h.optional(t.literal('$${m}'))`, false], 'union with undefined': (m) => [`t.union([t.literal('$${m}'), t.undefined])`, false], 'undefined first': (m) => [`t.union([t.undefined, t.literal('$${m}')])`, false], 'nested undefined': (m) => [`t.union([t.union([t.undefined, t.literal('$${m}')]), t.number])`, false], array: (m) => [`t.array(t.literal('$${m}'))`, true], named: (m) => [`N_${m}`, true, `const N_${m} = t.literal('$${m}');`], nullable: (m) => [`t.union([t.literal('$${m}'), t.null])`, true], quoted: (m) => [`t.literal('$${m}')`, true],
};
const NAMES = { quoted: 'a-quoted name' };
// ways to write a section with the properties ps ([name, kind]); required is false for all in partial
const propText = (n, c) => `${/^\w+$/.test(n) ? n : `'${n}'`}: ${c}`;
const SECTIONS = {
  object: (body) => [`{ ${body} }`], type: (body) => [`t.type({ ${body} })`], strict: (body) => [`t.strict({ ${body} })`], partial: (body) => [`t.partial({ ${body} })`, 'partial'], optionalized: (body) => [`h.optionalized({ ${body} })`], named: (body, s) => [`S_${s}`, undefined, `const S_${s} = { ${body} };`], 'named codec': (body, s) => [`S_${s}`, undefined, `const S_${s} = t.type({ ${body} });`], 'named partial': (body, s) => [`S_${s}`, 'partial', `const S_${s} = t.partial({ ${body} });`], spread: (body, s) => [`{ ...S_${s} }`, undefined, `const S_${s} = { ${body} };`], assigned: (body) => [`Object.assign({}, { ${body} })`],
  exact: (body) => [`t.exact(t.type({ ${body} }))`],
};
const SECTION_NAMES = { query: 'query', params: 'path', headers: 'header' };
let uniq = 0;
// a section: {text, pre, want: [{in, name, mark, required}]}
function section(sec, form, kinds) {
  const want = []; const body = []; const pre = [];
  kinds.forEach((k, i) => {
    const m = 'm' + (++uniq); const [c, required, p] = PROPS[k](m); const name = NAMES[k] || `n${m}`;
    body.push(propText(name, c)); if (p) pre.push(p);
    want.push({ in: SECTION_NAMES[sec] || sec, name, mark: m, required });
  });
  const [text, mode, p] = SECTIONS[form](body.join(', '), `${sec}${uniq}`);
  if (p) pre.push(p);
  if (mode === 'partial') for (const w of want) w.required = false;
  return { sec, text, pre, want };
}
const requestOf = (secs) => `h.httpRequest({ ${secs.map((s) => `${s.sec}: ${s.text}`).join(', ')} })`;
// ways to give the request made of the sections ss: [text, more declarations, more files]
const REQUESTS = {
  inline: (ss) => [requestOf(ss)],
  named: (ss) => ['Req', `const Req = ${requestOf(ss)};`],
  imported: (ss, pre) => ['Req', `import { Req } from './r';`, { r: `${pre}\nexport const Req = ${requestOf(ss)};` }],
  're-exported': (ss, pre) => ['Req', `import { Req } from './q';`, { q: `export { Other as Req } from './r';`, r: `${pre}\nexport const Other = ${requestOf(ss)};` }],
  'an intersection of one request per section': (ss) => [`t.intersection([${ss.map((s) => requestOf([s])).join(', ')}${ss.length < 2 ? ', h.httpRequest({})' : ''}])`],
  'an intersection in reverse': (ss) => [`t.intersection([${ss.slice().reverse().map((s) => requestOf([s])).join(', ')}${ss.length < 2 ? ', h.httpRequest({})' : ''}])`],
  'an intersection of names': (ss) => [`t.intersection([${ss.map((s, i) => 'Req' + i).join(', ')}, h.httpRequest({})])`, ss.map((s, i) => `const Req${i} = ${requestOf([s])};`).join('\n')],
  'an intersection of imports': (ss, pre) => [`t.intersection([${ss.map((s, i) => 'Req' + i).join(', ')}, h.httpRequest({})])`, `import { ${ss.map((s, i) => 'Req' + i).join(', ')} } from './r';`, { r: `${pre}\n${ss.map((s, i) => `export const Req${i} = ${requestOf([s])};`).join('\n')}` }],
  'a nested intersection': (ss) => [`t.intersection([h.httpRequest({}), t.intersection([${ss.map((s) => requestOf([s])).join(', ')}${ss.length < 2 ? ', h.httpRequest({})' : ''}])])`],
  'a named intersection': (ss) => ['Req', `const Req = t.intersection([h.httpRequest({}), ${requestOf(ss)}]);`],
};
function params(ctx, r, name, where, want, path, method) {
  const op = operation(r.doc, path, method);
  const list = (get(op, 'parameters') || { A: [] }).A || [];
  const got = list.map((p) => ({ in: (get(p, 'in') || { V: T.undef }).V, name: (get(p, 'name') || { V: T.undef }).V, required: get(p, 'required'), schema: get(p, 'schema'), p }));
  for (const w of want) {
    const shared = want.some((x) => x !== w && x.name === w.name);
    const hits = got.filter((g) => g.name && g.name.k === 'const' && g.name.v === w.name && (!shared || (g.in && g.in.k === 'const' && g.in.v === w.in)));
    if (!ctx.check(hits.length === 1, `${name}: parameter ${w.name} is listed ${hits.length} times`, where, 'listed: ' + w.in)) continue;
    const g = hits[0];
    ctx.check(g.in && g.in.k === 'const' && g.in.v === w.in, `${name}: parameter ${w.name} of the ${w.in} is listed in ${g.in ? T.show(g.in) : 'no place'}`, where, 'place: ' + w.in);
    ctx.check((!!(g.required && g.required.V === T.true_)) === w.required, `${name}: ${w.required ? 'required' : 'optional'} ${w.in} parameter ${w.name} is ${w.required ? 'optional' : 'required'}`, where, 'required: ' + w.in);
    const ms = [...marks(r.doc, g.schema)].filter((x) => /^m\d+$/.test(x));
    ctx.check(ms.length === 1 && ms[0] === w.mark, `${name}: parameter ${w.name} has the schema ${g.schema ? key(g.schema).slice(0, 120) : 'missing'}`, where, 'schema: ' + w.in);
  }
  ctx.check(got.length === want.length, `${name}: ${got.length} parameters are listed instead of ${want.length}: ${got.map((g) => (g.name ? T.show(g.name) : '?')).join()}`, where, 'extra');
}
function G10(ctx) {
  ctx.limit = 60e3;
  const where = at('route.ts');
  const one = (name, secs, form, bodies, method) => scenario(ctx, name, () => {
    method = method || 'POST';
    const pre = secs.flatMap((s) => s.pre).join('\n');
    const [text, more, files] = REQUESTS[form](secs, pre);
    const path = '/path' + secs.flatMap((s) => s.want).filter((w) => w.in === 'path').map((w) => `/{${w.name}}`).join('');
    const src = entry(`${files ? '' : pre}\n${more || ''}`, undefined, { method, path: `'${path}'`, request: text });
    runs(ctx, C.projectFiles(src, files || {}), (r) => {
      const o = outcome(ctx, r, name);
      if (!o) return;
      if (!ctx.check(o === 'doc', `${name}: the generator fails: ${o === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: ' + form)) return;
      const want = secs.flatMap((s) => s.want).filter((w) => w.in !== 'body');
      params(ctx, r, name, where, want, path, method.toLowerCase());
      const body = get(operation(r.doc, path, method.toLowerCase()), 'requestBody');
      const bw = secs.flatMap((s) => s.want).filter((w) => w.in === 'body');
      ctx.check(!!body === bw.length > 0 || (!bw.length && !!body && secs.some((s) => s.sec === 'body')), `${name}: ${body ? 'a request body is described that is not declared' : 'the request body is not described'}`, where, 'body');
      if (body) {
        const sch = get(body, 'content', 'application/json', 'schema');
        const ms = marks(r.doc, sch);
        const d = C.flat ? C.flat(sch) : sch;
        for (const w of bw) ctx.check(ms.has(w.mark), `${name}: the body lacks ${w.name}: ${sch ? key(sch).slice(0, 160) : 'missing'}`, where, 'body property');
        for (const m of ms) if (/^m\d+$/.test(m)) ctx.check(bw.some((w) => w.mark === m), `${name}: the body has ${m} of another section`, where, 'body property');
      }
    });
  });
  const kinds = Object.keys(PROPS);
  // every kind of property in every section, written in every way
  for (const sec of ['query', 'params', 'headers']) for (const form of Object.keys(SECTIONS)) {
    if (sec === 'params' && /partial/.test(form)) { one(`params as ${form}`, [section(sec, form, ['plain', 'array'])], 'inline'); continue; }
    one(`${sec} as ${form}`, [section(sec, form, kinds)], 'inline');
  }
  for (const sec of ['query', 'params', 'headers', 'body']) for (const k of kinds) { one(`a ${k} property in ${sec}`, [section(sec, 'object', [k])], 'inline'); one(`two, one ${k}, in ${sec}`, [section(sec, 'object', ['plain', k])], 'named'); }
  // every combination of sections, given in every way
  for (const form of Object.keys(REQUESTS)) for (const secs of [['query'], ['params'], ['headers'], ['body'], ['query', 'params'], ['query', 'headers'], ['params', 'headers'], ['query', 'body'], ['params', 'query', 'body'], ['query', 'params', 'headers'], ['headers', 'body', 'query', 'params']]) {
    one(`${secs.join()} in a request that is ${form}`, secs.map((s) => section(s, 'object', ['plain', 'optional'])), form);
    if (ctx.tier === 'thorough') for (const f of ['type', 'named codec', 'spread']) one(`${secs.join()} (${f}) in a request that is ${form}`, secs.map((s) => section(s, f, ['optional', 'plain'])), form);
  }
  // the same section in several members
  for (const form of ['an intersection of one request per section', 'an intersection of names', 'an intersection of imports', 'a nested intersection']) for (const sec of ['query', 'params', 'headers', 'body']) one(`${sec} twice in ${form}`, [section(sec, 'object', ['plain', 'optional']), section(sec, 'object', ['optional', 'plain'])], form);
  // names with a meaning of their own
  for (const n of ['query', 'params', 'headers', 'body', 'path', 'union', 'required', 'properties', 'type']) for (const sec of ['query', 'params', 'headers']) {
    const s = section(sec, 'object', ['plain']); s.text = s.text.replace(s.want[0].name, n); s.want[0].name = n;
    one(`a ${sec} parameter called ${n}`, [s, section(sec === 'query' ? 'headers' : 'query', 'object', ['optional'])], 'inline');
  }
  // one name in several sections, and names that differ in little
  const renamed = (s, ns) => { s.want.forEach((w, i) => { s.text = s.text.replace(w.name, ns[i]); w.name = ns[i]; }); return s; };
  for (const form of Object.keys(REQUESTS)) for (const secs of [['query', 'headers'], ['headers', 'query'], ['params', 'query'], ['headers', 'params'], ['query', 'params', 'headers'], ['query', 'body', 'headers'], ['body', 'params'], ['body', 'query']]) {
    one(`id in ${secs.join()} of a request that is ${form}`, secs.map((s, i) => renamed(section(s, 'object', [i % 2 && s !== 'params' ? 'optional' : 'plain', 'plain']), ['id', 'name'])), form);
    if (ctx.tier === 'thorough') one(`id and ID in ${secs.join()} of a request that is ${form}`, secs.map((s, i) => renamed(section(s, 'object', [i % 2 && s !== 'params' ? 'optional' : 'plain', 'plain', 'plain']), i % 2 ? ['ID', 'Id', 'id'] : ['id', 'ID', 'Id'])), form);
  }
  for (const form of Object.keys(REQUESTS)) for (const sec of ['query', 'headers', 'params']) one(`id, ID and id_ in ${sec} of a request that is ${form}`, [renamed(section(sec, 'object', ['plain', 'plain', 'plain']), ['id', 'ID', 'id_'])], form);
  // unions of requests: nothing any alternative declares is lost
  const alts = (form, list) => (form === 'named' ? [`t.union([${list.map((_, i) => 'Alt' + i).join(', ')}])`, list.map((ss, i) => `const Alt${i} = ${requestOf(ss)};`).join('\n')] : form === 'named union' ? ['Req', `const Req = t.union([${list.map(requestOf).join(', ')}]);`] : [`t.union([${list.map(requestOf).join(', ')}])`, '']);
  for (const form of ['inline', 'named', 'named union']) for (const lists of [[['query'], ['query']], [['body'], ['body']], [['headers'], ['headers']], [['query'], ['body']], [['query', 'body'], ['query', 'headers']], [['query'], ['query', 'headers'], ['body']], [['params', 'query'], ['query']], [['query'], ['params', 'query']]]) {
    const name = `a union of ${lists.map((l) => l.join('+')).join(' | ')} (${form})`;
    scenario(ctx, name, () => {
      const list = lists.map((l) => l.map((s) => section(s, 'object', ['plain', 'optional'])));
      const all = list.flat();
      const pre = all.flatMap((s) => s.pre).join('\n');
      const [text, more] = alts(form, list);
      runs(ctx, C.projectFiles(entry(`${pre}\n${more}`, undefined, { method: 'POST', path: `'/path'`, request: text }), {}), (r) => {
        const o = outcome(ctx, r, name);
        if (!o) return;
        if (!ctx.check(o === 'doc', `${name}: the generator fails: ${o === 'doc' ? '' : r.thrown ? T.show(r.thrown) : said(r)}`, where, 'fails: union')) return;
        const op = operation(r.doc, '/path', 'post');
        const list2 = (get(op, 'parameters') || { A: [] }).A || [];
        for (const w of all.flatMap((s) => s.want)) {
          const place = w.in === 'body' ? get(op, 'requestBody') : { A: list2.filter((p) => { const i = get(p, 'in'); return i && i.V.k === 'const' && i.V.v === w.in; }) };
          ctx.check(!!place && marks(r.doc, place).has(w.mark), `${name}: ${w.name} of the ${w.in} is not described`, where, 'union: ' + w.in);
          if (w.in === 'header' || w.in === 'path') { const g = list2.filter((p) => { const n = get(p, 'name'); return n && n.V.k === 'const' && n.V.v === w.name; }); ctx.check(g.length === 1 && !!(get(g[0], 'required') && get(g[0], 'required').V === T.true_) === w.required, `${name}: the ${w.in} parameter ${w.name} is ${g.length ? 'not ' + (w.required ? 'required' : 'optional') : 'not listed'}`, where, 'union required: ' + w.in); }
        }
      });
    });
  }
}

// ---------- G12: what the document depends on
const FOREIGN = /^(os|crypto|child_process|http|https|net|dns|tls|worker_threads|perf_hooks|cluster|v8|vm|inspector|timers|timers\/promises|process|async_hooks)$/;
const VARIES = /^(Date(\.|$)|Math\.random|process\.(env|pid|ppid|hrtime|uptime|memoryUsage|cpuUsage|resourceUsage|argv|argv0|execPath|execArgv|version|versions|platform|arch|title|cwd|umask|getuid|getgid|stdin|stdout\.(columns|isTTY)|stderr\.(columns|isTTY)|release|report|config|constrainedMemory|availableMemory)(\.|\(|$)|performance(\.|$)|crypto(\.|$)|fetch$|XMLHttpRequest|WebSocket|navigator(\.|$)|Intl(\.|$)|setTimeout|setInterval|setImmediate|queueMicrotask|require$|globalThis(\.|$)|__dirname$|__filename$|WeakRef|FinalizationRegistry|gc$|Symbol\.for$|SharedArrayBuffer|Atomics)/;
const varies = (x) => x.k === 'ext' && !/STATUS_CODES/.test(x.p || '') && ((x.m === 'global' && VARIES.test(x.p || '')) || FOREIGN.test((x.m || '').replace(/^node:/, '')) || (/^(node:)?fs(\/promises)?$/.test(x.m || '') && !/(readFile|readFileSync|existsSync|access|accessSync)$/.test(x.p || '')));
const source = (t) => { let f; T.mentions(t, (x) => { if (!f && (varies(x) || (x.k === 'sym' && /^varies:/.test(x.n)))) f = x; return false; }); return f && (f.k === 'sym' ? f.n.slice(7) : `${f.m === 'global' ? '' : f.m + '.'}${f.p}`); };
// every term of a document
const terms = (d, f) => { if (!d) return; if (d.V) f(d.V); else if (d.A) d.A.forEach((x) => terms(x, f)); else for (const [k, v] of d.O) { f(k); terms(v, f); } };
const settledTerm = (t) => t.k === 'const' || T.isLit(t) || (t.k === 'op' && t.op === 'concat' && t.a.every(settledTerm)) || t === T.undef;
const projectsOf = (ctx) => {
  const out = [];
  for (const [n, x] of Object.entries(C.OK)) out.push([n, C.filesOf(x), { packages: C.PKGS, modules: C.ODD, json: { '/p/package.json': { name: 'the-name', version: '1.2.3', description: 'text' } }, broken: ['/p/broken.ts'] }]);
  for (const pr of C.componentProjects()) out.push([`${pr.name}`, C.projectFiles(entry(pr.pre, pr.uses.map(([u], i) => (i ? `${200 + i}: ` : '') + u).join(', ')), pr.files), { packages: C.PK2 }]);
  const many = ['h', 'c', 'a', 'f', 'b', 'g'];
  out.push(['routes in no order', { '/p/index.ts': `${IMPORTS}export const api = h.apiSpec({ ${many.map((x) => `op${x}: { put: h.httpRoute({ path: '/${x}', method: 'PUT', request: h.httpRequest({}), response: { 500: t.string, 200: t.number, 404: t.boolean } }), get: h.httpRoute({ path: '/${x}', method: 'GET', request: h.httpRequest({ headers: { z: t.string, y: t.string }, query: { b: t.string, a: t.string } }), response: { 200: t.string } }) }`).join(', ')} });` }, {}]);
  out.push(['components in no order', { '/p/index.ts': entry(many.map((x) => `import { C${x} } from './${x}';`).join('\n'), many.map((x, i) => `${i ? 200 + i + ': ' : ''}t.type({ p: C${x} })`).join(', ')), ...Object.fromEntries(many.map((x) => [`/p/${x}.ts`, lib(`export const C${x} = t.type({ z: t.string, a: t.number });`)])) }, {}]);
  out.push(['a union of many', { '/p/index.ts': entry('', `t.union([${many.map((x) => `t.type({ ${x}: t.string, z${x}: t.number })`).join()}, t.keyof({ z: null, a: null })])`) }, {}]);
  return out;
};
function G12(ctx) {
  ctx.limit = 60e3;
  const where = at('cli.ts');
  const moved = (o, from, to) => {
    const mv = (p) => (p.startsWith(from + '/') ? to + p.slice(from.length) : p);
    const q = Object.assign({}, o);
    if (o.packages) q.packages = Object.fromEntries(Object.entries(o.packages).map(([n, pk]) => [n, Object.assign({}, pk, { dir: mv(pk.dir) })]));
    for (const k of ['json', 'modules']) if (o[k]) q[k] = Object.fromEntries(Object.entries(o[k]).map(([p, v]) => [mv(p), v]));
    if (o.broken) q.broken = o.broken.map(mv);
    return q;
  };
  // the time of a file, and what else the file system tells, varies
  const hook = (I, st, fn, self, args) => {
    const m = (fn.m || '').replace(/^node:/, '');
    if ((m === 'fs' || m === 'fs/promises') && /(stat|lstat)(Sync)?$/.test(fn.p || '')) {
      const p = args[0] && T.simp(args[0], st.conds);
      if (p && p.k === 'const' && I.vp && I.vp.contents(p.v) !== undefined) { const outs = [{ st, v: I.vp.heap(st, Object.fromEntries(['mtime', 'mtimeMs', 'ctime', 'ctimeMs', 'atime', 'atimeMs', 'birthtime', 'birthtimeMs', 'ino', 'dev', 'uid', 'gid', 'mode'].map((k) => [k, T.sym(`varies:${fn.p}().${k}`)]).concat([['size', 1]]))) }]; return /Sync$/.test(fn.p) || (m === 'fs' && !/promises/.test(fn.p)) ? outs : I.vp.promised(st, outs); }
    }
    return undefined;
  };
  const go = (files, o, entryFile, args) => { const W = new VP(ctx, files, Object.assign({ hook }, o)); W.I.vp = W; const rs = W.generate(entryFile, args); ctx.paths += rs.length; ctx.use(W.I); return rs; };
  const text = (r) => (r.doc ? (isOpen(r.doc) ? undefined : key(r.doc)) : 'fails');
  const list = projectsOf(ctx);
  list.forEach(([n, files, o], i) => scenario(ctx, n, () => {
    const rs = go(files, o, '/p/index.ts');
    const docs = new Set(rs.map(text));
    for (const r of rs) {
      if (!r.doc) continue;
      terms(r.doc, (t) => {
        const s = source(t);
        if (s) ctx.check(false, `${n}: the document contains ${T.show(t).slice(0, 120)}, which depends on ${s}`, where, 'depends on ' + s);
        else ctx.check(settledTerm(t) || /STATUS_CODES/.test(T.show(t)) ? true : undefined, `${n}: the document contains ${T.show(t).slice(0, 120)}`);
      });
    }
    // runs that part must part over the project, not over anything else
    if (rs.length > 1 && docs.size > 1) {
      let s; for (const r of rs) for (const c of r.st.conds) for (const l of c.or ? c.or.flat() : [c]) if (!s && l.atom) s = source(l.atom);
      ctx.check(s ? false : undefined, `${n}: the document depends on ${s}`, where, 'depends on ' + s);
    } else ctx.check(true);
    // the same project in another place
    const mv = (p) => (p.startsWith('/p/') ? '/home/someone/else' + p.slice(2) : p.startsWith('/q/') ? '/opt' + p.slice(2) : p);
    const files2 = Object.fromEntries(Object.entries(files).reverse().map(([p, x]) => [mv(p), x]));
    const rs2 = go(files2, moved(moved(o, '/p', '/home/someone/else'), '/q', '/opt'), '/home/someone/else/index.ts');
    const docs2 = new Set(rs2.map(text));
    const open = docs.has(undefined) || docs2.has(undefined);
    const a = [...docs].join(' or '); const b = [...docs2].join(' or ');
    let x = 0; while (x < a.length && a[x] === b[x]) x++;
    ctx.check(open ? undefined : a === b, `${n}: in another directory the document is different: ...${b.slice(Math.max(0, x - 60), x + 100)} instead of ...${a.slice(Math.max(0, x - 60), x + 100)}`, where, 'place: ' + n);
  }));
  // comparisons by the language of the machine
  let sites = 0;
  for (const sf of C.reachable('cli.ts')) {
    const visit = (n) => {
      const call = (ts.isCallExpression(n) || ts.isNewExpression(n)) ? n : undefined;
      const name = call && (ts.isPropertyAccessExpression(call.expression) ? call.expression.name.text : ts.isIdentifier(call.expression) ? call.expression.text : '');
      const args = (call && call.arguments) || [];
      if (call && name === 'localeCompare') { sites++; ctx.check(args.length >= 2 && !isUndef(args[1]), `${n.getText().slice(0, 80)} compares by the language of the machine`, P.loc(n), 'locale: ' + P.loc(n).split(':')[0]); }
      if (call && /^(toLocale\w*|Collator|DateTimeFormat|NumberFormat|ListFormat|PluralRules|RelativeTimeFormat|Segmenter)$/.test(name)) { sites++; ctx.check(args.length >= 1 && !isUndef(args[0]), `${n.getText().slice(0, 80)} depends on the language of the machine`, P.loc(n), 'locale: ' + P.loc(n).split(':')[0]); }
      if (call && /^(race|any)$/.test(name) && ts.isPropertyAccessExpression(call.expression) && call.expression.expression.getText() === 'Promise') { sites++; ctx.check(false, `${n.getText().slice(0, 80)} depends on what finishes first`, P.loc(n), 'race: ' + P.loc(n).split(':')[0]); }
      ts.forEachChild(n, visit);
    };
    visit(sf);
  }
  ctx.extra.comparisons = sites;
}
const isUndef = (n) => n.getText() === 'undefined';
module.exports = { G10, G12 };
