'use strict';
// G11: comments are cut out of the source at the right characters.
const { T, P, scenario } = require('./lib');
const { get, key, isOpen } = require('./shapes');
const { IMPORTS, at, runs, outcome, operation, response } = require('./project');
const C = require('./cli');

// what the comment parser makes of a text: comments begin at the start of a line
function blocks(text) {
  const out = []; let cur;
  const tokens = (o) => Object.assign({ start: '', delimiter: '', postDelimiter: '', tag: '', postTag: '', name: '', postName: '', type: '', postType: '', description: '', end: '', lineEnd: '' }, o);
  for (const [number, source] of text.split('\n').entries()) {
    let rest = source.replace(/^\s+/, '');
    const tk = tokens({ start: source.slice(0, source.length - rest.length) });
    if (!cur && rest.startsWith('/**') && !rest.startsWith('/***')) { cur = []; tk.delimiter = '/**'; rest = rest.slice(3); }
    else if (cur && rest.startsWith('*') && !rest.startsWith('*/')) { tk.delimiter = '*'; rest = rest.slice(1); }
    if (!cur) continue;
    const sp = /^\s/.exec(rest); if (sp && tk.delimiter) { tk.postDelimiter = sp[0]; rest = rest.slice(1); }
    const done = rest.trimEnd().endsWith('*/');
    if (done) { tk.end = '*/'; rest = rest.slice(0, rest.lastIndexOf('*/')); }
    const tag = /^(@\S+)(\s*)(\S*)(\s*)(.*)$/.exec(rest.trimStart());
    if (tag) Object.assign(tk, { tag: tag[1], postTag: tag[2], name: tag[3], postName: tag[4], description: tag[5].trimEnd() });
    else tk.description = rest.trimEnd();
    cur.push({ number, source, tokens: tk });
    if (!done) continue;
    const tags = cur.filter((l) => l.tokens.tag).map((l) => ({ tag: l.tokens.tag.slice(1), name: l.tokens.name, type: '', optional: false, description: l.tokens.description, problems: [], source: [l] }));
    const first = cur.findIndex((l) => l.tokens.tag);
    out.push({ description: cur.slice(0, first < 0 ? cur.length : first).map((l) => l.tokens.description).join('\n').trim(), tags, source: cur, problems: [] });
    cur = undefined;
  }
  return out;
}

// where characters may stand, and what the comments near them are
const SLOTS = ['a line comment at the top', 'an earlier text', 'the comment of an earlier declaration', 'the comment of the declaration', 'a line comment before the comment', 'the comment of a property', 'an earlier property text', 'a property name', 'a trailing comment', 'a template', 'another file', 'the comment of the route', 'the comment of the server'];
const FILLERS = { 'two-byte letters': '\u00e9', 'three-byte letters': '\u4e2d', 'characters outside the basic plane': '\u{1F600}', 'joined characters': '\u{1F468}\u200d\u{1F469}', 'combining characters': 'e\u0301', 'ASCII letters': 'x', mixed: '\u00df\u{1F680}\u20ac' };
function project(fill) {
  const f = (slot) => fill[slot] || '';
  const index = `// top ${f(SLOTS[0])}
${IMPORTS}import { Other } from './other';
const text = 'a ${f(SLOTS[1])}';
/** the earlier ${f(SLOTS[2])} */
const Earlier = t.number;
const gap = \`t ${f(SLOTS[9])}\`;
// line ${f(SLOTS[4])}
/** the type ${f(SLOTS[3])} */
const Foo = t.type({
  /** the first ${f(SLOTS[5])} */
  first: t.string,
  plain: t.literal('l ${f(SLOTS[6])}'),
  /** the named */
  'n${f(SLOTS[7])}': t.number, // after ${f(SLOTS[8])}
  bare: t.number,
  /** the inner */
  inner: t.type({
    /** the innermost */
    deep: t.string,
    next: Earlier
  })
});
const Bare = t.string;
/**
 * The summary${f(SLOTS[11]) && " " + f(SLOTS[11])}
 *
 * @operationId theId
 */
const route = h.httpRoute({ path: '/path', method: 'GET', request: h.httpRequest({ query: {
  /** the query */
  q: t.string, r: t.string } }), response: { 200: Foo, 201: Bare, 202: Earlier, 203: Other } });
/**
 * The server${f(SLOTS[12]) && " " + f(SLOTS[12])}
 *
 * @url theUrl
 */
export const api = h.apiSpec({ op: { get: route } });
`;
  const other = `// ${f(SLOTS[10])}
${IMPORTS}const o = '${f(SLOTS[10])}';
/** the other ${f(SLOTS[10])} */
export const Other = t.type({
  a: t.literal('${f(SLOTS[10])}'),
  /** the other property */
  b: t.string
});
`;
  const tail = (s, x) => (s + ' ' + x).trim();
  const want = (r) => {
    const sch = (n) => get(r.doc, 'components', 'schemas', n); const op = operation(r.doc); const p = (n, k) => get(sch(n), 'properties', k);
    const par = (k) => ((get(op, 'parameters') || {}).A || []).find((x) => { const n = get(x, 'name'); return n && n.V && n.V.k === 'const' && n.V.v === k; });
    const server = ((get(r.doc, 'servers') || {}).A || [])[0];
    return [
      ['the declaration', sch('Foo'), 'description', tail('the type', f(SLOTS[3]))], ['an earlier declaration', sch('Earlier'), 'description', tail('the earlier', f(SLOTS[2]))], ['a declaration without a comment', sch('Bare'), 'description', undefined], ['a declaration of another file', sch('Other'), 'description', tail('the other', f(SLOTS[10]))],
      ['the first property', p('Foo', 'first'), 'description', tail('the first', f(SLOTS[5]))], ['a property without a comment', p('Foo', 'plain'), 'description', undefined], ['a property with a text as its name', p('Foo', 'n' + f(SLOTS[7])), 'description', 'the named'], ['a property after a trailing comment', p('Foo', 'bare'), 'description', undefined], ['a property of object type', p('Foo', 'inner'), 'description', 'the inner'], ['a nested property', get(p('Foo', 'inner'), 'properties', 'deep'), 'description', 'the innermost'], ['the first property of another file', p('Other', 'a'), 'description', undefined], ['the last property of another file', p('Other', 'b'), 'description', 'the other property'],
      ['the route', op, 'summary', tail('The summary', f(SLOTS[11]))], ['the route', op, 'operationId', 'theId'], ['a parameter', par('q'), 'description', 'the query'], ['a parameter without a comment', par('r'), 'description', undefined], ['the server', server, 'description', tail('The server', f(SLOTS[12]))], ['the server', server, 'url', 'theUrl'],
    ];
  };
  return { files: { '/p/index.ts': index, '/p/other.ts': other }, want };
}
function G11(ctx) {
  ctx.limit = 120e3;
  const where = at('comments.ts');
  const one = (name, fill) => scenario(ctx, name, () => {
    const { files, want } = project(fill);
    runs(ctx, files, (r) => {
      const o = outcome(ctx, r, name);
      if (!o) return;
      if (!ctx.check(o === 'doc', `${name}: the generator fails: ${r.thrown ? T.show(r.thrown) : r.err.map((e) => e.args.map(T.show).join()).join(' / ').slice(0, 200)}`, where, 'fails')) return;
      for (const [what, d, field, w] of want(r)) {
        if (!d) { ctx.check(w === undefined ? true : false, `${name}: ${what} is not described`, where, 'missing: ' + what); continue; }
        const g = get(d, field); const v = g && g.V;
        if (v && v.k !== 'const') { ctx.check(undefined, `${name}: the ${field} of ${what} is ${T.show(v)}`); continue; }
        ctx.check((v && v.v) === w, `${name}: ${what} has the ${field} ${JSON.stringify(v && v.v)} instead of ${JSON.stringify(w)}`, where, 'text: ' + what);
      }
    }, { real: true, blocks });
  });
  one('no other characters', {});
  const deep = ctx.tier === 'thorough';
  // long comments: a text cut too long would reach the comments that follow
  for (const s of SLOTS.filter((x) => /comment of|summary|server|description/.test(x)).concat(SLOTS.slice(11))) one(`60 three-byte letters in ${s}`, { [s]: '\u4e2d'.repeat(60) });
  for (const [n, c] of Object.entries(FILLERS)) {
    const wide = /basic plane/.test(n);
    for (const k of deep ? [1, 2, 3, 5, 8, 13, 30] : wide ? [1, 9] : /^(two|three)/.test(n) ? [9] : []) for (const s of SLOTS) one(`${k} ${n} in ${s}`, { [s]: c.repeat(k) });
    one(`${n} everywhere`, Object.fromEntries(SLOTS.map((s, i) => [s, c.repeat(1 + (i % 3))])));
    if (deep) for (const s of SLOTS) one(`${n} everywhere but in ${s}`, Object.fromEntries(SLOTS.map((x, i) => [x, x === s ? '' : c.repeat(1 + (i % 3))])));
  }
}
module.exports = { G11, project, blocks, SLOTS, FILLERS };
