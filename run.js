'use strict';
// node run.js <property> [--thorough] : decides one property from /repo's current source.
require('v8').setFlagsFromString('--max-old-space-size=10000');
const fs = require('fs');
const path = require('path');
const { Ctx } = require('./rules/lib');
const P = require('./engine/program');
const meta = require('./rules/meta');
const id = process.argv[2];
const tier = process.argv.includes('--thorough') ? 'thorough' : process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const t0 = Date.now();
const m = meta.find((x) => x.id === id);
if (!m) { console.error(`no rule for ${id}`); process.exit(2); }
const ctx = new Ctx(id, tier);
let rule;
try { rule = require(m.module)[id]; rule(ctx); } catch (e) {
  if (process.env.VERIF_DEBUG) throw e;
  ctx.undetermined(`analysis error: ${e.stack || e}`);
}
const known = [];
for (const line of fs.readFileSync(path.join(__dirname, 'known-findings.txt'), 'utf8').split('\n')) {
  const r = /^finding: property=(\S+) key=(.*?) :: (.*)$/.exec(line);
  if (r && r[1] === id) known.push({ key: r[2], text: r[3] });
}
const seenKnown = new Set();
const fresh = [];
for (const v of ctx.violations) {
  const k = known.find((x) => v.key === x.key);
  if (k) seenKnown.add(k); else fresh.push(v);
}
const fnName = (n) => (n.name && n.name.getText ? n.name.getText() : 'function');
const analysed = [...ctx.analysed].map((n) => `${P.loc(n)} ${fnName(n)}`).sort();
const coverage = Object.assign({
  explanation: `${m.how} On this run: ${analysed.length} functions of /repo interpreted, ${ctx.scenarios} abstract scenarios, ${ctx.paths} abstract paths, ${ctx.obligations} obligations generated, ${ctx.discharged} discharged, ${ctx.undet.length} left undecided (never reported as violations).`,
  rule: m.rule, functions_analysed: analysed.length, functions: analysed.slice(0, 120), scenarios: ctx.scenarios, abstract_paths: ctx.paths,
  obligations: ctx.obligations, discharged: ctx.discharged, undecided: [...new Set(ctx.undet)].slice(0, 40), unmodelled_constructs: [...(ctx.unk || [])].slice(0, 30), samples: ctx.samples,
}, ctx.extra);
const ev = { property: id, tier, seed: Number(process.env.VERIF_SEED || 1), level: 'other', coverage, wall_s: (Date.now() - t0) / 1000, assumptions: m.assumptions || [], violations: fresh.length };
fs.mkdirSync(path.join(__dirname, 'evidence'), { recursive: true });
fs.writeFileSync(path.join(__dirname, 'evidence', `${id}.json`), JSON.stringify(ev, null, 1) + '\n');
for (const k of known) if (seenKnown.has(k)) console.log(`KNOWN-FINDING: property=${id} ${k.text}`);
if (fresh.length) {
  const rp = path.join(__dirname, 'evidence', `${id}.violation.txt`);
  fs.writeFileSync(rp, fresh.map((v) => `${v.where}\n  rule: ${m.rule}\n  ${v.what}\n`).join('\n'));
  for (const v of fresh.slice(0, 10)) console.log(`  ${v.where}: ${v.what}`);
  if (fresh.length > 10) console.log(`  ... ${fresh.length - 10} more`);
  console.log(`VIOLATION property=${id} replay=${rp}`);
  process.exitCode = 1;
} else console.log(`${id}: ${ctx.discharged}/${ctx.obligations} obligations discharged over ${analysed.length} functions, ${ctx.scenarios} scenarios, ${ctx.paths} paths; ${ctx.undet.length} undecided (${((Date.now() - t0) / 1000).toFixed(1)}s)`);
if (process.env.VERIF_DEBUG) { console.log([...new Set(ctx.undet)].slice(0, 20)); console.log([...(ctx.unk || [])].slice(0, 20)); }
