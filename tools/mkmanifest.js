'use strict';
// Regenerates /verif/MANIFEST.json from rules/meta.js and tools/na.json.
const fs = require('fs'); const path = require('path');
const meta = require('../rules/meta');
const na = JSON.parse(fs.readFileSync(path.join(__dirname, 'na.json'), 'utf8'));
const props = fs.readFileSync(path.join(__dirname, '../properties.jsonl'), 'utf8').trim().split('\n').map((l) => JSON.parse(l).id);
const checks = meta.map((m) => ({ property: m.id, quick_cmd: `node run.js ${m.id}`, thorough_cmd: `node run.js ${m.id} --thorough`, technique: m.technique, level: 'other', level_note: (m.note || 'Sound for the modelled semantics on every path the abstraction resolves; undecided obligations are listed in the evidence and not reported.') + ' Assumes: ' + m.assumptions.join(' ') }));
const not_applicable = [];
for (const id of props) if (!checks.some((c) => c.property === id)) not_applicable.push({ property: id, reason: na[id] || 'no check yet' });
fs.writeFileSync(path.join(__dirname, '../MANIFEST.json'), JSON.stringify({ version: 1, setup_cmd: 'node --version', checks, not_applicable }, null, 1) + '\n');
console.log(`${checks.length} checks, ${not_applicable.length} not applicable`, not_applicable.map((x) => x.property).join(' '));
for (const c of checks) if (!props.includes(c.property)) console.log('NOT IN properties.jsonl', c.property);
