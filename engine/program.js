'use strict';
// Loads the type-checked program of /repo's current working tree (all packages' sources in one
// ts.Program, packages resolved to their sources, not to build output) and resolves identifiers.
const path = require('path');
const fs = require('fs');
const REPO = process.env.VERIF_REPO || '/repo';
const ts = require(path.join(REPO, 'node_modules/typescript'));

const PACKAGES = ['io-ts-http', 'response', 'typed-express-router', 'express-wrapper', 'superagent-wrapper', 'openapi-generator'];

function packageInfo() {
  const out = [];
  for (const d of fs.readdirSync(path.join(REPO, 'packages')).sort()) {
    const pj = path.join(REPO, 'packages', d, 'package.json');
    if (!fs.existsSync(pj)) continue;
    out.push({ dir: d, name: JSON.parse(fs.readFileSync(pj, 'utf8')).name });
  }
  return out;
}

function walkSources(dir, out) {
  if (!fs.existsSync(dir)) return out;
  for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
    const f = path.join(dir, e.name);
    if (e.isDirectory()) walkSources(f, out);
    else if (/\.tsx?$/.test(e.name) && !/\.d\.ts$/.test(e.name)) out.push(f);
  }
  return out;
}

function pathsOption() {
  const paths = {};
  for (const p of packageInfo()) {
    const idx = path.join(REPO, 'packages', p.dir, 'src/index.ts');
    if (fs.existsSync(idx)) paths[p.name] = [idx];
  }
  return paths;
}

let cached;
function load() {
  if (cached) return cached;
  const files = [];
  for (const p of packageInfo()) {
    if (!PACKAGES.includes(p.dir)) continue;
    walkSources(path.join(REPO, 'packages', p.dir, 'src'), files);
  }
  const options = {
    target: ts.ScriptTarget.ES2020, module: ts.ModuleKind.CommonJS, moduleResolution: ts.ModuleResolutionKind.NodeJs,
    strict: true, esModuleInterop: true, skipLibCheck: true, noEmit: true, noUncheckedIndexedAccess: true,
    lib: ['lib.es2021.d.ts', 'lib.dom.d.ts'], types: ['node'], typeRoots: [path.join(REPO, 'node_modules/@types')],
    baseUrl: REPO, paths: pathsOption(), resolveJsonModule: true,
  };
  const program = ts.createProgram(files, options);
  const checker = program.getTypeChecker();
  const srcRoot = (f) => {
    const rel = path.relative(REPO, f);
    const m = /^packages\/([^/]+)\/src\/(.*)$/.exec(rel);
    return m ? { pkg: m[1], file: m[2], rel } : undefined;
  };
  const sourceFiles = program.getSourceFiles().filter((s) => srcRoot(s.fileName));
  cached = { ts, program, checker, sourceFiles, srcRoot, files, REPO };
  return cached;
}

function loc(node) {
  const sf = node.getSourceFile();
  const { line, character } = sf.getLineAndCharacterOfPosition(node.getStart(sf));
  return `${path.relative(REPO, sf.fileName)}:${line + 1}:${character + 1}`;
}

// The declaration behind an exported name of a package source file.
function findExport(pkg, file, name) {
  const { checker, sourceFiles, srcRoot } = load();
  for (const sf of sourceFiles) {
    const r = srcRoot(sf.fileName);
    if (r.pkg !== pkg || (file && r.file !== file)) continue;
    const ms = checker.getSymbolAtLocation(sf);
    if (!ms) continue;
    for (let s of checker.getExportsOfModule(ms)) {
      if (s.name !== name) continue;
      if (s.flags & ts.SymbolFlags.Alias) s = checker.getAliasedSymbol(s);
      return s;
    }
  }
  return undefined;
}

function sourceFile(pkg, file) {
  const { sourceFiles, srcRoot } = load();
  return sourceFiles.find((s) => { const r = srcRoot(s.fileName); return r.pkg === pkg && r.file === file; });
}

module.exports = { load, loc, findExport, sourceFile, packageInfo, pathsOption, walkSources, REPO, ts, PACKAGES };
