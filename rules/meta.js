'use strict';
// One entry per claimed property: the rule module that decides it, how, the rule applied, what it rests on.
const ENGINE = 'Path-partitioned abstract interpretation of the current TypeScript sources (type-checked program, packages resolved to sources; nothing is executed, no solver).';
const BASE = [
  'Third-party code (Express, io-ts, fp-ts, superagent, SWC, Node) behaves as modelled: Express runs handlers in order, next() runs the following one, next(err) or an exception leaves the chain; codec methods have no effects but may throw.',
  'Loops over data of unknown length are interpreted once per abstract iteration with loop-carried values widened; anything the abstraction cannot resolve is listed as undecided in the evidence and never reported as a violation.',
  'User-supplied hooks and handlers do not modify the router, the spec or built-in prototypes.',
];
const T = (id, how, rule, more) => ({ id, module: './rules/router', technique: 'abstract interpretation of the handler chain (path-sensitive dataflow + typestate)', how: `${ENGINE} ${how}`, rule, assumptions: BASE.concat(more || []) });
const E = (id, how, rule, more) => ({ id, module: './rules/wrapper', technique: 'abstract interpretation of the request path (path-sensitive dataflow + typestate, all completion modes of user code)', how: `${ENGINE} ${how}`, rule, assumptions: BASE.concat(more || []) });
const S = (id, how, rule, more) => ({ id, module: './rules/client', technique: 'abstract interpretation of the client request and response paths (path-sensitive dataflow + effect tracking)', how: `${ENGINE} ${how}`, rule, assumptions: BASE.concat(['superagent and supertest requests are mutable: query/set/send/ok modify and return the request, which resolves to the response.', 'percent-encoding (encodeURIComponent) and WHATWG URL / posix.join behave as specified.'], more || []) });
const G = (id, mod, how, rule, more, tech) => ({ id, module: './rules/' + mod, technique: tech || 'abstract interpretation of the generator over schemas of symbolic content (constant propagation with symbolic atoms)', how: `${ENGINE} ${how} nothing is run: names, literals and texts are symbolic atoms, so a judgement holds for every choice of them.`, rule, assumptions: GBASE.concat(more || []) });
const GBASE = ['Third-party code (fp-ts, comment-parser, Node) behaves as modelled.', 'Symbolic names and texts are truthy and distinct unless the scenario makes them equal.', 'What the abstraction cannot resolve is listed as undecided in the evidence and never reported as a violation.'];
const Y = (id, how, rule, more) => ({ id, module: './rules/types', technique: 'compile-fail witnesses: generated programs checked by the type checker against the current sources, each wrong program paired with a correct twin', how: `A witness is a program with a hole; the programs exist only in memory and are type-checked (TypeScript 4.7.4 of the repository, strict) against the packages' current sources, nothing is run. ${how}`, rule: `Filled with each correct use the program has no error; filled with each wrong use it has one. ${rule}`, assumptions: ['Programs are compiled with strict checks.', 'The witnesses stand for all programs that differ from them in names and in the codecs used; the types treat names uniformly.'].concat(more || []) });
const CREQ = 'requestForRoute is interpreted with the superagent, the supertest and an arbitrary request factory over a route with a symbolic codec;';
const CHAIN = 'wrapRouter/createRouter are interpreted over a spec with symbolic codecs, symbolic hooks and an opaque Express router; the chain registered for a route is taken from the registration call and followed for a symbolic request.';
const WCHAIN = 'routerForApiSpec is interpreted over a table of operations with symbolic codecs; the registered chain is followed for a symbolic request whose decoding succeeds or fails, with middleware and service functions that finish in every possible way (next, next with a result, next with an error, throw, later, never; return, promise, throw, reject).';
module.exports = [
  T('T01', CHAIN, 'A user handler of a checked route is reached only on paths where the result of route.request.decode({body, headers, params, query}) is known to be a success, sees req.decoded equal to its right side, and all handlers run in order; every other path sends exactly one response made from the decode-error hooks (defaults 400 / PathReporter) or raises.'),
  T('T02', CHAIN + ' Every hook is given, absent or explicitly undefined at route and router level in turn, for both factories, every verb, checked and unchecked routes.', 'The hook invoked at each decode error, encode error and after-response site is the route\'s if given, else the router\'s, else the default, and gets the documented arguments.'),
  T('T03', CHAIN + ' res.sendEncoded(status, payload) is interpreted for a symbolic status, for every name of the shared status table (thorough) and for numeric and unknown statuses.', 'Exactly one response per call. The payload is sent only as route.response[s].encode(payload) with status s, where s is the number given or the number the status table gives for the name, on paths where the codec exists and its is(payload) is known true; otherwise the encode-error hooks make the response and the after-response hook does not run. Error responses only occur on paths with a cause.'),
  T('T04', CHAIN + ' Registration is interpreted for every verb, checked and unchecked, with constant path templates, no, two and arbitrarily many aliases, and for operations the spec lacks.', 'One registration under the operation\'s verb at the declared path with {x} as :x, one per alias verbatim, all with the same chain ending in the caller\'s handlers in order; an undeclared operation throws and registers nothing.'),
  T('T05', CHAIN + ' Every opaque call may throw; the tracing API is present or absent.', 'On every path each started span is ended exactly once; with identical branch facts the observable trace (handlers, hooks, response calls) is the same with and without tracing.', ['Tracing API calls do not throw.']),
  T('T06', CHAIN, 'Router middleware runs in the order added, before the gate of a checked route, for checked and unchecked routes; each sees req.decoded (the decode result), req.apiName, req.httpRoute and res.sendEncoded; if one does not call next, nothing further runs and the router sends nothing.'),
  T('T07', CHAIN, 'On unchecked routes all handlers run whatever the decode result, with req.decoded equal to it, and the router sends nothing itself.'),
  T('T08', CHAIN + ' Cells that outlive a request and are written by one are found by an effect pass, replaced by stale values before the request and again whenever user code runs, and followed.', 'No stale value reaches a branch, a call, req.decoded or a response.'),
  T('T09', 'wrapRouter and createRouter are interpreted with an Express router made of symbolic members of its own and inherited ones; the result is called and each of its members is read and called.', 'Calling the typed router calls the Express router (or its handle method) exactly once with the same request, response and next; every own member is the router\'s, every inherited member calls the router\'s with the same arguments on a receiver that shares its state; making it calls and modifies nothing; createRouter hands on the options that are no hooks.'),
  T('T10', CHAIN + ' The tracing API is present; what is called on each span between its start and its end is collected along every path, with the attribute tables it is given.', 'Every span carries api_ts.operation_id, api_ts.method and api_ts.path of its route (the latter two unless known to be empty); the span of a request that does not decode and of a sendEncoded call answered by the error hooks has the ERROR status, an exception about that error and the status of the error response as api_ts.status_code; the span of a sent payload carries its HTTP status; a span of a successful operation has neither error nor exception.'),
  E('E01', WCHAIN + ' Middleware lists of every length the types allow (0 to 7).', 'On every path middleware i starts only after middleware i-1 called next without an error, each with (req, res); the service function starts only after all of them; after a throw, a rejection or next(error) nothing further runs; if all succeed it runs.', ['Errors passed to next are truthy.']),
  E('E02', WCHAIN, 'Every path on which a middleware or the service function fails sends exactly one response, with status 500 or with the status already set known to be at least 400, without payload; no path passes the request on afterwards.', ['A plain async Express middleware that rejects without calling next is outside this property (Express itself does not see that either).']),
  E('E03', WCHAIN + ' The result of the service function is {type, payload} with a symbolic type, every name of the status table (thorough), numbers and unknown names, over an arbitrary response table and over one that declares two statuses.', 'Exactly one response; the payload is sent only as route.response[s].encode(payload) with status s named by the result; every other path answers 500 without the payload and has a cause (unknown or undeclared status, encoder failure).'),
  E('E04', WCHAIN + ' Full and partial tables of operations over all five verbs, every handler form, encoder and hooks given and not, createServer.', 'Each operation is registered exactly once, under its verb and path, on the router returned (or mounted exactly once on the returned application); its chain decodes with the codec declared there, runs the handler stored there, and encodes with the responses declared there and the encoder and hooks given (or the defaults).'),
  E('E05', WCHAIN + ' Middleware results with distinct and overlapping keys.', 'The service function runs once; with routeHandler its argument has, for each key, the value of the last middleware producing it, else the decoded request\'s; other handlers get the decoded request itself. middlewareFn calls next(undefined, result) exactly once with the resolved value, or next with a non-empty error.'),
  S('S01', CREQ + ' encoded requests with no, empty, several and arbitrarily many headers and with absent, symbolic and falsy bodies, for every method.', 'Exactly one request is started, with the route\'s method and substituted path below the base URL; the encoded query object, each encoded header under its own name, and the JSON of the encoded body (with content type application/json) whenever it is not undefined, and nothing else, reach it; the request itself is returned.'),
  S('S02', CREQ + ' decode() is followed for responses with symbolic and constant statuses and bodies over symbolic and constant response tables.', 'On every path the result is either {received status, right side of the decode result of the codec declared for that status applied to the received body} with that decode known to have succeeded, or a decodeError with message and received body where no codec is declared or its decode is known to have failed; both carry the response; the ok() override accepts every response.'),
  S('S03', CREQ + ' decodeExpecting(expected) is followed for symbolic and constant received and expected statuses.', 'It resolves only where received === expected is known and decoding succeeded, to the decoded response; every other path rejects with an object carrying the decoded response.'),
  S('S04', 'buildApiClient is interpreted over full, sparse, empty and foreign-key specs with one symbolic codec per operation; every function of the client is called.', 'The client has exactly the apis of the spec and in each exactly the declared HTTP methods; each function requests its own route and encodes with its codec; an undefined method throws.'),
  S('S05', 'substitutePathParams and both request factories are interpreted over path templates with repeated, adjacent, prefix-sharing and pattern-like placeholder names and symbolic values.', 'On every path the URL path is the template with each occurrence of each placeholder replaced by the percent-encoding of its own value applied exactly once, and no value reaches any other part of the URL.', ['Values are non-empty and not "." or "..".']),
  { id: 'H01', module: './rules/http', technique: 'constant propagation through the status tables and response helpers, and comparison of the declared types (type checker)', how: `${ENGINE} Every entry of both translation tables and every helper of the three helper tables is evaluated for symbolic, undefined, null and falsy payloads; the literal types are read from the type checker.`, rule: 'The two tables are inverse bijections between the same names and numbers, names that are standard reason phrases have the standard number, each helper returns {type: its own status, payload: its argument}, and the type-level unions and maps contain exactly the same names and numbers.', assumptions: BASE },
  { id: 'H02', module: './rules/http', technique: 'abstract interpretation of the codec combinators over declarations with symbolic property codecs', how: `${ENGINE} httpRequest is interpreted for declarations of every subset of the sections with required, optional and defaulting properties, including names that are also names of sections; io-ts combinators are modelled (rules/iots.js); the resulting codec is applied to a symbolic input and a symbolic value.`, rule: 'On every path where decoding succeeds each section and property was accepted, each property of the result is what its own codec decodes the property of its own section to, and nothing undeclared is there; it fails only for a reason; encoding yields exactly the declared sections and params and query, each with exactly its own properties encoded by their own codecs; neither writes to its argument.', assumptions: BASE.concat(['io-ts combinators behave as modelled from the installed version 2.1.3.', 'Property names are concrete representatives; the code treats names uniformly.']) },
  { id: 'H03', module: './rules/http', technique: 'abstract interpretation of the codec combinators over declarations with symbolic property codecs', how: `${ENGINE} optionalized and optional are interpreted over declarations mixing required, optional and defaulting properties; io-ts combinators are modelled (rules/iots.js); the codec\'s decode, encode and is are followed for symbolic arguments.`, rule: 'Decoding succeeds without a property exactly if its codec accepts undefined; no path of decode or encode leaves an optional property present with the value undefined or drops a defined one; is() needs exactly the required properties; neither direction writes to its argument.', assumptions: BASE.concat(['io-ts combinators behave as modelled from the installed version 2.1.3.']) },
  { id: 'H04', module: './rules/http', technique: 'abstract interpretation of the codec combinators over declarations with symbolic property codecs', how: `${ENGINE} httpRequest is interpreted over declarations of sections and of properties (the declarations of H02); its guard (is) is followed for values whose properties are accepted, refused or absent, and for values that are no objects.`, rule: 'is() is true exactly if the value is an object, each declared property is accepted by its own codec\'s guard, and only optional ones are absent; unknown extra properties do not matter; it writes to nothing.', assumptions: BASE.concat(['io-ts combinators behave as modelled from the installed version 2.1.3.']) },
  G('G01', 'cli', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule, one per way of failing (missing, unreadable and broken files, unresolvable names, malformed routes, specs, requests, responses and documentation) and per option, plus a call-graph search for other writers of standard output and exits.', 'On every path the command either prints exactly one JSON document on stdout, after everything succeeded, and does not exit with a failure, or prints nothing there, reports on stderr and exits with a non-zero status; no other code reachable from the command writes to stdout or exits with 0.', ['The help text of the argument parser is not covered.']),
  G('G02', 'cli', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule, with one failing construct placed in every position of a codec, route, request, response, spec, import and export that the generator supports.', 'A project with a construct the generator cannot resolve or parse never yields a document; the failure is reported and the command fails.', ['Files with syntax errors are skipped with a message, as designed; sources of Object.assign that are no object types are outside the rule.']),
  G('G09', 'cli', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule, with modules importing and re-exporting each other in cycles, types that contain themselves and each other, names that stand for themselves, and shared files; every recursion and loop of the interpretation that repeats the same state is reported.', 'Every path ends; no file is read or parsed twice; a cycle that names nothing is an error.'),
  G('G10', 'spec', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule whose requests declare symbolic properties in every section, required, optional, defaulting and partial, alone, in intersections and unions, inline, named, imported and nested.', 'Each declared property is a parameter of its own name and schema in query, path or header, required exactly as declared, and the body is the request body; nothing undeclared is listed; an unknown section, or a section that is no object type, is an error.', ['Of a request that is a union nothing its alternatives declare is lost.']),
  G('G14', 'project', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule of up to four modules in which one name is declared, imported, renamed, re-exported and shadowed in every supported way and used in every position of a codec, request, response, route and spec.', 'The document describes the declaration JavaScript\'s scope rules give the name: the one of the same file, else the named export of the imported module through renaming and star re-exports; if there is none the command fails.', ['Names that are only another name for a property object, text, list or function, and members of objects in positions other than codecs, may be rejected with an error.']),
  G('G08', 'codecs', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule, one for every codec known by name (named, renamed and namespace imports) in every position, every combinator over symbolic arguments, and unions of text-encoded numbers with other types;', 'The response schema means (in a canonical form) what the documentation of the codec\'s package says it decodes from; numeric bounds, exclusivity and minimum lengths are exactly those its name stands for; combinators keep every argument; text that decodes to numbers merges with numbers only.', ['Patterns are not compared.', 'Text-encoded booleans are described as booleans by convention.']),
  G('G12', 'spec', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule; clock, randomness, process, environment, file times, network and directory listings are opaque values whose flow is followed; the same project is interpreted under another directory.', 'No opaque value of that kind occurs in the printed document or decides between two documents; the document of a moved project is the same; no comparison uses the language of the machine and nothing depends on what finishes first.'),
  G('G15', 'codecs', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects built by the rule, one for every form of literal written in every way (directly, asserted, through names, imports, namespaces, object members) in every position, list, object and enum declaration forms, and expressions without a description;', 'The schema admits exactly the literal; lists keep every element in order; objects keep every property under its own name, the later one winning; enum members have their names and values; other expressions are left open or an error.', ['Concrete literals are representatives; symbolic texts and numbers stand for all others.']),
  G('G11', 'comments', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of a sample project whose positions are counted in bytes, with runs of characters of one to four bytes, combining and joined ones, in every place where text may stand (texts, names, comments before, in and after what is documented, other files); the comment parser is modelled;', 'Every documented declaration, property, parameter, route and server has exactly the text of its own comment, and undocumented ones have none, wherever the characters stand.', ['Positions are UTF-8 bytes counted from 1 for every file, as the installed parser reports them.', 'The characters of one width stand for all others of that width.']),
  G('G17', 'routes', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects for every combination of options, package.json files in the directories above the input file, comments of several API specs, codec files given by option and by package.json and codec files of packages, with custom codecs imported in every form and used in every position of a codec; the options are those the command declares;', 'Title, version and description are the option, else the field of the nearest package.json, else a default; the servers are the @url comments in order; a name of a package is described by the custom codec of that package under its exported name, the codec file before the package\'s own, and never by one of another package.', ['A module the codec file names is described by the codec file alone (built-in entries of it are replaced): not judged.', 'Relative paths of --codec-file are resolved by path.resolve.']),
  G('G18', 'routes', 'The whole command (cli.ts: reading the files, symbol tables, name resolution, codec parsing, routes, components, rendering, printing) is interpreted over syntax trees of sample projects whose specs, groups of methods, routes, paths, methods and responses are written in every supported way (inline, named, imported, renamed, re-exported, spread, nested) next to others;', 'The operations of the document are exactly the routes of the specs of the input file, each under its path and method with its own parameters and a response for every status; what is no spec of the input file adds nothing.', ['Two routes of the same path and method are outside.', '`export default h.apiSpec(...)`, spreads of calls of other functions and statuses given by name are outside.']),
  G('G03', 'openapi', 'getRefs, optimize and schemaToOpenAPI are interpreted over every kind of schema nested in every position of every kind, with symbolic names, literals and annotations;', 'Every reference anywhere in a schema is collected; the optimized schema and the rendered document mean what the schema means (same kinds, properties, members, item types, references, values), compared in a canonical form.', ['Nesting is checked for every pair (thorough: triple) of constructors; the functions are structurally recursive.']),
  G('G04', 'openapi', 'convertRoutesToOpenAPI is interpreted for every documentation tag and built-in annotation, one at a time and in pairs, on every kind of schema in every position;', 'Each tag or annotation is rendered once, in its own field, with its own value (numbers and booleans converted, lists split), the documentation tag before the built-in one and the outer tag before the inner one; public together with private is an error.', ['Annotations built into custom unions and intersections are outside the rule.']),
  G('G05', 'openapi', 'getRefs and schemaToOpenAPI are interpreted over references in every position with every mapping of equal names, and the whole command over projects with equally named, nested, external, missing and repeated declarations;', 'Each $ref names a component of the document built from the declaration it resolves to; equally named declarations of different files get different components, one declaration under one name gets one; an unresolvable reference is an error.', ['Arguments of codec combinators may be inlined.', 'A declaration used under two names may have a component for each.']),
  G('G06', 'openapi', 'optimize, getRefs and convertRoutesToOpenAPI are interpreted over every kind of schema with symbolic annotations, comparing the whole argument graph before and after; the whole command is interpreted twice in one process over equal and different projects, and every module-level cell it can reach is compared;', 'No path modifies an argument, the built-in codec table or another module-level value in a way a second generation can observe.'),
  G('G07', 'openapi', 'optimize and rendering are interpreted over objects whose properties are required or not and admit undefined directly, in unions and in nested unions, alone, in intersections and in nested positions; the whole command is interpreted for every codec combinator that makes objects over every kind of property;', 'The required list has exactly the properties the schema requires and whose alternatives do not include undefined, each once and each a property of the schema, and is left out if empty.'),
  G('G13', 'openapi', 'convertRoutesToOpenAPI is interpreted over lists of routes with symbolic paths, methods, responses and documentation tags, alone and together;', 'Every route has one operation under its own path and lower-cased method with exactly the documented fields, one response per status with its own schema, a request body if it has one; routes of one path with different methods keep each other; public together with private is an error.', ['Two routes of the same path and method: the later one is kept.']),
  G('G16', 'openapi', 'optimize and rendering are interpreted over unions of up to three members of every kind, with literals, null, undefined, nested unions and annotations, at the top and in properties;', 'The rendered union admits exactly the alternatives of the schema (literals as enums of their own type, duplicates once, null as nullable, undefined dropped), and alternatives of different wire types are never merged.', ['An alternative that admits anything is left out next to others, as designed; alternatives that decode to the same runtime type are merged with a primitive of that type, as designed.']),
  Y('Y01', 'Witnesses: every verb, checked and unchecked, createRouter and wrapRouter, first and later handlers, inline and declared; every section, kind of codec and kind of status.', 'Wrong uses: properties the request does not decode to or at another type, undeclared statuses, wrong payloads, operations absent or under another method, handlers of another route, unchecked results used without checking.'),
  Y('Y02', 'Witnesses: every verb, supertest and superagent, then, await and switch; every section, kind of codec and kind of status.', 'Wrong uses: missing or wrongly typed request properties, operations absent or under another method, bodies read without checking the status, at another type or of a decode error, undeclared statuses.'),
  Y('Y03', 'Witnesses: chains of zero to seven middleware, plain middleware in every place, each middleware replacing a property of the request and each later one that of each earlier one; handlers typed by given type arguments and handlers that declare what they take.', 'Wrong uses: properties no middleware provides, results at another type, replaced properties at their old type.', ['Handlers written inline without type arguments next to middleware are outside: TypeScript does not infer their input.']),
  Y('Y04', 'Witnesses: every verb and other names, routes filed in every way; every kind of codec in every section, alone and next to others; types derived from requests, routes and combinators.', 'Wrong uses: unsupported methods, routes filed under another method, params, query and headers that do not encode to text (lists for queries), incomplete routes; derived types are compared with the expected ones in both directions.'),
  Y('Y05', 'Witnesses: every verb, createServer and routerForApiSpec, functions, routeHandler, with middleware; numeric and named statuses, sync and async.', 'Wrong uses: undeclared statuses, wrong payloads, payloads of another status, missing operations or methods, handlers that are none.'),
];
