#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
TER='packages/typed-express-router/src/'; EW='packages/express-wrapper/src/'; SA='packages/superagent-wrapper/src/'
IH='packages/io-ts-http/src/'; RS='packages/response/src/'; OG='packages/openapi-generator/src/'
P=[]
def p(id,title,statement,over,text,why,files,mech):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))

# ---------------- typed-express-router
p('T01','Checked-route handlers run only on requests that decode',
  "On a route added with get/post/put/delete/patch of the typed router, the route's handlers run only if the request's body, headers, path params and query, taken together, decode under that route's request codec, and they then see exactly the decoded value as req.decoded. Otherwise none of the route's handlers runs and exactly one response is sent, whose status and JSON body are the results of the decode-error status hook and the decode-error formatter hook applied to the validation errors.",
  ['inputs','programs'],"every request, every api spec, every list of handlers, options and router middleware",
  "The tests send a few requests per route; they cannot show that no path through the middleware reaches a handler without a successful decode, for every spec and request.",
  [TER+'index.ts'],[('validation middleware','makeAddRoute'),('request decoding','makeAddUncheckedRoute / wrapReqAndRes')])
p('T02','Error and response hooks: route option over router option over default',
  "Each of the five hooks of the typed router (decode-error formatter, decode-error status, encode-error formatter, encode-error status, after-response) is taken, at every place it is used, from the route's own options when given there, else from the options given when the router was created or wrapped, else from the documented default (formatter of validation messages, 400, empty object, 500, no-op). A hook given to the router is never dropped, replaced by another hook, or applied to other arguments.",
  ['configurations','inputs'],"all 2^10 combinations of present/absent route-level and router-level hooks, every request and response",
  "Tests try a handful of hook combinations; the precedence must hold for every combination at every use site.",
  [TER+'index.ts',TER+'errors.ts'],[('router-level hooks','createRouter, wrapRouter'),('route-level overrides','makeAddRoute, makeAddUncheckedRoute')])
p('T03','sendEncoded only sends values of the declared response type, once',
  "sendEncoded(status, payload) answers with the HTTP status named by its first argument and the payload encoded by the codec declared for that status, and only when such a codec exists, the status is known and the codec accepts the payload; the after-response hook runs exactly once, after that response was sent. In every other case (undeclared or unknown status, wrong payload, encoder that throws) the payload is not sent: exactly one response goes out with the status and body the encode-error hooks return.",
  ['inputs','programs','fault_sequences'],"every response declaration, status, payload, encoder fault and hook fault",
  "Tests cover one or two payloads per branch; a throwing encoder or hook at an arbitrary point is not sampled.",
  [TER+'index.ts'],[('encode and send','res.sendEncoded in makeAddUncheckedRoute')])
p('T04','Every route is registered under its verb, its path and all its aliases',
  "Adding a route registers it with the underlying Express router under the HTTP verb it was added with, at the path its spec declares with every {param} turned into :param, and again at each of the given aliases as written, all with the same chain of handlers in the order the caller gave. Adding a route the spec does not define throws instead of registering anything.",
  ['programs','configurations'],"every spec, verb, path, alias list and handler list, checked and unchecked",
  "Tests register a few routes with one alias; they cannot cover every verb/alias/path combination.",
  [TER+'index.ts',TER+'path.ts'],[('registration','router[method](...) in makeAddUncheckedRoute'),('path conversion','apiTsPathToExpress')])
p('T05','Trace spans are ended once on every path and never change behaviour',
  "Every tracing span that the typed router starts for decoding a request or encoding a response is ended exactly once on every way out of that operation, including when a codec, hook or formatter throws. Whether OpenTelemetry is installed or not changes neither the responses sent, nor which handlers run, nor which hooks are called with what.",
  ['inputs','fault_sequences','configurations'],"every request/response, every point at which user-supplied code may throw, OpenTelemetry present or absent",
  "Tests observe spans for a success and one failure; throwing hooks and codecs are not sampled.",
  [TER+'telemetry.ts',TER+'index.ts'],[('span start/end','createDecodeSpan, createSendEncodedSpan, endSpan'),('use sites','wrapReqAndRes, endDecodeSpanMiddleware, sendEncoded')])
p('T06','Router middleware runs after decoding, in order, before route handlers',
  "Middleware added to a typed router before a route is added runs for every request to that route, after the request was decoded and annotated (decoded result, api name, route, sendEncoded) and before validation and the route's own handlers, in the order it was added. Middleware that does not call next keeps the rest of the chain from running.",
  ['histories','programs'],"every sequence of adding middleware and routes, every request",
  "Tests use one middleware on one route; order over arbitrary registration histories is not sampled.",
  [TER+'index.ts'],[('middleware list','routerMiddleware, use, middlewareChain')])
p('T07','Unchecked routes always run their handlers with the decode result',
  "On a route added with one of the ...Unchecked methods, the handlers run for every request whether or not it decodes, and req.decoded is the untouched result of decoding the request's body, headers, params and query with the route's request codec. The router itself sends no response for such a request.",
  ['inputs','programs'],"every request and spec",
  "Tests send one valid and one invalid request.",
  [TER+'index.ts'],[('unchecked registration','makeAddUncheckedRoute')])
p('T08','Requests do not share state through the router',
  "What a typed-router or express-wrapper request decodes to, which handlers it runs and what is sent for it depend only on that request and on how the router was configured, never on an earlier or concurrent request. Nothing that one request's handling stores is read by the handling of another.",
  ['schedules','histories'],"every interleaving and sequence of requests",
  "Tests issue requests one at a time with equal outcomes; leaks between requests need specific interleavings.",
  [TER+'index.ts',TER+'telemetry.ts',EW+'request.ts',EW+'middleware.ts'],[('closures created per route','makeAddUncheckedRoute, makeAddRoute'),('handler wrapper','handleRequest, runMiddlewareChain')])
p('T09','A typed router is still the Express router it wraps',
  "The value made by wrapRouter and createRouter can be mounted like an Express router: calling it hands exactly the request, response and next it was given to the Express router it wraps, once. Every member of that router except get, post, put, delete, patch and use - what it has of its own and what it inherits, such as all, route, param and stack - works on it as on the wrapped router. Making it neither calls nor modifies the wrapped router; createRouter hands the options that are no hooks on to Express.",
  ['programs','inputs'],"every Express router, every member, every option",
  "Tests mount routers but use few members of them.",
  [TER+'index.ts'],[('wrapping','wrapRouter, createRouter')])
p('T10','Trace spans say what was traced and how it ended',
  "When OpenTelemetry is present, every span the typed router starts for decoding a request or encoding a response carries the operation's name, the route's method and the route's path (api_ts.operation_id, api_ts.method, api_ts.path; empty ones may be left out) before it ends. The decode span of a request that does not decode, and the encode span of a sendEncoded call that ends in an error response, record an exception about that error and the ERROR status, and carry the status returned by the corresponding status hook as api_ts.status_code; the encode span of a payload that is sent carries the HTTP status it is sent with. Spans of operations that succeed record neither error nor exception. (Where a codec or hook throws instead of returning, only the first sentence holds.)",
  ['inputs','configurations','programs'],"every route, request, response and combination of hooks",
  "Tests look at the spans of two requests.",
  [TER+'index.ts',TER+'telemetry.ts'],[('spans','createDecodeSpan, createSendEncodedSpan, recordSpanDecodeError, recordSpanEncodeError')])
# ---------------- express-wrapper
p('E01','Route middleware runs in order and an error stops the chain',
  "The middleware attached to an express-wrapper route runs one at a time in the order listed, each with the request and response, and the next one (or the service function) starts only after the previous one called next without an error. If a middleware throws, rejects or calls next with an error, no later middleware and no service function runs for that request, whether or not the handler was made with routeHandler.",
  ['inputs','programs','fault_sequences'],"every middleware list, every way each middleware can finish",
  "Tests use at most a few well-behaved middleware; error exits of each position and both handler kinds are not covered.",
  [EW+'middleware.ts',EW+'request.ts'],[('chain runners','runMiddlewareChain, runMiddlewareChainIgnoringResults'),('dispatch','handleRequest')])
p('E02','A failing handler or middleware yields one error response, never success',
  "If route middleware of an express-wrapper route throws, passes on an error or (made with middlewareFn) rejects, or its service function throws or rejects, the request is answered exactly once with a status of 500 (or the error status already set on the response), never with a success status, and the service function's payload is not sent. After an answer was sent the request is not passed on to other routes.",
  ['inputs','fault_sequences'],"every error thrown at every point of the handling",
  "Tests never make a handler throw and look at the status.",
  [EW+'request.ts'],[('catch-all','handleRequest')])
p('E03','Service results are encoded by the codec of their own status, or become 500',
  "The default response encoder of express-wrapper answers with the HTTP status that the service result names (a number, or a status key translated by the shared status table) and with the payload encoded by the codec the route declares for exactly that status. If the status is unknown or undeclared or the encoder throws, it answers 500 without the payload; in all cases exactly one response is sent.",
  ['inputs','programs'],"every route and every service result",
  "Tests try a few statuses.",
  [EW+'response.ts',IH+'statusCode.ts'],[('encoder','defaultResponseEncoder')])
p('E04','Every operation in the spec is served by its own handler',
  "The router built from a spec and a table of handlers serves each operation of the spec, for every api name and each of the five HTTP methods, with the handler stored under the same api name and method and with the route declared there, and with the encoder and error hooks it was given (or the documented defaults). createServer mounts exactly that router on its application.",
  ['programs','configurations'],"every spec and handler table",
  "Tests build three or four specs; a skipped or cross-wired operation in another spec is not seen.",
  [EW+'index.ts',EW+'request.ts'],[('registration loop','routerForApiSpec'),('server','createServer')])
p('E05','Handlers receive the decoded request plus middleware results',
  "A service function made with routeHandler is called once with the decoded request extended by the properties its middleware produced, later middleware overriding earlier ones and all of them overriding the decoded request. A handler not made with routeHandler receives the decoded request unchanged, whatever its middleware returns; middleware created with middlewareFn passes on exactly what its function resolves to, and passes a rejection on as an error.",
  ['inputs','programs'],"every decoded request, middleware list and middleware result",
  "Tests merge one or two middleware results.",
  [EW+'middleware.ts',EW+'request.ts'],[('result merging','runMiddlewareChain'),('pass-through','runMiddlewareChainIgnoringResults'),('middlewareFn','middlewareFn')])
# ---------------- superagent-wrapper
p('S01','Client requests carry every part of the encoded request',
  "A client call encodes its argument with the route's request codec and sends it with the route's HTTP method to the route's path (below the base URL), with every encoded path parameter substituted for its placeholder, the encoded query as query, every encoded header set under its own name, and the encoded body, whenever there is one, as JSON with content type application/json. A call without a body sends none.",
  ['inputs','programs'],"every route and every argument, including falsy bodies",
  "Tests send a few objects; falsy JSON bodies, repeated placeholders and unusual names are not sampled.",
  [SA+'request.ts'],[('request construction','requestForRoute'),('factories','superagentRequestFactory, supertestRequestFactory')])
p('S02','Client responses are typed by the codec of their actual status or flagged',
  "Decoding a response yields status and body only when the route declares a codec for the HTTP status actually received and that codec accepts the received body; the decoded body is then the codec's result. Otherwise the result is a decode error carrying what was received (the parsed body, or the text if there is none) and a message, and in both cases the original response; a non-2xx status never makes the request reject.",
  ['inputs','programs'],"every route and every response",
  "Tests decode a handful of responses; falsy bodies and undeclared statuses of other routes are not sampled.",
  [SA+'request.ts'],[('decode','patchRequest'),('ok override','patchRequest')])
p('S03','decodeExpecting resolves only for the expected, decodable status',
  "decodeExpecting(status) resolves only when the HTTP status received equals the expected one and its body decoded; it then resolves to that decoded response. Every other response rejects with a decode error object that carries the decoded response.",
  ['inputs'],"every expected status and every response",
  "Tests try two statuses.",
  [SA+'request.ts'],[('decodeExpecting','patchRequest')])
p('S04','The API client exposes exactly the operations of the spec',
  "The client built from a spec has, for every api name and each of the five HTTP methods declared there, a function bound to the route declared under that name and method, and nothing else. A method declared as undefined makes building the client throw.",
  ['programs'],"every spec",
  "Tests build two specs.",
  [SA+'routes.ts'],[('client construction','buildApiClient')])
p('S05','Path parameter values stay inside their own path segment',
  "Whatever string a path parameter encodes to (except the empty string and the dot segments, which no path segment can carry), the URL the client requests contains it percent-encoded at the place of its placeholder, so that the server decodes the same string for that parameter and no other part of the URL (path, query, fragment) changes. Every occurrence of a placeholder is substituted, and characters in a value are never interpreted as patterns.",
  ['inputs'],"every parameter value, including ones with /, ?, #, %, $ and braces",
  "Tests only use digits and letters.",
  [SA+'request.ts'],[('substitution','substitutePathParams')])
# ---------------- io-ts-http, response
p('H01','Status names and numbers agree everywhere',
  "Every status name and HTTP number known to the libraries pair up one to one, both directions of the translation table are inverse to each other, and every response helper of every package builds a result whose type is the status of its own name and whose payload is its argument. The number and name sets known to the response package and to the spec package are the same.",
  ['inputs','programs'],"all statuses, all helpers, all payloads",
  "Tests check a couple of statuses.",
  [IH+'statusCode.ts',IH+'httpResponse.ts',RS+'response.ts',RS+'keyed-response.ts'],[('tables','HttpToKeyStatus, KeyToHttpStatus'),('helpers','Response, KeyedResponse')])
p('H02','Request codecs keep each property in its own section',
  "A codec made by httpRequest decodes an input by reading each property only from the section (params, query, headers, body) it is declared in, and succeeds only if every section decodes; encoding puts each property, encoded by its own codec, back into exactly that section. Encoded requests always have the params and query sections. (A property declared in two sections under one name is encoded into both.)",
  ['inputs','programs'],"every declaration of sections and properties, every input",
  "Tests use a few declarations.",
  [IH+'combinators.ts',IH+'httpRequest.ts'],[('flattening','flattened'),('request combinator','httpRequest')])
p('H03','Optional properties may be absent and are never present as undefined',
  "In a codec made by optionalized (and so in every httpRequest section), exactly the properties whose codec accepts undefined (as a value or as an input) may be absent; all others are required. Decoding and encoding never modify their argument. Decoding and encoding never produce an optional property whose value is undefined.",
  ['inputs','programs'],"every property declaration and input",
  "Tests try a few objects.",
  [IH+'combinators.ts'],[('partition','optionalized'),('undefined removal','partialWithoutUndefined')])
p('H04','A request codec recognises the values it can encode',
  "The guard (is) of a codec made by httpRequest holds for a value exactly when the value is an object in which every property declared in any section is accepted by the guard of its own codec, and only optional ones are absent; properties that are not declared do not matter. So everything such a codec decodes to is recognised by it, and a union of request codecs encodes a request with a member that declares it. (For a name declared in several sections the guard asks the codec of one of them.)",
  ['inputs','programs'],"every declaration of sections and properties, every value",
  "Tests use the guard of few codecs.",
  [IH+'combinators.ts'],[('flattening','flattened'),('optional properties','optionalized')])
# ---------------- type level
p('Y01','Server handlers are typed by their own route',
  "A program that adds a typed-router handler using a property its route's request codec does not decode to, sends a status the route does not declare, sends a payload of the wrong type, or names an operation absent from the spec or declared under another method does not compile; the correct program does. On unchecked routes req.decoded is only usable after checking that decoding succeeded.",
  ['programs'],"every well-typed client program of the library",
  "Type errors are invisible to runtime tests.",
  [TER+'types.ts',TER+'index.ts',IH+'httpRoute.ts'],[('handler types','TypedRequestHandler, AddRouteHandler')])
p('Y02','Client calls and responses are typed by their own route',
  "A program that calls a client operation with missing or wrongly typed request properties, calls an operation absent from the spec, or reads a response body at another type than the one declared for the status it checked does not compile; the correct program does. A decode error's body is not usable at any declared type.",
  ['programs'],"every program using the client",
  "Type errors are invisible to runtime tests.",
  [SA+'request.ts',SA+'routes.ts',IH+'httpRoute.ts'],[('client types','ApiClient, DecodedResponse')])
p('Y03','Middleware results are typed through the chain',
  "A route handler - typed by given type arguments, or declaring the input it takes - is checked to receive the decoded request extended by the result types of its middleware in order, later ones replacing properties of the same name, for chains of up to seven middleware; using a property no middleware provides does not compile. Plain Express middleware adds nothing.",
  ['programs'],"every chain length and middleware type",
  "Type errors are invisible to runtime tests.",
  [EW+'middleware.ts',EW+'request.ts'],[('chain typing','MiddlewareChainOutput')])
p('Y04','Specs and request codecs that cannot work over HTTP do not compile',
  "A program does not compile if its spec uses an unsupported HTTP method, files a route under a method it is not declared with, or declares a params, query or header property whose encoded form is known not to be a string (or, for queries, string array). The request and response types derived from a route are exactly what its codecs decode to, with properties whose codec accepts undefined optional.",
  ['programs'],"every spec",
  "Type errors are invisible to runtime tests.",
  [IH+'httpRequest.ts',IH+'httpRoute.ts',IH+'utils.ts'],[('type guards','EmitPropsErrors, UnknownKeysToError, Optionalized')])
p('Y05','Service functions must return a declared response',
  "An express-wrapper program whose service function returns a status its route does not declare or a payload of the wrong type, or whose handler table misses an operation of the spec, does not compile; the correct program, with numeric or named statuses, does.",
  ['programs'],"every spec and handler table",
  "Type errors are invisible to runtime tests.",
  [EW+'request.ts',EW+'response.ts',EW+'index.ts'],[('return typing','ServiceFunction, KeyedResponseType')])
# ---------------- openapi-generator
p('G01','The generator prints only the document to stdout, and exits 1 on failure',
  "A run of the generator either writes exactly one JSON document to standard output, after everything succeeded, or writes nothing there and ends with a non-zero exit status after reporting an error on standard error. All diagnostics go to standard error. (The help text of the argument parser is outside this.)",
  ['programs','fault_sequences'],"every input project and option",
  "Tests run few failing inputs through the command line.",
  [OG+'cli.ts',OG+'error.ts',OG+'project.ts'],[('command handler','cli.ts handler'),('logging','logError, logWarn, logInfo')])
p('G02','Generator errors are never dropped',
  "Whenever resolving an identifier, parsing a codec or assembling a route fails inside the generator, that failure reaches the caller as a failure; no parsing step turns a failed sub-step into a success or uses the result of a failed sub-step, so that a project with a part the generator cannot resolve or parse never yields a document. (Whole files with syntax errors are skipped with a message; sources of Object.assign that are no object types add nothing.)",
  ['programs'],"every input program and every point of failure",
  "Tests exercise a few error inputs; each early exit must hold.",
  [OG+'codec.ts',OG+'route.ts',OG+'apiSpec.ts',OG+'resolveInit.ts',OG+'knownImports.ts'],[('Either propagation','all functions returning Either')])
p('G03','No part of a codec is lost: references and members of every kind are kept',
  "Collecting references, optimising and rendering descend into every nested schema of every kind of codec (objects, arrays, records, unions, intersections, tuples, references): a reference nested anywhere is found, and optimising keeps every property, member, item type and reference. A schema of any kind is rendered as that kind; tuples, for which the document format has no form, are left open.",
  ['programs'],"every nesting of codecs",
  "Tests sample particular nestings.",
  [OG+'ref.ts',OG+'optimize.ts',OG+'openapi.ts',OG+'ir.ts'],[('reference collection','getRefs'),('optimiser','optimize'),('rendering','schemaToOpenAPI')])
p('G04','Documented and built-in constraints land in their own OpenAPI field',
  "Each constraint or annotation of a schema (default, example, length, range, item and property counts, pattern, format, title, flags, deprecation, visibility, description), whether from a JSDoc tag or built into the codec, appears in the generated schema under its own field name and no other, the JSDoc tag taking precedence over the built-in value; of an array the item counts, uniqueness and array examples belong to the array and everything else to its items. A schema marked both public and private is an error.",
  ['programs'],"every combination of tags and built-in constraints",
  "Tests sample a few tags per schema.",
  [OG+'openapi.ts'],[('metadata','buildDefaultOpenAPIObject')])
p('G05','Every reference in the document points at the component it came from',
  "Each $ref in the generated document names a component that exists in the document and was built from the declaration that the reference resolves to; two declarations of the same name in different files get different components, and one declaration referred to under one name gets one. Arguments of codec combinators may be described in place instead of by reference. A reference whose declaration cannot be found is an error, not a dangling $ref.",
  ['programs'],"every project with equally named, external or missing declarations",
  "Tests have one or two name collisions.",
  [OG+'cli.ts',OG+'ref.ts',OG+'openapi.ts'],[('component table','cli.ts handler'),('collision names','getUniqueComponentName'),('rendering of refs','schemaToOpenAPI')])
p('G06','Generation does not mutate its inputs or share state between runs',
  "Optimising, rendering and reference collection leave the schemas they are given unchanged, and loading a project leaves the built-in codec table unchanged, so that generating twice, or for two projects in one process, gives the same documents as generating once.",
  ['histories','programs'],"every sequence of generations in one process",
  "Tests compare one output per process state.",
  [OG+'optimize.ts',OG+'openapi.ts',OG+'project.ts',OG+'knownImports.ts',OG+'comments.ts'],[('comment re-attachment','withComment'),('codec table','KNOWN_IMPORTS, Project.knownImports')])
p('G07','Required lists name exactly the non-optional properties, once each',
  "In generated object schemas the required list contains a property exactly when the codec demands it and undefined is not among the alternatives of its type (nested unions included, references not), lists no property twice and none that is missing from properties; optional wrappers, partial codecs, intersections and spreads preserve this.",
  ['programs'],"every object, partial, intersection and optional codec",
  "Tests sample particular objects.",
  [OG+'optimize.ts',OG+'knownImports.ts',OG+'codec.ts'],[('required computation','optimize, foldIntersection, optionalized, httpRequest')])
p('G08','Built-in codecs are described by what they accept and produce',
  "Every codec the generator knows by name is described with the wire type that codec decodes from and with bounds that agree with its name: positive, negative, non-positive, non-negative and non-empty codecs carry exactly the matching minimum, maximum, exclusivity or length, string-encoded numbers are strings that decode to numbers, and combinators keep all of their arguments. Text-encoded booleans are described as booleans by convention.",
  ['programs'],"every known codec",
  "Tests cover few of the table's entries.",
  [OG+'knownImports.ts'],[('codec table','KNOWN_IMPORTS')])
p('G09','The generator terminates on cyclic modules and types',
  "Loading a project reads every file at most once however its imports and re-exports form cycles, resolving an exported name terminates when modules re-export each other, and collecting components terminates on recursive types, including constants that contain themselves.",
  ['programs'],"every import, re-export and type graph",
  "Tests have no cyclic re-exports.",
  [OG+'project.ts',OG+'resolveInit.ts',OG+'cli.ts'],[('work list','Project.parseEntryPoint'),('star exports','findExportedDeclaration'),('component queue','cli.ts handler')])
p('G10','Parameters are listed in the section and with the optionality declared',
  "Every property a route's request declares under query, params or headers becomes a parameter of that name located in query, path or header respectively, with its own schema, marked required exactly when its section requires it; the body section becomes the request body. Requests given as intersections contribute the parameters and bodies of all members, those given as unions lose nothing their alternatives declare; references to requests are followed.",
  ['programs'],"every request declaration",
  "Tests sample a few requests.",
  [OG+'route.ts',OG+'openapi.ts'],[('parameter extraction','parseRequestObject, parseRequestIntersection'),('rendering','routeToOpenAPI')])
p('G11','Comments are cut out of the source at the right characters',
  "Source positions reported by the parser in UTF-8 bytes are converted to positions in the source text before the text is cut, in every place the text is cut, for every character including those outside the basic plane.",
  ['inputs','programs'],"every source text",
  "Tests use a few multibyte characters and no astral ones.",
  [OG+'comments.ts',OG+'symbol.ts',OG+'codec.ts'],[('offset conversion','byteOffsetToCharOffset, leadingComment')])
p('G12','The document depends only on the sources and options',
  "Generating for the same files and options gives the same bytes: the generator consults no clock, randomness, process identity, environment variable, network or directory listing, and every unordered collection it prints is put in a fixed order or keeps source order.",
  ['programs','configurations'],"every project and environment",
  "Tests run on one machine.",
  [OG+'cli.ts',OG+'openapi.ts',OG+'project.ts',OG+'sourceFile.ts'],[('whole generator','packages/openapi-generator/src')])
p('G13','Operations carry their own path, method, responses and route documentation',
  "Each route appears in the document under its own path and lower-cased method with the summary, description, operation id, tag, visibility and stability its documentation gives, one response entry per declared status with that status' schema and standard reason phrase, and its request body schema; tags the generator does not know are kept as unknown tags. Marking a route both public and private is an error, and routes of one path with different methods do not overwrite each other.",
  ['programs'],"every route and documentation comment",
  "Tests sample a few routes.",
  [OG+'openapi.ts'],[('operation assembly','routeToOpenAPI, convertRoutesToOpenAPI')])
p('G14','Names resolve by module scope: local first, then the named import',
  "An identifier in a source file is resolved to the declaration of that name in the same file, otherwise through the import of that local name to the export of the imported name, following renaming exports and re-exports; a namespace member is resolved among the exports of the namespace's module. Unknown names are errors; so may be names that merely rename a property object, a text or a list, which are never described as something else.",
  ['programs'],"every module graph",
  "Tests sample a few import forms.",
  [OG+'resolveInit.ts',OG+'symbol.ts'],[('resolution','findSymbolInitializer, findExportedDeclaration'),('symbol tables','parseTopLevelSymbols')])
p('G15','Literal values and enums are carried over unchanged',
  "A string, number, boolean or null literal (also behind const assertions and template literals) becomes a schema of that type whose only allowed value is that literal, an array literal keeps all elements in order, and an object literal keeps every property under its own name; enums, with explicit or automatic member values, become the list of their member values. Expressions the generator cannot describe are left open (any), never given a narrower type.",
  ['programs'],"every literal expression",
  "Tests sample a few literals.",
  [OG+'codec.ts',OG+'symbol.ts'],[('literal parsing','parsePlainInitializer, parseArrayExpression, parseObjectExpression'),('enums','parseDeclaration')])
p('G16','Unions keep every alternative; undefined only makes a property optional',
  "A union is rendered with every alternative it has (literal alternatives merged into enums by type, duplicates dropped), a null alternative makes it nullable, and an undefined alternative is removed and makes the enclosing property optional. Merging never combines alternatives of different wire types into one, unless they decode to the same runtime type and one of them is that primitive type. An alternative that admits anything is left out next to others.",
  ['programs'],"every union",
  "Tests sample some unions.",
  [OG+'optimize.ts',OG+'openapi.ts'],[('union simplification','simplifyUnion, mergeUnions, filterUndefinedUnion'),('rendering','schemaToOpenAPI')])
p('G17',"Document head, servers and custom codecs come from their declared sources",
  "The document's title, version and description are the ones given on the command line (--name, --version, --description, even when empty), else those of the package.json nearest above the input file and of no other, else defaults (for the description one that names the title). The servers are the @url comments of the API specs, in the order of the specs, each with the text of its comment. A codec imported in any form, in any file, from a package the custom codec file names is described as that file says; the file is the one given with --codec-file, else the one the nearest package.json names, relative to it. A package's own custom codec file describes its other names. Codecs of one package are never used for a name of another one, nor for a local name.",
  ['programs','configurations'],"every combination of options, package files, comments and codec files",
  "Tests do not run the command.",
  [OG+'cli.ts',OG+'packageInfo.ts',OG+'project.ts',OG+'apiSpec.ts'],[('sources of the document head','command handler in cli.ts'),('nearest package.json','getPackageJsonPath'),('custom codecs','Project.getCustomCodecs')])
p('G18','The document has exactly the routes of the API specs of the input file',
  "Every route an apiSpec(...) call of the input file contains - directly, behind names, imports, re-exports and namespace members, in groups of methods, in spreads of objects and of other specs, however the path, method and responses are written - is an operation of the document with its own parameters and its own response for every declared status; a document has no other operations. A part that cannot be resolved is an error.",
  ['programs'],"every way to write an API spec",
  "Tests sample some of the ways.",
  [OG+'apiSpec.ts',OG+'route.ts',OG+'cli.ts'],[('collection of routes','parseApiSpec'),('single routes','parseRoute'),('specs of the entry file','isApiSpec')])
# ---------------- not statically decidable here
p('N01','Client and server agree on every request value end to end',
  "For every route and every argument of its request type, the value a handler sees equals the value the client was called with.",
  ['inputs','programs'],"every route and argument",
  "Depends on user codecs, HTTP parsing and Express matching.",
  [IH+'httpRequest.ts',SA+'request.ts',TER+'index.ts'],[('encode/decode','flattened')])
p('N02','Generated schemas accept exactly what the codecs accept',
  "For every route, a JSON value validates against the generated request or response schema if and only if the route's codec accepts it.",
  ['inputs','programs'],"every route and JSON value",
  "Semantic equivalence of a codec program and a schema.",
  [OG+'openapi.ts',OG+'codec.ts'],[('whole pipeline','schemaToOpenAPI')])
p('N03','Every generated document is valid OpenAPI 3.0.3',
  "Whatever the input project, the document written validates against the OpenAPI 3.0.3 specification.",
  ['programs'],"every project",
  "Conformance to an external schema of a runtime value.",
  [OG+'openapi.ts'],[('document assembly','convertRoutesToOpenAPI')])
p('N04','Requests complete within bounded time and memory',
  "Handling a request takes time and memory linear in its size and in the route's declaration.",
  ['inputs'],"every request",
  "Timing and space of user codecs.",
  [TER+'index.ts',EW+'request.ts'],[('request handling','makeAddUncheckedRoute, handleRequest')])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
