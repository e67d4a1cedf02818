From 9a7d0488a6fc04f5946fb7b07af1f83b4533542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:26 +0000
Subject: [PATCH 01/39] fix: answer a failing express-wrapper handler with an
 error status

res.statusCode defaults to 200, so a throwing handler or middleware was
answered with an empty 200 response and then passed on to later routes.
---
 packages/express-wrapper/src/request.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/request.ts b/packages/express-wrapper/src/request.ts
index c9d61ff..276f53f 100644
--- a/packages/express-wrapper/src/request.ts
+++ b/packages/express-wrapper/src/request.ts
@@ -144,11 +144,10 @@ export const handleRequest = (
         const response = await serviceFn(handlerParams);
         responseEncoder(httpRoute, response)(req, res, next);
       } catch (err) {
-        if (!res.statusCode) {
+        if (res.statusCode < 400) {
           res.status(500);
         }
         res.end();
-        next();
         return;
       }
     },
-- 
2.43.0


From cc6191a4b9951d1f41a047f501c50521dc72af90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:59 +0000
Subject: [PATCH 02/39] fix: stop the express-wrapper middleware chain when
 next is called with an error

Without routeHandler the error passed to next was ignored and the service
function ran anyway.
---
 packages/express-wrapper/src/middleware.ts | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 947760f..8b159d4 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -208,9 +208,17 @@ export async function runMiddlewareChainIgnoringResults<
   res: express.Response,
 ): Promise<Input> {
   for (const middleware of chain) {
-    await new Promise((resolve, reject) => {
+    await new Promise<void>((resolve, reject) => {
+      const next = (err?: unknown) => {
+        if (err !== undefined && err !== null) {
+          reject(err);
+        } else {
+          resolve();
+        }
+      };
+
       try {
-        middleware(req, res, resolve);
+        middleware(req, res, next);
       } catch (err) {
         reject(err);
       }
-- 
2.43.0


From f4941b8e3733bb5efcdf6b4ba1caf15b7d28d927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:26 +0000
Subject: [PATCH 03/39] fix: percent-encode path parameters and replace every
 placeholder

Values containing / ? # % changed other parts of the URL, $ patterns were
interpreted by String.replace and repeated placeholders were left in place.
---
 packages/superagent-wrapper/src/request.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 20d6631..6270d93 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -67,7 +67,7 @@ export interface SuperagentRequest<Res extends Response> extends Promise<Res> {
 export const substitutePathParams = (path: string, params: Record<string, string>) => {
   for (const key in params) {
     if (params.hasOwnProperty(key)) {
-      path = path.replace(`{${key}}`, params[key]);
+      path = path.split(`{${key}}`).join(encodeURIComponent(params[key]));
     }
   }
   return path;
-- 
2.43.0


From 5955e16f17238dedcd0709e71eaf01d459bf6691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:19 +0000
Subject: [PATCH 04/39] fix: send and decode falsy JSON bodies in the
 superagent wrapper

A request body of 0, false, '' or null was dropped, and a falsy response body
was replaced by the response text.
---
 packages/superagent-wrapper/src/request.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/packages/superagent-wrapper/src/request.ts b/packages/superagent-wrapper/src/request.ts
index 6270d93..b307cb4 100644
--- a/packages/superagent-wrapper/src/request.ts
+++ b/packages/superagent-wrapper/src/request.ts
@@ -128,7 +128,7 @@ const patchRequest = <
   patchedReq.decode = () =>
     req.then((res) => {
       const { body, text, status } = res;
-      const bodyOrText = body || text;
+      const bodyOrText = body ?? text;
 
       if (!hasCodecForStatus(route.response, status)) {
         return decodedResponse({
@@ -207,7 +207,7 @@ export const requestForRoute =
       }
     }
 
-    if (reqProps.body) {
+    if (reqProps.body !== undefined) {
       request.set('content-type', 'application/json');
       request = request.send(stringify(reqProps.body));
     }
-- 
2.43.0


From 4824c1bfc18d35ecce47703e08e38a747e9e9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:17 +0000
Subject: [PATCH 05/39] fix: do not send a second response when the
 after-response hook throws

---
 packages/typed-express-router/src/index.ts | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index cb7c0f6..3d5ece4 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -133,6 +133,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             apiName,
             httpRoute: route,
           });
+          let sentStatusCode: number | undefined;
           try {
             const codec = route.response[status];
             if (!codec) {
@@ -152,12 +153,7 @@ export function wrapRouter<Spec extends ApiSpec>(
             }
             const encoded = codec.encode(payload);
             res.status(statusCode).json(encoded).end();
-            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
-              statusCode,
-              payload,
-              req as WrappedRequest,
-              res as WrappedResponse,
-            );
+            sentStatusCode = statusCode;
           } catch (err) {
             const statusCode = (
               options?.getEncodeErrorStatusCode ?? getEncodeErrorStatusCode
@@ -171,6 +167,14 @@ export function wrapRouter<Spec extends ApiSpec>(
           } finally {
             endSpan(encodeSpan);
           }
+          if (sentStatusCode !== undefined) {
+            (options?.afterEncodedResponseSent ?? afterEncodedResponseSent)(
+              sentStatusCode,
+              payload,
+              req as WrappedRequest,
+              res as WrappedResponse,
+            );
+          }
         };
         next();
       };
-- 
2.43.0


From 0d78392072183499d5d5920523beb3b442de6bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 06/39] fix: end the decode span when the request codec or a
 decode-error hook throws

---
 packages/typed-express-router/src/index.ts | 47 +++++++++++++---------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/packages/typed-express-router/src/index.ts b/packages/typed-express-router/src/index.ts
index 3d5ece4..643968e 100644
--- a/packages/typed-express-router/src/index.ts
+++ b/packages/typed-express-router/src/index.ts
@@ -116,13 +116,17 @@ export function wrapRouter<Spec extends ApiSpec>(
         // Intentionally passing explicit arguments here instead of decoding
         // req by itself because of issues that arise while using Node 16
         // See https://github.com/BitGo/api-ts/pull/394 for more information.
-        const decoded = route.request.decode({
-          body: req.body,
-          headers: req.headers,
-          params: req.params,
-          query: req.query,
-        });
-        req.decoded = decoded;
+        try {
+          req.decoded = route.request.decode({
+            body: req.body,
+            headers: req.headers,
+            params: req.params,
+            query: req.query,
+          });
+        } catch (err) {
+          endSpan(decodeSpan);
+          throw err;
+        }
         req.apiName = apiName;
         req.httpRoute = route;
         res.sendEncoded = (
@@ -180,19 +184,22 @@ export function wrapRouter<Spec extends ApiSpec>(
       };
 
       const endDecodeSpanMiddleware: UncheckedRequestHandler = (req, _res, next) => {
-        pipe(
-          req.decoded,
-          E.getOrElseW((errs) => {
-            const decodeErrorMessage = (
-              options?.decodeErrorFormatter ?? decodeErrorFormatter
-            )(errs, req);
-            const statusCode = (
-              options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
-            )(errs, req);
-            recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
-          }),
-        );
-        endSpan(decodeSpan);
+        try {
+          pipe(
+            req.decoded,
+            E.getOrElseW((errs) => {
+              const decodeErrorMessage = (
+                options?.decodeErrorFormatter ?? decodeErrorFormatter
+              )(errs, req);
+              const statusCode = (
+                options?.getDecodeErrorStatusCode ?? getDecodeErrorStatusCode
+              )(errs, req);
+              recordSpanDecodeError(decodeSpan, decodeErrorMessage, statusCode);
+            }),
+          );
+        } finally {
+          endSpan(decodeSpan);
+        }
         next();
       };
 
-- 
2.43.0


From 2c6f638f3dc328cf701ee3fa671485456d8edc8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 07/39] fix: do not swap the built-in minimum and maximum, and
 keep bounds of zero

---
 packages/openapi-generator/src/openapi.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 3b4e6d5..85bbaad 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -300,8 +300,8 @@ export function schemaToOpenAPI(
     const maxLength = jsdoc?.tags?.maxLength ?? schema.maxLength;
     const minLength = jsdoc?.tags?.minLength ?? schema.minLength;
     const pattern = jsdoc?.tags?.pattern ?? schema.pattern;
-    const minimum = jsdoc?.tags?.minimum ?? schema.maximum;
-    const maximum = jsdoc?.tags?.maximum ?? schema.minimum;
+    const minimum = jsdoc?.tags?.minimum ?? schema.minimum;
+    const maximum = jsdoc?.tags?.maximum ?? schema.maximum;
     const minItems = jsdoc?.tags?.minItems ?? schema.minItems;
     const maxItems = jsdoc?.tags?.maxItems ?? schema.maxItems;
     const minProperties = jsdoc?.tags?.minProperties ?? schema.minProperties;
@@ -333,8 +333,8 @@ export function schemaToOpenAPI(
       ...(maxLength ? { maxLength: Number(maxLength) } : {}),
       ...(minLength ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum ? { minimum: Number(minimum) } : {}),
-      ...(maximum ? { maximum: Number(maximum) } : {}),
+      ...(minimum || minimum === 0 ? { minimum: Number(minimum) } : {}),
+      ...(maximum || maximum === 0 ? { maximum: Number(maximum) } : {}),
       ...(minItems ? { minItems: Number(minItems) } : {}),
       ...(maxItems ? { maxItems: Number(maxItems) } : {}),
       ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-- 
2.43.0


From 2af7e71717fbba117eb0c17299694ea5f2fe6560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:34 +0000
Subject: [PATCH 08/39] fix: NonNegativeBigIntFromString has a minimum, not a
 maximum, of 0

---
 packages/openapi-generator/src/knownImports.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index 29042a3..cca7fbc 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -331,7 +331,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
-        maximum: 0,
+        minimum: 0,
         decodedType: 'bigint',
       }),
     NonPositiveBigInt: () =>
-- 
2.43.0


From 36ffe1104c9b8fe059c7c86a568caf1336bf0e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 09/39] fix: describe the bounds of readonlyNonEmptyArray,
 NaturalFromString and NonNegativeIntFromString

---
 packages/openapi-generator/src/knownImports.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/knownImports.ts b/packages/openapi-generator/src/knownImports.ts
index cca7fbc..b67ea01 100644
--- a/packages/openapi-generator/src/knownImports.ts
+++ b/packages/openapi-generator/src/knownImports.ts
@@ -184,6 +184,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
+        minimum: 0,
         decodedType: 'number',
       }),
     Negative: () =>
@@ -235,6 +236,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({
         type: 'string',
         format: 'number',
+        minimum: 0,
         decodedType: 'number',
       }),
     NonPositive: () =>
@@ -396,7 +398,7 @@ export const KNOWN_IMPORTS: KnownImports = {
       E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     NonEmptyString: () => E.right({ type: 'string', minLength: 1 }),
     readonlyNonEmptyArray: (_, innerSchema) =>
-      E.right({ type: 'array', items: innerSchema }),
+      E.right({ type: 'array', items: innerSchema, minItems: 1 }),
     UUID: () => E.right({ type: 'string', title: 'uuid' }),
     Json: () => E.right({ type: 'any', title: 'JSON' }),
     JsonRecord: () => E.right({ type: 'record', codomain: { type: 'any' } }),
-- 
2.43.0


From fa296d2269ae8c10470cd78beb0ca0444816d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:26 +0000
Subject: [PATCH 10/39] fix: list a property required by several members of an
 intersection once

---
 packages/openapi-generator/src/optimize.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index cb877d4..c0af926 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -18,7 +18,9 @@ export function foldIntersection(schema: Schema, optimize: OptimizeFn): Schema {
   innerSchemas.forEach((innerSchema) => {
     if (innerSchema.type === 'object') {
       Object.assign(combinedObject.properties, innerSchema.properties);
-      combinedObject.required.push(...innerSchema.required);
+      combinedObject.required.push(
+        ...innerSchema.required.filter((key) => !combinedObject.required.includes(key)),
+      );
     } else if (result.type === 'intersection') {
       result.schemas.push(innerSchema);
     } else {
-- 
2.43.0


From 0ad06b8ff1c6c4923806fe35c7c79d743e6e6c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 11/39] fix: collect references in the domain of a record

---
 packages/openapi-generator/src/ref.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 5e10ca4..404f057 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -28,7 +28,10 @@ export function getRefs(schema: Schema, typeMap: Record<string, string>): Refere
       return [...acc, ...getRefs(member, typeMap)];
     }, []);
   } else if (schema.type === 'record') {
-    return getRefs(schema.codomain, typeMap);
+    return [
+      ...(schema.domain !== undefined ? getRefs(schema.domain, typeMap) : []),
+      ...getRefs(schema.codomain, typeMap),
+    ];
   } else {
     return [];
   }
-- 
2.43.0


From 3544de3334b5bbe1810b76485804d2c5ba538b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:33 +0000
Subject: [PATCH 12/39] fix: keep diagnostics off stdout when a codec has no
 initializer

---
 packages/openapi-generator/src/cli.ts | 1 -
 1 file changed, 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a51f8b7..a9155d7 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -209,7 +209,6 @@ const app = command({
         const [newSourceFile, init, comment] = initE.right;
 
         if (init === null) {
-          console.log({ ref });
           let errorMessage = `Could not determine encode/decode types for codec '${ref.name}' in '${ref.location}'`;
           if (ref.location.includes('/node_modules/io-ts-types/')) {
             errorMessage += `
-- 
2.43.0


From 087ada226fbe4b59fc05a0eeedf436d201985a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:04 +0000
Subject: [PATCH 13/39] fix: count UTF-16 code units when converting byte
 offsets

---
 packages/openapi-generator/src/comments.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index bd8f135..c2f1104 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -19,7 +19,7 @@ function byteOffsetToCharOffset(str: string, byteOffset: number): number {
     const charBytes = Buffer.byteLength(char, 'utf8');
     if (byteCount + charBytes > byteOffset) break;
     byteCount += charBytes;
-    charCount++;
+    charCount += char.length;
   }
 
   return charCount;
-- 
2.43.0


From e4f387365306bcc71c01a1d035dd61a78ad36ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 14/39] fix: do not add custom codecs of a project to the
 shared KNOWN_IMPORTS

---
 packages/openapi-generator/src/project.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index 1075690..cbfe304 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -22,7 +22,7 @@ export class Project {
   constructor(files: Record<string, SourceFile> = {}, knownImports = KNOWN_IMPORTS) {
     this.processedFiles = files;
     this.pendingFiles = new Set();
-    this.knownImports = knownImports;
+    this.knownImports = { ...knownImports };
     this.types = {};
     this.typeCollisionCounters = {};
     this.visitedPackages = new Set();
-- 
2.43.0


From 2729004e1aab53b7cc9fecc858a31fb3ee8ceb24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 15/39] fix: generate one component per declaration when names
 collide

---
 packages/openapi-generator/src/cli.ts | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index a9155d7..8b8e676 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -157,7 +157,6 @@ const app = command({
         ...Object.values(route.response),
       ];
     });
-    const componentLocations: Record<string, string> = {};
     const componentCollisionCounters: Record<string, number> = {};
     const componentNameMapping: Record<string, Record<string, string>> = {};
 
@@ -175,10 +174,7 @@ const app = command({
     while (((schema = queue.pop()), schema !== undefined)) {
       const refs = getRefs(schema, project.getTypes());
       for (const ref of refs) {
-        if (
-          components[ref.name] !== undefined &&
-          componentLocations[ref.name] === ref.location
-        ) {
+        if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
           continue;
         }
 
@@ -246,7 +242,6 @@ const app = command({
         }
 
         components[componentName] = codecE.right;
-        componentLocations[componentName] = ref.location;
         queue.push(codecE.right);
       }
     }
-- 
2.43.0


From bb0b6278d4598a7893a9a0a6aeb3f10e6f3b159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:18 +0000
Subject: [PATCH 16/39] fix: do not overwrite a component with one renamed
 after a collision

---
 packages/openapi-generator/src/cli.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 8b8e676..bb8a918 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -165,7 +165,10 @@ const app = command({
       if (components[name] === undefined) {
         return name;
       }
-      const counter = (componentCollisionCounters[name] ?? 0) + 1;
+      let counter = componentCollisionCounters[name] ?? 0;
+      do {
+        counter++;
+      } while (components[`${name}${counter}`] !== undefined);
       componentCollisionCounters[name] = counter;
       return `${name}${counter}`;
     };
-- 
2.43.0


From 991923baceab77819afd17b06508608c1099fa66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:50 +0000
Subject: [PATCH 17/39] fix: report references to codecs that cannot be found

---
 packages/openapi-generator/src/ref.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/ref.ts b/packages/openapi-generator/src/ref.ts
index 404f057..01e332a 100644
--- a/packages/openapi-generator/src/ref.ts
+++ b/packages/openapi-generator/src/ref.ts
@@ -7,7 +7,7 @@ export function getRefs(schema: Schema, typeMap: Record<string, string>): Refere
       // The location is a node module - we need to populate the location here
       const newPath = typeMap[schema.name];
       if (!newPath) {
-        return [];
+        return [schema];
       }
 
       return [{ ...schema, location: newPath }];
-- 
2.43.0


From e21ec42061e0ac67e6f1349557160de1806540b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:22 +0000
Subject: [PATCH 18/39] fix: do not modify the input schemas when optimizing

---
 packages/openapi-generator/src/optimize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index c0af926..92bf884 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -217,7 +217,7 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
 // This function is a helper that adds back any comments that were removed during optimization
 function withComment(newSchema: Schema, oldSchema: Schema): Schema {
   if (oldSchema.comment) {
-    newSchema.comment = combineComments(oldSchema);
+    return { ...newSchema, comment: combineComments(oldSchema) };
   }
 
   return newSchema;
-- 
2.43.0


From bb7a68a99e184a679091237bdc69642569f94c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 19/39] fix: do not let the locale of the environment order the
 document

---
 packages/openapi-generator/src/openapi.ts  | 4 ++--
 packages/openapi-generator/src/optimize.ts | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 85bbaad..9b414e5 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -516,11 +516,11 @@ export function convertRoutesToOpenAPI(
   );
 
   const sortedPaths = Object.keys(paths)
-    .sort((a, b) => a.localeCompare(b))
+    .sort((a, b) => a.localeCompare(b, 'en'))
     .reduce(
       (acc, key) => {
         const sortedMethods = Object.keys(paths[key]!)
-          .sort((a, b) => a.localeCompare(b))
+          .sort((a, b) => a.localeCompare(b, 'en'))
           .reduce(
             (methodAcc, methodKey) => {
               methodAcc[methodKey] = paths[key]![methodKey]!;
diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 92bf884..3024548 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -119,7 +119,7 @@ function mergeUnions(schema: Schema): Schema {
         : Object.assign(
             {},
             ...Object.entries(obj)
-              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB))
+              .sort(([keyA], [keyB]) => keyA.localeCompare(keyB, 'en'))
               .map(([k, v]) => ({ [k]: sortObj(v) })),
           );
 
-- 
2.43.0


From a2ec6871a8e0e94947a3fa09dc85999eb97e1325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:03 +0000
Subject: [PATCH 20/39] fix: stop resolving a name when modules re-export each
 other

---
 packages/openapi-generator/src/resolveInit.ts | 27 ++++++++++++++++---
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index eff1797..ff0f0cc 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -35,10 +35,18 @@ function findExportedDeclaration(
   project: Project,
   sourceFile: SourceFile,
   name: string,
+  visited: Set<string>,
 ): E.Either<string, ResolvedInitializer> {
+  // Modules may re-export each other, so look into each of them only once per name
+  const key = JSON.stringify([sourceFile.path, name]);
+  if (visited.has(key)) {
+    return errorLeft(`Unknown identifier ${name}`);
+  }
+  visited.add(key);
+
   for (const exp of sourceFile.symbols.exports) {
     if (exp.exportedName === name) {
-      return findSymbolInitializer(project, sourceFile, exp.localName);
+      return findSymbolInitializer(project, sourceFile, exp.localName, visited);
     }
   }
   for (const starExport of sourceFile.symbols.exportStarFiles) {
@@ -46,7 +54,12 @@ function findExportedDeclaration(
     if (E.isLeft(starSourceFile)) {
       return errorLeft(`Cannot resolve * export from '${starExport}'`);
     }
-    const starExportE = findExportedDeclaration(project, starSourceFile.right, name);
+    const starExportE = findExportedDeclaration(
+      project,
+      starSourceFile.right,
+      name,
+      visited,
+    );
     if (E.isRight(starExportE)) {
       return starExportE;
     }
@@ -58,6 +71,7 @@ export function findSymbolInitializer(
   project: Project,
   sourceFile: SourceFile,
   name: string | [string, string],
+  visited: Set<string> = new Set(),
 ): E.Either<string, [SourceFile, swc.Expression, Block | undefined]> {
   if (Array.isArray(name)) {
     const [importName] = name;
@@ -67,7 +81,7 @@ export function findSymbolInitializer(
         if (E.isLeft(impSourceFile)) {
           return impSourceFile;
         }
-        return findExportedDeclaration(project, impSourceFile.right, name[1]);
+        return findExportedDeclaration(project, impSourceFile.right, name[1], visited);
       }
     }
     name = name[0];
@@ -86,7 +100,12 @@ export function findSymbolInitializer(
       if (E.isLeft(impSourceFile)) {
         return errorLeft(`Cannot resolve import '${imp.localName}' from '${imp.from}'`);
       }
-      return findExportedDeclaration(project, impSourceFile.right, imp.importedName);
+      return findExportedDeclaration(
+        project,
+        impSourceFile.right,
+        imp.importedName,
+        visited,
+      );
     }
   }
   return errorLeft(`Unknown identifier ${name}`);
-- 
2.43.0


From a875ccaea8b50aeadc4861836a6b30acaa0c9631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:37 +0000
Subject: [PATCH 21/39] fix: keep the path and header parameters of referenced
 request union members

---
 packages/openapi-generator/src/route.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 69eeb7c..82a70df 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -129,6 +129,7 @@ function parseRequestUnion(
   const querySchema: Schema = { type: 'union', schemas: [] };
   const headerSchema: Schema = { type: 'union', schemas: [] };
   let body: Schema | undefined;
+  const subSchemas: Schema[] = [];
 
   for (let subSchema of schema.schemas) {
     if (subSchema.type === 'ref') {
@@ -138,6 +139,7 @@ function parseRequestUnion(
       }
       subSchema = derefE.right;
     }
+    subSchemas.push(subSchema);
 
     if (subSchema.type !== 'object') {
       return errorLeft('Route request union must be all objects');
@@ -172,7 +174,7 @@ function parseRequestUnion(
     // For headers in unions, deduplicate and merge properties from all schemas
     const headerParams = new Map<string, Parameter>();
 
-    for (const subSchema of schema.schemas) {
+    for (const subSchema of subSchemas) {
       if (
         subSchema.type === 'object' &&
         subSchema.properties['headers']?.type === 'object'
@@ -196,7 +198,7 @@ function parseRequestUnion(
   }
 
   // Find the first schema in the union that has path parameters
-  for (const subSchema of schema.schemas) {
+  for (const subSchema of subSchemas) {
     if (subSchema.type === 'object') {
       const pathSchema = subSchema.properties['params'];
       if (pathSchema !== undefined && pathSchema.type === 'object') {
-- 
2.43.0


From d585f0f80120b63e8f57dfd30aece4386160304e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 22/39] fix: keep flags such as @uniqueItems and @readOnly that
 have no value

---
 packages/openapi-generator/src/openapi.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 9b414e5..abf7718 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -325,6 +325,9 @@ export function schemaToOpenAPI(
     }
     const description = schema.comment?.description ?? schema.description;
 
+    // Flags are documented as tags without a value, which is parsed as an empty string
+    const isFlagSet = (flag: string | boolean | undefined) => flag === '' || !!flag;
+
     const defaultOpenAPIObject = {
       ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
@@ -339,12 +342,12 @@ export function schemaToOpenAPI(
       ...(maxItems ? { maxItems: Number(maxItems) } : {}),
       ...(minProperties ? { minProperties: Number(minProperties) } : {}),
       ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
-      ...(exclusiveMinimum ? { exclusiveMinimum: true } : {}),
-      ...(exclusiveMaximum ? { exclusiveMaximum: true } : {}),
+      ...(isFlagSet(exclusiveMinimum) ? { exclusiveMinimum: true } : {}),
+      ...(isFlagSet(exclusiveMaximum) ? { exclusiveMaximum: true } : {}),
       ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
-      ...(uniqueItems ? { uniqueItems: true } : {}),
-      ...(readOnly ? { readOnly: true } : {}),
-      ...(writeOnly ? { writeOnly: true } : {}),
+      ...(isFlagSet(uniqueItems) ? { uniqueItems: true } : {}),
+      ...(isFlagSet(readOnly) ? { readOnly: true } : {}),
+      ...(isFlagSet(writeOnly) ? { writeOnly: true } : {}),
       ...(format ? { format } : {}),
       ...(title ? { title } : {}),
       ...(isPrivate ? { 'x-internal': true } : isPublic ? { 'x-internal': false } : {}),
-- 
2.43.0


From 84e76499c815a3161fbcecbcf1b8bf59c46d95bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:18 +0000
Subject: [PATCH 23/39] fix: keep built-in defaults, examples and bounds that
 are falsy or not strings

---
 packages/openapi-generator/src/openapi.ts | 40 +++++++++++++----------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index abf7718..ee16eba 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -80,11 +80,11 @@ export function schemaToOpenAPI(
         }
 
         const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
-        const isArrayExample = example && Array.isArray(example);
+        const isArrayExample = Array.isArray(example);
 
         const siblings = {
           ...rest,
-          ...(!isArrayExample && example ? { example } : {}),
+          ...(!isArrayExample && example !== undefined ? { example } : {}),
         };
 
         // Handle case where innerSchema is a $ref with siblings
@@ -105,8 +105,8 @@ export function schemaToOpenAPI(
 
         return {
           type: 'array',
-          ...(minItems ? { minItems } : {}),
-          ...(maxItems ? { maxItems } : {}),
+          ...(minItems !== undefined ? { minItems } : {}),
+          ...(maxItems !== undefined ? { maxItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
@@ -276,8 +276,10 @@ export function schemaToOpenAPI(
    * @param fieldValue The value to parse
    * @returns the parsed value
    */
-  const parseField = (schema: Schema, fieldValue: string): any => {
-    if (schema.type === 'number' || schema.type === 'integer') {
+  const parseField = (schema: Schema, fieldValue: any): any => {
+    if (typeof fieldValue !== 'string') {
+      return fieldValue;
+    } else if (schema.type === 'number' || schema.type === 'integer') {
       return Number(fieldValue);
     } else if (schema.type === 'boolean') {
       return fieldValue === 'true';
@@ -285,7 +287,7 @@ export function schemaToOpenAPI(
       return null;
     } else if (schema.type === 'string') {
       // Remove extraneous double quotes around the fieldValue
-      return fieldValue?.replace(/^"(.*)"$/, '$1');
+      return fieldValue.replace(/^"(.*)"$/, '$1');
     } else {
       return fieldValue;
     }
@@ -325,26 +327,28 @@ export function schemaToOpenAPI(
     }
     const description = schema.comment?.description ?? schema.description;
 
+    // A tag without a value is parsed as an empty string
+    const isSet = (value: unknown) => value !== undefined && value !== '';
     // Flags are documented as tags without a value, which is parsed as an empty string
     const isFlagSet = (flag: string | boolean | undefined) => flag === '' || !!flag;
 
     const defaultOpenAPIObject = {
-      ...(defaultValue ? { default: parseField(schema, defaultValue) } : {}),
+      ...(isSet(defaultValue) ? { default: parseField(schema, defaultValue) } : {}),
       ...(deprecated ? { deprecated: true } : {}),
       ...(description ? { description } : {}),
-      ...(example ? { example: parseField(schema, example) } : {}),
-      ...(maxLength ? { maxLength: Number(maxLength) } : {}),
-      ...(minLength ? { minLength: Number(minLength) } : {}),
+      ...(isSet(example) ? { example: parseField(schema, example) } : {}),
+      ...(isSet(maxLength) ? { maxLength: Number(maxLength) } : {}),
+      ...(isSet(minLength) ? { minLength: Number(minLength) } : {}),
       ...(pattern ? { pattern } : {}),
-      ...(minimum || minimum === 0 ? { minimum: Number(minimum) } : {}),
-      ...(maximum || maximum === 0 ? { maximum: Number(maximum) } : {}),
-      ...(minItems ? { minItems: Number(minItems) } : {}),
-      ...(maxItems ? { maxItems: Number(maxItems) } : {}),
-      ...(minProperties ? { minProperties: Number(minProperties) } : {}),
-      ...(maxProperties ? { maxProperties: Number(maxProperties) } : {}),
+      ...(isSet(minimum) ? { minimum: Number(minimum) } : {}),
+      ...(isSet(maximum) ? { maximum: Number(maximum) } : {}),
+      ...(isSet(minItems) ? { minItems: Number(minItems) } : {}),
+      ...(isSet(maxItems) ? { maxItems: Number(maxItems) } : {}),
+      ...(isSet(minProperties) ? { minProperties: Number(minProperties) } : {}),
+      ...(isSet(maxProperties) ? { maxProperties: Number(maxProperties) } : {}),
       ...(isFlagSet(exclusiveMinimum) ? { exclusiveMinimum: true } : {}),
       ...(isFlagSet(exclusiveMaximum) ? { exclusiveMaximum: true } : {}),
-      ...(multipleOf ? { multipleOf: Number(multipleOf) } : {}),
+      ...(isSet(multipleOf) ? { multipleOf: Number(multipleOf) } : {}),
       ...(isFlagSet(uniqueItems) ? { uniqueItems: true } : {}),
       ...(isFlagSet(readOnly) ? { readOnly: true } : {}),
       ...(isFlagSet(writeOnly) ? { writeOnly: true } : {}),
-- 
2.43.0


From bdcbd82ecda72570d8601dcf55cce1be70128406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 24/39] fix: keep the built-in description of a codec whose
 comment has none

---
 packages/openapi-generator/src/openapi.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index ee16eba..185a235 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -325,7 +325,7 @@ export function schemaToOpenAPI(
     if (isPrivate && isPublic) {
       throw new Error('Cannot use both @public and @private on the same schema field');
     }
-    const description = schema.comment?.description ?? schema.description;
+    const description = schema.comment?.description || schema.description;
 
     // A tag without a value is parsed as an empty string
     const isSet = (value: unknown) => value !== undefined && value !== '';
-- 
2.43.0


From ded13437bfcac5809b7a212b0d357b4b835983c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 25/39] fix: number the enum members that have no initializer

---
 packages/openapi-generator/src/symbol.ts | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index ddb7527..b6d7bfe 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -156,7 +156,16 @@ function parseDeclaration(
         ? leadingComment(src, srcSpanStart, prev.span.end, decl.span.start)[0]
         : undefined;
     // Construct a synthetic object declaration
+    let nextValue: number | undefined = 0;
     const properties: swc.KeyValueProperty[] = subDeclaration.members.map((member) => {
+      // Members without an initializer count up from the previous numeric member
+      const value: number | undefined = nextValue;
+      if (member.init === undefined || member.init === null) {
+        nextValue = value === undefined ? undefined : value + 1;
+      } else {
+        nextValue =
+          member.init.type === 'NumericLiteral' ? member.init.value + 1 : undefined;
+      }
       return {
         type: 'KeyValueProperty',
         key: {
@@ -165,11 +174,11 @@ function parseDeclaration(
           span: member.id.span,
           optional: false,
         },
-        value: member.init ?? {
-          type: 'StringLiteral',
-          value: member.id.value,
-          span: member.id.span,
-        },
+        value:
+          member.init ??
+          (value !== undefined
+            ? { type: 'NumericLiteral', value, span: member.id.span }
+            : { type: 'StringLiteral', value: member.id.value, span: member.id.span }),
       };
     });
     const syntheticObject: swc.ObjectExpression = {
-- 
2.43.0


From 8ff6ae931096d0280940874e7ced8089a00c5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:31 +0000
Subject: [PATCH 26/39] fix: keep every alternative of a union that also admits
 undefined

---
 packages/openapi-generator/src/openapi.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index 185a235..ea59b1e 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -155,9 +155,17 @@ export function schemaToOpenAPI(
         const isOptional =
           schema.schemas.length >= 2 && undefinedSchema && nonUndefinedSchema;
         if (isOptional) {
+          const definedSchemas = schema.schemas.filter((s) => s.type !== 'undefined');
+          const nonNullSchemas = definedSchemas.filter((s) => s.type !== 'null');
+          if (nonNullSchemas.length > 1) {
+            return schemaToOpenAPI(
+              { type: 'union', schemas: definedSchemas, comment: schema.comment },
+              componentNameMapping,
+            );
+          }
           return schemaToOpenAPI(
             {
-              ...nonUndefinedSchema,
+              ...(nonNullSchemas[0] ?? nonUndefinedSchema),
               comment: schema.comment,
               ...(nullSchema ? { nullable: true } : {}),
             },
-- 
2.43.0


From aecb7f1c57f8ddfe31ea80c6af8f32786b3aa4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 27/39] fix: put uniqueItems on the array and not on its items

---
 packages/openapi-generator/src/openapi.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/openapi.ts b/packages/openapi-generator/src/openapi.ts
index ea59b1e..503ad08 100644
--- a/packages/openapi-generator/src/openapi.ts
+++ b/packages/openapi-generator/src/openapi.ts
@@ -79,7 +79,8 @@ export function schemaToOpenAPI(
           return undefined;
         }
 
-        const { example, minItems, maxItems, ...rest } = defaultOpenAPIObject;
+        const { example, minItems, maxItems, uniqueItems, ...rest } =
+          defaultOpenAPIObject;
         const isArrayExample = Array.isArray(example);
 
         const siblings = {
@@ -107,6 +108,7 @@ export function schemaToOpenAPI(
           type: 'array',
           ...(minItems !== undefined ? { minItems } : {}),
           ...(maxItems !== undefined ? { maxItems } : {}),
+          ...(uniqueItems !== undefined ? { uniqueItems } : {}),
           ...(isArrayExample ? { example } : {}),
           items,
         };
-- 
2.43.0


From 9640db34a045204a168014bdac78b4f9b5abf6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:40 +0000
Subject: [PATCH 28/39] fix: pass on a middlewareFn rejection without a reason
 as an error

---
 packages/express-wrapper/src/middleware.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/packages/express-wrapper/src/middleware.ts b/packages/express-wrapper/src/middleware.ts
index 8b159d4..b32e00f 100644
--- a/packages/express-wrapper/src/middleware.ts
+++ b/packages/express-wrapper/src/middleware.ts
@@ -34,7 +34,7 @@ export function middlewareFn<T extends {}>(fn: MiddlewareFn<T>): MiddlewareHandl
   const result: express.RequestHandler = (req, res, next: MiddlewareNextFn) => {
     fn(req, res)
       .then((result) => next(undefined, result))
-      .catch((err) => next(err));
+      .catch((err) => next(err ?? new Error('middleware rejected without an error')));
   };
   return result as MiddlewareHandler<T>;
 }
-- 
2.43.0


From 5c63a3123005a87aaad65e835e033b345bcf44dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:47 +0000
Subject: [PATCH 29/39] fix: strip undefined optional properties after merging,
 without modifying the input

---
 packages/io-ts-http/src/combinators.ts | 80 +++++++++++---------------
 1 file changed, 33 insertions(+), 47 deletions(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index 1990e20..dbac270 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -3,7 +3,6 @@ import * as E from 'fp-ts/Either';
 import * as R from 'fp-ts/Record';
 import * as t from 'io-ts';
 import {
-  DefinedValues,
   Flattened,
   NestedType,
   NestedOutputType,
@@ -14,47 +13,22 @@ import {
   Simplify,
 } from './utils';
 
-const partialWithoutUndefined = <P extends t.Props>(
-  props: P,
-  name?: string,
-): t.PartialType<
-  P,
-  DefinedValues<t.TypeOfPartialProps<P>>,
-  DefinedValues<t.OutputOfPartialProps<P>>,
-  unknown
-> => {
-  const partialCodec = t.partial(props, name);
-  return new t.PartialType(
-    partialCodec.name,
-    (i): i is DefinedValues<t.TypeOfPartialProps<P>> => partialCodec.is(i),
-    (i, ctx) => {
-      return pipe(
-        partialCodec.validate(i, ctx),
-        E.map((result) => {
-          for (const key of Object.keys(result)) {
-            if (result[key] === void 0) {
-              delete result[key];
-            }
-          }
-          return result as DefinedValues<t.TypeOfPartialProps<P>>;
-        }),
-      );
-    },
-    (a) => {
-      const result = partialCodec.encode(a);
-      if (result === undefined) {
-        // `t.partial` will return this when passed `undefined` even though it is not in the type
-        return result;
-      }
-      for (const key of Object.keys(result)) {
-        if (result[key] === void 0) {
-          delete result[key];
-        }
-      }
-      return result as DefinedValues<t.OutputOfPartialProps<P>>;
-    },
-    props,
-  );
+/**
+ * Returns `value` without the optional properties that are explicitly `undefined`. The argument
+ * belongs to the caller (it can be the very input or value passed to the codec) and is not modified.
+ */
+const stripUndefined = <A>(value: A, optionalProps: t.Props): A => {
+  if (typeof value !== 'object' || value === null) {
+    // `t.partial` will encode `undefined` as itself even though it is not in the type
+    return value;
+  }
+  const result = { ...value } as A & Record<string, unknown>;
+  for (const key of Object.keys(optionalProps)) {
+    if (result[key] === void 0) {
+      delete result[key];
+    }
+  }
+  return result;
 };
 
 export const optional = <C extends t.Mixed>(codec: C): t.UnionC<[C, t.UndefinedC]> =>
@@ -75,15 +49,27 @@ export const optionalized = <P extends t.Props>(
       requiredProps[key] = codec;
     }
   }
-  return t.intersection([
+  const codec = t.intersection([
     t.type(requiredProps, name ? `required_${name}` : undefined) as t.TypeC<
       RequiredProps<P>
     >,
-    partialWithoutUndefined(
-      optionalProps,
-      name ? `optional_${name}` : undefined,
-    ) as t.PartialC<OptionalProps<P>>,
+    t.partial(optionalProps, name ? `optional_${name}` : undefined) as t.PartialC<
+      OptionalProps<P>
+    >,
   ]);
+  // Undefined properties are removed from the merged result: `t.intersection` keeps a property that
+  // any of its members has, so removing them from the result of the partial codec is not enough
+  return new t.IntersectionType(
+    codec.name,
+    codec.is,
+    (i, ctx) =>
+      pipe(
+        codec.validate(i, ctx),
+        E.map((result) => stripUndefined(result, optionalProps)),
+      ),
+    (a) => stripUndefined(codec.encode(a), optionalProps),
+    codec.types,
+  );
 };
 
 export const flattened = <Props extends NestedProps>(
-- 
2.43.0


From 37caba1d03be762d1da709948b9b9dd33a33a023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:19 +0000
Subject: [PATCH 30/39] fix: do not encode absent optional request properties
 as undefined

---
 packages/io-ts-http/src/combinators.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/io-ts-http/src/combinators.ts b/packages/io-ts-http/src/combinators.ts
index dbac270..1d38c1b 100644
--- a/packages/io-ts-http/src/combinators.ts
+++ b/packages/io-ts-http/src/combinators.ts
@@ -121,7 +121,10 @@ export const flattened = <Props extends NestedProps>(
         for (const i in props[o]) {
           if ((input as {}).hasOwnProperty(i)) {
             const codec = props[o]![i]!;
-            nested[o]![i] = codec.encode(input[i]);
+            const encoded = codec.encode(input[i]);
+            if (encoded !== void 0) {
+              nested[o]![i] = encoded;
+            }
           }
         }
       }
-- 
2.43.0


From 84e8ac1186bd798a6191437e2fdce1db1863beaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:13 +0000
Subject: [PATCH 31/39] fix: treat properties with a nested undefined
 alternative as optional

---
 packages/openapi-generator/src/optimize.ts | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 3024548..3158fd7 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -199,12 +199,17 @@ export function filterUndefinedUnion(schema: Schema): [boolean, Schema] {
     return [false, schema];
   }
 
-  const undefinedIndex = schema.schemas.findIndex((s) => s.type === 'undefined');
-  if (undefinedIndex < 0) {
+  // Unions may be nested, so `undefined` may also be an alternative of an alternative
+  const defined = schema.schemas.filter((s) => s.type !== 'undefined');
+  const filtered = defined.map(filterUndefinedUnion);
+  if (
+    defined.length === schema.schemas.length &&
+    !filtered.some(([isOptional]) => isOptional)
+  ) {
     return [false, schema];
   }
 
-  const schemas = schema.schemas.filter((s) => s.type !== 'undefined');
+  const schemas = filtered.map(([_, s]) => s).filter((s) => s.type !== 'undefined');
   if (schemas.length === 0) {
     return [true, { type: 'undefined' }];
   } else if (schemas.length === 1) {
-- 
2.43.0


From a20866f1aa1813e93120429e77d4ee3149d64f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:23 +0000
Subject: [PATCH 32/39] fix: let documentation tags of the outer schema win
 over those of inner schemas

---
 packages/openapi-generator/src/comments.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/comments.ts b/packages/openapi-generator/src/comments.ts
index c2f1104..71907cd 100644
--- a/packages/openapi-generator/src/comments.ts
+++ b/packages/openapi-generator/src/comments.ts
@@ -142,6 +142,11 @@ export function combineComments(schema: Schema): Block | undefined {
 
   // Add all seen tags, problems, and source comments to the result
   for (const comment of comments) {
+    // Tags are read from the source lines, so leave out those of a higher level, too
+    const source = comment.source.filter(
+      (line) => !tagSet.has(line.tokens.tag.slice(1)),
+    );
+
     for (const tag of comment.tags) {
       // Only add the tag if we haven't seen it before. Otherwise, the higher level tag is 'probably' the more relevant tag.
       if (!tagSet.has(tag.tag)) {
@@ -151,7 +156,7 @@ export function combineComments(schema: Schema): Block | undefined {
     }
 
     result.problems.push(...comment.problems);
-    result.source.push(...comment.source);
+    result.source.push(...source);
   }
 
   return result;
-- 
2.43.0


From 9355779a370970c29523536c1fccd0dc05ea2a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:21 +0000
Subject: [PATCH 33/39] fix: keep the annotations of built-in codecs when
 optimizing schemas

---
 packages/openapi-generator/src/optimize.ts | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/packages/openapi-generator/src/optimize.ts b/packages/openapi-generator/src/optimize.ts
index 3158fd7..4389d66 100644
--- a/packages/openapi-generator/src/optimize.ts
+++ b/packages/openapi-generator/src/optimize.ts
@@ -245,7 +245,7 @@ export function optimize(schema: Schema): Schema {
       }
     }
 
-    const schemaObject: Schema = { type: 'object', properties, required };
+    const schemaObject: Schema = { ...schema, properties, required };
 
     return withComment(schemaObject, schema);
   } else if (schema.type === 'intersection') {
@@ -261,11 +261,11 @@ export function optimize(schema: Schema): Schema {
   } else if (schema.type === 'array') {
     const optimized = optimize(schema.items);
 
-    return withComment({ type: 'array', items: optimized }, schema);
+    return withComment({ ...schema, items: optimized }, schema);
   } else if (schema.type === 'record') {
     return withComment(
       {
-        type: 'record',
+        ...schema,
         ...(schema.domain ? { domain: optimize(schema.domain) } : {}),
         codomain: optimize(schema.codomain),
       },
@@ -273,7 +273,7 @@ export function optimize(schema: Schema): Schema {
     );
   } else if (schema.type === 'tuple') {
     const schemas = schema.schemas.map(optimize);
-    return withComment({ type: 'tuple', schemas }, schema);
+    return withComment({ ...schema, schemas }, schema);
   } else if (schema.type === 'ref') {
     return schema;
   } else {
-- 
2.43.0


From 842a57f18baf3190d036b293fef9aad50b9e5009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:46 +0000
Subject: [PATCH 34/39] fix: resolve references through renaming exports and
 re-exports

A reference carried the imported name even when the file it points into
declares the value under another name, so codecs imported through
renaming exports, re-exports and default exports were rejected or taken
from another declaration of that name. Spreads, computed keys and
template literals looked such names up in the importing file.
---
 packages/openapi-generator/src/cli.ts         |  4 +-
 packages/openapi-generator/src/codec.ts       | 53 +++++++++++++++----
 packages/openapi-generator/src/resolveInit.ts | 36 +++++++++++++
 packages/openapi-generator/src/route.ts       |  4 +-
 4 files changed, 83 insertions(+), 14 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index bb8a918..1718a52 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -15,7 +15,7 @@ import type { Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferencedInitializer } from './resolveInit';
 import { parseCodecInitializer } from './codec';
 import { SourceFile } from './sourceFile';
 import { logError, logInfo, logWarn } from './error';
@@ -198,7 +198,7 @@ const app = command({
           process.exit(1);
         }
 
-        const initE = findSymbolInitializer(project, sourceFile, ref.name);
+        const initE = findReferencedInitializer(project, sourceFile, ref.name);
         if (E.isLeft(initE)) {
           logError(
             `Could not find symbol '${ref.name}' in '${ref.location}': ${initE.left}`,
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 86f2e1c..0703bf0 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -3,10 +3,14 @@ import * as E from 'fp-ts/Either';
 import { pipe } from 'fp-ts/lib/function';
 
 import { leadingComment } from './comments';
-import type { Object, Schema } from './ir';
+import type { Object, Reference, Schema } from './ir';
 import type { DerefFn } from './knownImports';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import {
+  findReferencedInitializer,
+  findSymbolInitializer,
+  referenceName,
+} from './resolveInit';
 import type { SourceFile } from './sourceFile';
 
 import type { KnownCodec } from './knownImports';
@@ -44,11 +48,11 @@ function codecIdentifier(
     if (E.isLeft(initE)) {
       return initE;
     }
-    const [newSourceFile] = initE.right;
+    const [newSourceFile, newInit] = initE.right;
 
     return E.right({
       type: 'ref',
-      name: imp.importedName,
+      name: referenceName(project, newSourceFile, newInit, imp.importedName),
       location: newSourceFile.path,
     });
   } else if (id.type === 'MemberExpression') {
@@ -115,7 +119,12 @@ function codecIdentifier(
         return newInitE;
       }
 
-      return E.right({ type: 'ref', name, location: newInitE.right[0].path });
+      const [newSourceFile, newInit] = newInitE.right;
+      return E.right({
+        type: 'ref',
+        name: referenceName(project, newSourceFile, newInit, name),
+        location: newSourceFile.path,
+      });
     }
 
     // Parse member expressions that come from `import { foo } from 'foo'` imports
@@ -189,6 +198,30 @@ function codecIdentifier(
   return errorLeft(`Unimplemented identifier type ${id.type}`);
 }
 
+/**
+ * Find the initializer of a reference that occurs in `source`
+ */
+function findReference(project: Project, source: SourceFile, ref: Reference) {
+  const refSource =
+    ref.location === source.path ? source : project.get(ref.location);
+  if (refSource !== undefined) {
+    return findReferencedInitializer(project, refSource, ref.name);
+  }
+  // The location is a package, so go through the import that the reference comes from
+  const imp = source.symbols.imports.find(
+    (s) =>
+      s.from === ref.location && (s.type === 'star' || s.importedName === ref.name),
+  );
+  if (imp === undefined) {
+    return findSymbolInitializer(project, source, ref.name);
+  }
+  return findSymbolInitializer(
+    project,
+    source,
+    imp.type === 'star' ? [imp.localName, ref.name] : imp.localName,
+  );
+}
+
 function parseObjectExpression(
   project: Project,
   source: SourceFile,
@@ -223,7 +256,7 @@ function parseObjectExpression(
       }
       let schema = schemaE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findReference(project, source, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -270,7 +303,7 @@ function parseObjectExpression(
       }
       let schema = valueE.right;
       if (schema.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, schema.name);
+        const realInitE = findReference(project, source, schema);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -327,7 +360,7 @@ function parseArrayExpression(
     if (element.spread) {
       let init = valueE.right;
       if (init.type === 'ref') {
-        const realInitE = findSymbolInitializer(project, source, init.name);
+        const realInitE = findReference(project, source, init);
         if (E.isLeft(realInitE)) {
           return realInitE;
         }
@@ -370,7 +403,7 @@ function parseTemplateLiteral(
     ) {
       return E.right(String(schema.enum[0]));
     } else if (schema.type === 'ref') {
-      const realInitE = findSymbolInitializer(project, source, schema.name);
+      const realInitE = findReference(project, source, schema);
       if (E.isLeft(realInitE)) {
         return realInitE;
       }
@@ -548,7 +581,7 @@ export function parseCodecInitializer(
             return errorLeft(`Cannot find '${schema.name}' from '${schema.location}'`);
           }
         }
-        const initE = findSymbolInitializer(project, refSource, schema.name);
+        const initE = findReferencedInitializer(project, refSource, schema.name);
         if (E.isLeft(initE)) {
           return initE;
         }
diff --git a/packages/openapi-generator/src/resolveInit.ts b/packages/openapi-generator/src/resolveInit.ts
index ff0f0cc..fa7e116 100644
--- a/packages/openapi-generator/src/resolveInit.ts
+++ b/packages/openapi-generator/src/resolveInit.ts
@@ -111,6 +111,42 @@ export function findSymbolInitializer(
   return errorLeft(`Unknown identifier ${name}`);
 }
 
+/**
+ * Find the initializer a reference into a file points at. References carry the name of a
+ * declaration, or the name that the file exports it under.
+ */
+export function findReferencedInitializer(
+  project: Project,
+  sourceFile: SourceFile,
+  name: string,
+): E.Either<string, ResolvedInitializer> {
+  const initE = findSymbolInitializer(project, sourceFile, name);
+  if (E.isRight(initE)) {
+    return initE;
+  }
+  const exportedE = findExportedDeclaration(project, sourceFile, name, new Set());
+  return E.isRight(exportedE) ? exportedE : initE;
+}
+
+/**
+ * The name by which an initializer, imported as `importedName`, is found in its own file
+ */
+export function referenceName(
+  project: Project,
+  sourceFile: SourceFile,
+  init: swc.Expression,
+  importedName: string,
+): string {
+  const initE = findReferencedInitializer(project, sourceFile, importedName);
+  if (E.isRight(initE) && initE.right[1] === init) {
+    return importedName;
+  }
+  return (
+    sourceFile.symbols.declarations.find((decl) => decl.init === init)?.name ??
+    importedName
+  );
+}
+
 export function resolveLiteralOrIdentifier(
   project: Project,
   sourceFile: SourceFile,
diff --git a/packages/openapi-generator/src/route.ts b/packages/openapi-generator/src/route.ts
index 82a70df..77ef313 100644
--- a/packages/openapi-generator/src/route.ts
+++ b/packages/openapi-generator/src/route.ts
@@ -4,7 +4,7 @@ import * as E from 'fp-ts/Either';
 import { parseCodecInitializer } from './codec';
 import type { CombinedType, Schema } from './ir';
 import type { Project } from './project';
-import { findSymbolInitializer } from './resolveInit';
+import { findReferencedInitializer } from './resolveInit';
 import { errorLeft } from './error';
 
 export type Parameter = {
@@ -38,7 +38,7 @@ function derefRequestSchema(
     if (sourceFile === undefined) {
       return errorLeft(`Could not find '${schema.name}' from '${schema.location}'`);
     }
-    const initE = findSymbolInitializer(project, sourceFile, schema.name);
+    const initE = findReferencedInitializer(project, sourceFile, schema.name);
     if (E.isLeft(initE)) {
       return initE;
     }
-- 
2.43.0


From a0c12b70e2543c76fce83c24874768dadd10e224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 35/39] fix: read each source file once

A file imported by several files before it was processed was queued,
read and added to the type table once per import.
---
 packages/openapi-generator/src/project.ts | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/packages/openapi-generator/src/project.ts b/packages/openapi-generator/src/project.ts
index cbfe304..0e21ab9 100644
--- a/packages/openapi-generator/src/project.ts
+++ b/packages/openapi-generator/src/project.ts
@@ -59,6 +59,13 @@ export class Project {
 
   async parseEntryPoint(entryPoint: string): Promise<E.Either<string, Project>> {
     const queue: string[] = [entryPoint];
+    const queued = new Set(queue);
+    const enqueue = (file: string): void => {
+      if (!this.has(file) && !queued.has(file)) {
+        queued.add(file);
+        queue.push(file);
+      }
+    };
     let path: string | undefined;
 
     while (((path = queue.pop()), path !== undefined)) {
@@ -99,13 +106,13 @@ export class Project {
             }
 
             const entryPoint = this.resolveEntryPoint(baseDir, sym.from);
-            if (E.isRight(entryPoint) && !this.has(entryPoint.right)) {
-              queue.push(entryPoint.right);
+            if (E.isRight(entryPoint)) {
+              enqueue(entryPoint.right);
             }
           } else {
             const absImportPathE = this.resolve(baseDir, sym.from);
-            if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
-              queue.push(absImportPathE.right);
+            if (E.isRight(absImportPathE)) {
+              enqueue(absImportPathE.right);
             }
           }
         }
@@ -113,8 +120,8 @@ export class Project {
         // Process star exports
         for (const starExport of sourceFile.symbols.exportStarFiles) {
           const absImportPathE = this.resolve(baseDir, starExport);
-          if (E.isRight(absImportPathE) && !this.has(absImportPathE.right)) {
-            queue.push(absImportPathE.right);
+          if (E.isRight(absImportPathE)) {
+            enqueue(absImportPathE.right);
           }
         }
       } catch (err) {
-- 
2.43.0


From 0d8b9a48bd911628be8f88f91d721bea3573c83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:06 +0000
Subject: [PATCH 36/39] fix: keep codecs of the same name from several packages
 apart

References into packages were located by name alone, so codecs of the
same name from two packages, or from a package and a local file, were
described by whichever came first, and components renamed because of the
collision were referred to by the old name.
---
 packages/openapi-generator/src/cli.ts   | 23 +++++++----
 packages/openapi-generator/src/codec.ts | 51 ++++++++++++++++++++++++-
 2 files changed, 64 insertions(+), 10 deletions(-)

diff --git a/packages/openapi-generator/src/cli.ts b/packages/openapi-generator/src/cli.ts
index 1718a52..0ba933f 100644
--- a/packages/openapi-generator/src/cli.ts
+++ b/packages/openapi-generator/src/cli.ts
@@ -11,7 +11,7 @@ import { parseApiSpec, parseApiSpecComment } from './apiSpec';
 import { getRefs } from './ref';
 import { convertRoutesToOpenAPI } from './openapi';
 import type { Route } from './route';
-import type { Schema } from './ir';
+import type { Reference, Schema } from './ir';
 import { getPackageJsonPath } from './packageInfo';
 import { Project } from './project';
 import { KNOWN_IMPORTS } from './knownImports';
@@ -173,11 +173,20 @@ const app = command({
       return `${name}${counter}`;
     };
 
+    const setComponentName = (ref: Reference, componentName: string): void => {
+      const names = componentNameMapping[ref.location] ?? {};
+      names[ref.name] = componentName;
+      componentNameMapping[ref.location] = names;
+    };
+
     let schema: Schema | undefined;
     while (((schema = queue.pop()), schema !== undefined)) {
-      const refs = getRefs(schema, project.getTypes());
-      for (const ref of refs) {
-        if (componentNameMapping[ref.location]?.[ref.name] !== undefined) {
+      for (const schemaRef of getRefs(schema, {})) {
+        // References to packages are resolved to the file of the type
+        const [ref = schemaRef] = getRefs(schemaRef, project.getTypes());
+        const existingName = componentNameMapping[ref.location]?.[ref.name];
+        if (existingName !== undefined) {
+          setComponentName(schemaRef, existingName);
           continue;
         }
 
@@ -187,10 +196,8 @@ const app = command({
             : ref.name;
 
         // Track the mapping: location -> originalName -> finalComponentName
-        if (componentNameMapping[ref.location] === undefined) {
-          componentNameMapping[ref.location] = {};
-        }
-        componentNameMapping[ref.location]![ref.name] = componentName;
+        setComponentName(ref, componentName);
+        setComponentName(schemaRef, componentName);
 
         const sourceFile = project.get(ref.location);
         if (sourceFile === undefined) {
diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 0703bf0..807e5b4 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -18,6 +18,43 @@ import { errorLeft } from './error';
 
 type ResolvedIdentifier = Schema | { type: 'codec'; schema: KnownCodec };
 
+/**
+ * A reference to an export of a package. The location is the package as long as the name
+ * alone leads to the right type, and the file of the type otherwise.
+ */
+function packageReference(
+  project: Project,
+  source: SourceFile,
+  name: string | [string, string],
+  exportedName: string,
+  location: string,
+): Reference {
+  const initE = findSymbolInitializer(project, source, name);
+  const typePath = project.getTypes()[exportedName];
+  if (E.isLeft(initE) || typePath === undefined) {
+    return { type: 'ref', name: exportedName, location };
+  }
+  const [newSourceFile, newInit] = initE.right;
+  const typeSource = project.get(typePath);
+  const typeInitE =
+    typeSource !== undefined
+      ? findReferencedInitializer(project, typeSource, exportedName)
+      : undefined;
+  if (
+    typeInitE !== undefined &&
+    E.isRight(typeInitE) &&
+    typeInitE.right[0] === newSourceFile &&
+    typeInitE.right[1] === newInit
+  ) {
+    return { type: 'ref', name: exportedName, location };
+  }
+  return {
+    type: 'ref',
+    name: referenceName(project, newSourceFile, newInit, exportedName),
+    location: newSourceFile.path,
+  };
+}
+
 function codecIdentifier(
   project: Project,
   source: SourceFile,
@@ -41,7 +78,9 @@ function codecIdentifier(
     }
 
     if (!imp.from.startsWith('.')) {
-      return E.right({ type: 'ref', name: imp.importedName, location: imp.from });
+      return E.right(
+        packageReference(project, source, imp.localName, imp.importedName, imp.from),
+      );
     }
 
     const initE = findSymbolInitializer(project, source, imp.localName);
@@ -108,7 +147,15 @@ function codecIdentifier(
       }
 
       if (!starImportSym.from.startsWith('.')) {
-        return E.right({ type: 'ref', name, location: starImportSym.from });
+        return E.right(
+          packageReference(
+            project,
+            source,
+            [starImportSym.localName, name],
+            name,
+            starImportSym.from,
+          ),
+        );
       }
 
       const newInitE = findSymbolInitializer(project, source, [
-- 
2.43.0


From 695e88eec60fb2cdd275c2e00346f24591dd53c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:29 +0000
Subject: [PATCH 37/39] fix: refer to types that contain themselves

A codec with itself among the arguments of one of its combinators was
inlined until the stack overflowed.
---
 packages/openapi-generator/src/codec.ts | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/codec.ts b/packages/openapi-generator/src/codec.ts
index 807e5b4..11102d5 100644
--- a/packages/openapi-generator/src/codec.ts
+++ b/packages/openapi-generator/src/codec.ts
@@ -530,6 +530,9 @@ export function parsePlainInitializer(
   }
 }
 
+/** The references that are being replaced by what they refer to */
+const derefsInProgress = new WeakMap<Project, Set<string>>();
+
 function parseFunctionBody(
   project: Project,
   source: SourceFile,
@@ -611,7 +614,16 @@ export function parseCodecInitializer(
     function deref(schema: Schema): E.Either<string, Schema> {
       if (schema.type !== 'ref') {
         return E.right(schema);
-      } else {
+      }
+      // A type that contains itself is referred to instead of being inlined forever
+      const inProgress = derefsInProgress.get(project) ?? new Set<string>();
+      derefsInProgress.set(project, inProgress);
+      const key = JSON.stringify([schema.location, schema.name]);
+      if (inProgress.has(key)) {
+        return E.right(schema);
+      }
+      inProgress.add(key);
+      try {
         let refSource = project.get(schema.location);
 
         if (refSource === undefined) {
@@ -639,6 +651,8 @@ export function parseCodecInitializer(
         if (comment !== undefined) plainInitE.right.comment = comment;
 
         return plainInitE;
+      } finally {
+        inProgress.delete(key);
       }
     }
     const args = init.arguments.map<E.Either<string, Schema>>(({ expression }) => {
-- 
2.43.0


From 5b597a8c7a413f72f715effdbe4005fba0dedc3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:52 +0000
Subject: [PATCH 38/39] fix: leave enum members open whose value follows a
 computed one

---
 packages/openapi-generator/src/symbol.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/openapi-generator/src/symbol.ts b/packages/openapi-generator/src/symbol.ts
index b6d7bfe..3232a7f 100644
--- a/packages/openapi-generator/src/symbol.ts
+++ b/packages/openapi-generator/src/symbol.ts
@@ -178,7 +178,8 @@ function parseDeclaration(
           member.init ??
           (value !== undefined
             ? { type: 'NumericLiteral', value, span: member.id.span }
-            : { type: 'StringLiteral', value: member.id.value, span: member.id.span }),
+            : // The value of the previous member is computed, so this one is not known
+              { type: 'Invalid', span: member.id.span }),
       };
     });
     const syntheticObject: swc.ObjectExpression = {
-- 
2.43.0


From 5da74fd56e4ecd40e474d7959a5f29434f0a8662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:17 +0000
Subject: [PATCH 39/39] fix: a router accepts handlers typed for another method
 of the operation

Comparing two TypedRequestHandler aliases compares their type arguments, and the
measured variance of Method lets any method pass for any other. Routes now accept
handlers by the request and response types alone.
---
 packages/typed-express-router/src/types.ts | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/packages/typed-express-router/src/types.ts b/packages/typed-express-router/src/types.ts
index 147a60a..6e0bf45 100644
--- a/packages/typed-express-router/src/types.ts
+++ b/packages/typed-express-router/src/types.ts
@@ -58,6 +58,14 @@ export type WrappedRouteOptions = UncheckedWrappedRouteOptions;
 
 export type WrappedRouterOptions = express.RouterOptions & WrappedRouteOptions;
 
+// What a route accepts as a handler. This is deliberately not `TypedRequestHandler`: comparing two of
+// those compares their type arguments, which lets a handler for one method of an operation pass for another.
+type RequestHandler<Decoded, Responses extends {}> = (
+  req: WrappedRequest<Decoded>,
+  res: WrappedResponse<Responses>,
+  next: express.NextFunction,
+) => void;
+
 export type TypedRequestHandler<
   Spec extends ApiSpec = ApiSpec,
   ApiName extends keyof Spec = keyof Spec,
@@ -97,7 +105,10 @@ export type AddRouteHandler<Spec extends ApiSpec, Method extends Methods> = <
   ApiName extends ApiNamesWithMethod<Spec, Method>,
 >(
   apiName: ApiName,
-  handlers: TypedRequestHandler<Spec, ApiName, Method>[],
+  handlers: RequestHandler<
+    t.TypeOf<NonNullable<Spec[ApiName][Method]>['request']>,
+    t.TypeOfProps<NonNullable<Spec[ApiName][Method]>['response']>
+  >[],
   options?: WrappedRouteOptions,
 ) => void;
 
@@ -114,7 +125,10 @@ export type AddUncheckedRouteHandler<Spec extends ApiSpec, Method extends Method
   ApiName extends ApiNamesWithMethod<Spec, Method>,
 >(
   apiName: ApiName,
-  handlers: UncheckedRequestHandler<Spec, ApiName, Method>[],
+  handlers: RequestHandler<
+    t.Validation<t.TypeOf<NonNullable<Spec[ApiName][Method]>['request']>>,
+    t.TypeOfProps<NonNullable<Spec[ApiName][Method]>['response']>
+  >[],
   options?: UncheckedWrappedRouteOptions,
 ) => void;
 
-- 
2.43.0

