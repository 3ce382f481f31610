From a6ccb067aac670b1507c95d6f840007ee8064968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 01/58] fix: emit stack outputs fully when the same value is
 exported more than once

---
 sdk/python/lib/pulumi/runtime/stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..b88655d 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -185,7 +185,9 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Only the values that enclose this one count as "seen": a value that merely occurs a second time elsewhere (e.g. the
+    # same list exported under two names) isn't part of a cycle and must be emitted fully again.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From f6f44ce2cf8a047aebc2f388658a948fa2a964df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 02/58] fix: wait for tasks that were scheduled while awaiting
 outstanding tasks

---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b88655d..59c129c 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -111,9 +111,11 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+        # Check to see if any more RPCs or tasks have been scheduled, and repeat the cycle if so.
+        # Break if none remain.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and _get_running_tasks()
+        ):
             break
 
 
-- 
2.43.0


From a8b19218eba66b8a2c63dac144f198aadd308553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 03/58] fix: allow Output.from_input on input types without any
 property set

---
 sdk/python/lib/pulumi/output.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..d954824 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -289,8 +289,9 @@ class Output(Generic[T_co]):
         if _types.is_input_type(typ):
             # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
             # via `type(**d)` from the (unwrapped) properties.
+            # `Output.all` of no arguments is an Output of an empty list.
             o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-                lambda d: typ(**d)
+                lambda d: typ(**d) if d else typ()
             )
             return cast(Output[T_co], o_typ)
 
-- 
2.43.0


From fa840de8417754e3b72bc0081fd03e986a1c7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:06 +0000
Subject: [PATCH 04/58] fix: don't add to an Output's dependencies when
 serializing it

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..bcb1166 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -365,7 +365,8 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        # Copy the set, as it is extended below and must not be changed for the other users of the output.
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 5e311d718fc4ba8d36523831194f6b27673b6152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 05/58] fix: propagate failures to process a read or fetched
 resource's state into its outputs

---
 sdk/python/lib/pulumi/runtime/resource.py | 74 +++++++++++++++--------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..514110c 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -272,26 +272,41 @@ def get_resource(
                 resolve_id(None, True, False, exn)
             raise
 
-        # Otherwise, grab the URN, ID, and output properties and resolve all of them.
+        # Otherwise, grab the URN, ID, and output properties and resolve all of them. As in `register_resource`, an
+        # exception thrown while doing so must be propagated into whatever has not been resolved yet, or else anything
+        # that depends on it would hang.
         resp = getattr(resp, "return")
 
-        log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
-        resolve_urn(resp["urn"], True, False, None)
-        if resolve_id:
-            # The ID is known if (and only if) it is a non-empty string. If it's either None or an
-            # empty string, we should treat it as unknown. TFBridge in particular is known to send
-            # the empty string as an ID when doing a preview.
-            is_known = bool(resp["id"])
-            resolve_id(resp["id"], is_known, False, None)
-
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        resolve_urn_called = False
+        resolve_id_called = False
+        try:
+            log.debug(f"getResource completed successfully: ty={ty}, urn={resp['urn']}")
+            resolve_urn(resp["urn"], True, False, None)
+            resolve_urn_called = True
+            if resolve_id:
+                # The ID is known if (and only if) it is a non-empty string. If it's either None or an
+                # empty string, we should treat it as unknown. TFBridge in particular is known to send
+                # the empty string as an ID when doing a preview.
+                is_known = bool(resp["id"])
+                resolve_id(resp["id"], is_known, False, None)
+                resolve_id_called = True
+
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            if not resolve_urn_called:
+                resolve_urn(None, True, False, exn)
+            if resolve_id is not None and not resolve_id_called:
+                resolve_id(None, True, False, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -454,14 +469,21 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            # As in `register_resource`, propagate the exception into the outputs, as anything that depends on them
+            # would hang otherwise.
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From d0a223394ceb056ebfd34682e07635b9722bfa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 06/58] fix: merge into the result of an earlier merge rather
 than into its first operand

---
 sdk/python/lib/pulumi/invoke.py   | 3 +++
 sdk/python/lib/pulumi/resource.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..4e8de90 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -117,6 +117,9 @@ class InvokeOptions:
         dest = copy.copy(opts1)
         source = opts2
 
+        # `merge` is bound per instance, so the copy still has the one that is bound to `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
+
         dest.parent = dest.parent if source.parent is None else source.parent
         dest.provider = dest.provider if source.provider is None else source.provider
         dest.plugin_download_url = (
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..fce465a 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -645,6 +645,9 @@ class ResourceOptions:
         dest = copy.copy(opts1)
         source = copy.copy(opts2)
 
+        # `merge` is bound per instance, so the copy still has the one that is bound to `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
+
         # This makes merging simple.
         def expand_providers(providers) -> Optional[Sequence["ProviderResource"]]:
             if isinstance(providers, Mapping):
-- 
2.43.0


From 349b9d35525eb574ddfe9523efe06f4e25ba50e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 07/58] fix: keep the version when merging InvokeOptions that
 don't specify one

---
 sdk/python/lib/pulumi/invoke.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 4e8de90..bf6de48 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -127,6 +127,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        # The version defaults to the empty string, which stands for "not specified", too.
+        dest.version = source.version if source.version else dest.version
 
         return dest
-- 
2.43.0


From 0c547ba2ffb3f5541ee102b561d2e741e459afef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 08/58] fix: merge resource options whose collections are not
 lists

---
 sdk/python/lib/pulumi/resource.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index fce465a..1caec2b 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -729,12 +729,12 @@ def _collapse_providers(opts: "ResourceOptions"):
             opts.providers = None
         else:
             opts.providers = {}
-            if isinstance(providers, list):
+            if isinstance(providers, Mapping):
+                for key, prov in providers.items():
+                    opts.providers[key] = prov
+            else:
                 for prov in providers:
                     opts.providers[prov.package] = prov
-            elif isinstance(providers, dict):
-                for key, prov in providers:
-                    opts.providers[key] = prov
 
 
 def _merge_lists(dest, source):
@@ -744,7 +744,8 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    # Any kind of sequence may have been passed for either of them.
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From e99b1ee973f739307e4b6b2b0f309f0a07737e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 09/58] fix: accept Inputs for the stack and project of an
 Alias

---
 sdk/python/lib/pulumi/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 1caec2b..945b2c9 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1265,7 +1265,7 @@ def create_urn(
         if project is None:
             project = get_project()
 
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = Output.concat("urn:pulumi:", stack, "::", project, "::")
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From 8a6d8192c46581b3b9a9ffe7ab29abea057582e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 10/58] fix: send all of the providers to a remote component
 that also has a provider

---
 sdk/python/lib/pulumi/runtime/resource.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 514110c..d3f0ee5 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -770,18 +770,15 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    else:
+        for p in providers or []:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From fa5bced028ca496299b67319a5bca2d31dad4eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 11/58] fix: don't store the inherited provider in the caller's
 InvokeOptions

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..76c8106 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # Note that `opts` must not be changed, as they may be used for other invokes as well.
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 458b26c3a6c63f162956e95565a07ac860cd9a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 12/58] fix: restore the pickler's methods after serializing a
 dynamic provider

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..9a5bd4b 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -221,6 +221,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
+    unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
         unsorted_batch_setitems(self, sorted(items))
@@ -243,7 +244,10 @@ def serialize_provider(provider: ResourceProvider) -> str:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
         return base64.b64encode(byts).decode("utf-8")
     finally:
-        # Restore the original pickler
+        # Restore the original pickler, including the methods that were replaced above: these would be wrapped once more
+        # with every provider that is serialized, and affect any other use of pickle, otherwise.
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From 80cf065d96a1f0990c619552436108eecd55ae7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 13/58] fix: allow dicts with keys that can't be sorted in a
 dynamic provider

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 9a5bd4b..22191da 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -224,7 +224,13 @@ def serialize_provider(provider: ResourceProvider) -> str:
     unsorted_save_dict = pickle.Pickler.save_dict
 
     def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
+        items = list(items)
+        try:
+            items.sort()
+        except TypeError:
+            # There is no order among the keys (e.g. they're of different types), so keep the order of insertion.
+            pass
+        unsorted_batch_setitems(self, items)
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
-- 
2.43.0


From 8f18283d920b8044d2f3835ab99f024ee9114076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 14/58] fix: don't change the props passed to a dynamic
 resource

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 22191da..4a8377a 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -287,7 +287,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # Copy the props so that the caller's are left alone, and may be used for another resource.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From fd8cd2c2e2207f8a33c3fbcd5f115b1280ef7697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 15/58] fix: allow the optional results of a dynamic provider's
 check and read to be missing

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..3a99e34 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -137,7 +137,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
+        inputs = result.inputs if result.inputs is not None else {}
         failures = result.failures
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
@@ -173,7 +173,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From fd7405ebb8a84a3043a6472580e32b9009fd5d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 16/58] fix: use the old dynamic provider for check and diff
 when the new one is unknown

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 3a99e34..f7f9165 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -61,7 +61,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if rpc.contains_unknowns(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -131,7 +131,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if rpc.contains_unknowns(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From 863825060534be26aaac69405c9d30523d3083df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 17/58] fix: report the stable properties of a dynamic
 provider's diff

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index f7f9165..c643eba 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 604a95bf364ba61e9f7b6193326ac7df3042f060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:15 +0000
Subject: [PATCH 18/58] fix: allow mocks to return None for the failures of a
 call

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..97ec2ce 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From 71805c87715ca7693504a85a4deb0899a66acfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 19/58] fix: keep the exact order of insertion for dicts with
 keys that can't be sorted

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 4a8377a..9751db5 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -226,7 +226,7 @@ def serialize_provider(provider: ResourceProvider) -> str:
     def batch_set_items_sorted(self, items):
         items = list(items)
         try:
-            items.sort()
+            items = sorted(items)
         except TypeError:
             # There is no order among the keys (e.g. they're of different types), so keep the order of insertion.
             pass
-- 
2.43.0


From 8cde9ba10df7f71f982879da02f8a78c37690b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:42 +0000
Subject: [PATCH 20/58] fix: use the project and stack given to set_mocks in
 the URNs of mocked resources

---
 sdk/python/lib/pulumi/runtime/mocks.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 97ec2ce..afaa6fe 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -155,6 +155,11 @@ class MockMonitor:
     mocks: Mocks
     resources: Dict[str, ResourceRegistration]
 
+    # The project and stack given to `set_mocks`. The monitor is called from other threads, in which the settings (that
+    # are local to a context) don't have the values that were set for the test.
+    project: Optional[str] = None
+    stack: Optional[str] = None
+
     def __init__(self, mocks: Mocks):
         self.mocks = mocks
         self.resources = {}
@@ -165,7 +170,9 @@ class MockMonitor:
             parentType = qualifiedType.split("$").pop()
             type_ = parentType + "$" + type_
 
-        return "urn:pulumi:" + "::".join([get_stack(), get_project(), type_, name])
+        stack = self.stack if self.stack is not None else get_stack()
+        project = self.project if self.project is not None else get_project()
+        return "urn:pulumi:" + "::".join([stack, project, type_, name])
 
     def Invoke(self, request):
         # Ensure we have an event loop on this thread because it's needed when deserializing resource references.
@@ -300,8 +307,13 @@ def set_mocks(
     """
     set_mocks configures the Pulumi runtime to use the given mocks for testing.
     """
+    if not monitor:
+        monitor = MockMonitor(mocks)
+    if isinstance(monitor, MockMonitor):
+        monitor.project, monitor.stack = project, stack
+
     settings = MockSettings(
-        monitor=MockMonitor(mocks) if not monitor else monitor,
+        monitor=monitor,
         engine=MockEngine(logger),
         project=project if project is not None else "project",
         stack=stack if stack is not None else "stack",
-- 
2.43.0


From 664d1938daee45748be1c1de0fd8da35156ddfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 21/58] fix: pass the parent of a component to its construction
 by a provider

The condition was inverted: the parent was dropped if there was one, and was an empty URN if there was none. A resource
that is only known by its URN couldn't be a parent either.
---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 sdk/python/lib/pulumi/resource.py        | 5 +++++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..261a6bf 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent):
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 945b2c9..ea17eee 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -825,8 +825,13 @@ class Resource:
         """
 
         if dependency:
+            # Another resource may have this one as its parent.
+            self._name = name
             self._protect = False
             self._providers = {}
+            self._transformations = []
+            self._childResources = set()
+            self._aliases = []
             return
 
         if props is None:
-- 
2.43.0


From e54263891d92076a173d4fecb6cbd689cefc9aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 22/58] fix: don't fail a provider's later requests because of
 the failure of an earlier one

---
 sdk/python/lib/pulumi/provider/server.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 261a6bf..808167e 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -72,7 +73,10 @@ class ProviderServicer(ResourceProviderServicer):
         try:
             return await self._construct(request, context)
         finally:
-            self.lock.release()
+            try:
+                await _forget_rpcs()
+            finally:
+                self.lock.release()
 
     async def _construct(
         self, request: proto.ConstructRequest, context
@@ -203,7 +207,10 @@ class ProviderServicer(ResourceProviderServicer):
         try:
             return await self._call(request, context)
         finally:
-            self.lock.release()
+            try:
+                await _forget_rpcs()
+            finally:
+                self.lock.release()
 
     async def _call(self, request: proto.CallRequest, context):
         # pylint: disable=unused-argument
@@ -369,6 +376,16 @@ def _zero_as_none(value: int) -> Optional[int]:
     return None if value == 0 else value
 
 
+async def _forget_rpcs() -> None:
+    """
+    Forgets the RPCs of a request once they are done, such that none of their failures is reported for a later request.
+    """
+    while RPC_MANAGER.rpcs:
+        await asyncio.wait([RPC_MANAGER.rpcs.pop()])
+        await asyncio.sleep(0)
+    RPC_MANAGER.clear()
+
+
 async def _is_resource_reference(the_input: Any, deps: Set[str]) -> bool:
     """
     Returns True if `the_input` is a Resource and only depends on itself.
-- 
2.43.0


From a6858f87c3f8e095debb0d1ea0127a19871f42d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 23/58] fix: keep the secretness of secrets nested in an output
 value

---
 sdk/python/lib/pulumi/runtime/rpc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index bcb1166..09ab887 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -610,12 +610,13 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     value = None
     if is_known:
         value = deserialize_property(ref_struct["value"])
+    # If the value contains any secrets, it's wrapped as a secret: unwrap it and mark the Output as a secret instead.
     value_future: "asyncio.Future" = asyncio.Future()
-    value_future.set_result(value)
+    value_future.set_result(unwrap_rpc_secret(value))
 
-    is_secret = False
+    is_secret = is_rpc_secret(value)
     if "secret" in ref_struct:
-        is_secret = deserialize_property(ref_struct["secret"]) is True
+        is_secret = is_secret or deserialize_property(ref_struct["secret"]) is True
     is_secret_future: "asyncio.Future" = asyncio.Future()
     is_secret_future.set_result(is_secret)
 
-- 
2.43.0


From 9a16cc7ae82f0f1c675de62dcd94173f3cd84473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 24/58] fix: read the stream, resource and detailed diff of
 engine events under their actual names

---
 sdk/python/lib/pulumi/automation/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..cec2a4f 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From 5ac75e12f390476344f19eec1115dfac776f2f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 25/58] fix: pass the log verbosity of a stack operation as a
 string

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..e2c5c6a 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -771,7 +771,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 25a78e65490d7ce0fb3fb4aeb439874e0095cd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 26/58] fix: keep the config values of a stack's settings that
 are not strings

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..fffe3b1 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,10 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                if isinstance(val, dict) and val.keys() == {"secure"}:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From 4c0fa650f35183ca0cff388d1b7b9e93760ed91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 27/58] fix: remove the temporary file with a stack's state if
 its import fails

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..399d275 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -348,10 +348,12 @@ class LocalWorkspace(Workspace):
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
             json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+        try:
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From d8ce4cc53f8456ad62c6ebec847de6bc2a09ec05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 28/58] fix: don't change the LocalWorkspaceOptions that a
 stack is created with

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 399d275..2e3f9d2 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -12,6 +12,7 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
+import copy
 import os
 import tempfile
 import json
@@ -562,7 +563,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # Copy the options, as they belong to the caller, who may use them for other stacks too.
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -589,7 +591,7 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 4918f0a638cd50d31949f9a9cd26f75688412c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 29/58] fix: read the history of stacks with hidden secrets or
 an update in progress

---
 sdk/python/lib/pulumi/automation/_stack.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e2c5c6a..27a5114 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -24,7 +24,7 @@ from typing import List, Any, Mapping, MutableMapping, Optional, Callable, Tuple
 import grpc
 
 from ._cmd import CommandResult, _run_pulumi_cmd, OnOutput
-from ._config import ConfigValue, ConfigMap
+from ._config import ConfigValue, ConfigMap, _SECRET_SENTINEL
 from .errors import StackAlreadyExistsError
 from .events import OpMap, EngineEvent, SummaryEvent
 from ._output import OutputMap
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime] = None,
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -79,7 +79,9 @@ class UpdateSummary:
         for key in config:
             config_value = config[key]
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                # The values of secrets are only there if they were asked for.
+                value=config_value.get("value", _SECRET_SENTINEL),
+                secret=config_value["secret"],
             )
 
     def __repr__(self):
@@ -659,7 +661,9 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From 39017e11b2dcff1201461e291b4c892508016edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:12 +0000
Subject: [PATCH 30/58] fix: list plugins that were never used, and set when
 the others were

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 sdk/python/lib/pulumi/automation/_workspace.py       | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 2e3f9d2..5283cc5 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -328,7 +328,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..551d6bd 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime] = None,
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
@@ -81,6 +81,7 @@ class PluginInfo:
         self.kind = kind
         self.size = size
         self.install_time = install_time
+        self.last_used_time = last_used_time
         self.last_used = last_used_time
         self.version = version
 
-- 
2.43.0


From 9b55d5f78d39f13999af1d32026791b503119303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:29 +0000
Subject: [PATCH 31/58] fix: save and load the nested settings of a project as
 plain values

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +---
 .../pulumi/automation/_project_settings.py    | 41 +++++++++++++++++++
 2 files changed, 43 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 5283cc5..246bed3 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -147,11 +147,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -651,7 +647,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..e5fe07d 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -121,3 +121,44 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict) -> "ProjectSettings":
+        settings = dict(data)
+        if isinstance(settings["runtime"], dict):
+            settings["runtime"] = ProjectRuntimeInfo(**settings["runtime"])
+        if settings.get("template") is not None:
+            template = dict(settings["template"])
+            template["config"] = {
+                key: ProjectTemplateConfigValue(**val)
+                for key, val in (template.get("config") or {}).items()
+            }
+            settings["template"] = ProjectTemplate(**template)
+        if settings.get("backend") is not None:
+            settings["backend"] = ProjectBackend(**settings["backend"])
+        return cls(**settings)
+
+    def _serialize(self) -> dict:
+        return _to_plain(self)
+
+
+def _to_plain(value: Any) -> Any:
+    """Converts settings to plain values, leaving out the ones that aren't set to avoid writing nulls."""
+    if isinstance(
+        value,
+        (
+            ProjectSettings,
+            ProjectRuntimeInfo,
+            ProjectTemplate,
+            ProjectTemplateConfigValue,
+            ProjectBackend,
+        ),
+    ):
+        return {
+            key: _to_plain(val)
+            for key, val in value.__dict__.items()
+            if val is not None
+        }
+    if isinstance(value, Mapping):
+        return {key: _to_plain(val) for key, val in value.items()}
+    return value
-- 
2.43.0


From c18eb0d60aa3b14e98772cc52a0c02388613d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:49 +0000
Subject: [PATCH 32/58] fix: watch the event log until the end of a command,
 and parse its complete lines only

---
 sdk/python/lib/pulumi/automation/_stack.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 27a5114..86fc74c 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -817,15 +817,22 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
 
 
 def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
+    with open(filename, "rb") as f:
+        partial_line = b""
         while True:
-            line = f.readline()
+            # Only a part of the line may have been written so far.
+            line = partial_line + f.readline()
 
             # sleep if file hasn't been updated
-            if not line:
+            if not line.endswith(b"\n"):
+                # The file is removed after the command: without a cancel event, nothing else will be written to it.
+                if not os.path.exists(filename):
+                    break
+                partial_line = line
                 time.sleep(0.1)
                 continue
 
+            partial_line = b""
             event = EngineEvent.from_json(json.loads(line))
             callback(event)
 
-- 
2.43.0


From 017bcc25b33724271f3215bb480a774c1aa7c3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:39 +0000
Subject: [PATCH 33/58] fix: keep Output.from_input of an input type with
 unknown properties unknown when it's part of another value

---
 sdk/python/lib/pulumi/output.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index d954824..73a3b60 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -289,9 +289,15 @@ class Output(Generic[T_co]):
         if _types.is_input_type(typ):
             # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
             # via `type(**d)` from the (unwrapped) properties.
-            # `Output.all` of no arguments is an Output of an empty list.
+            # `Output.all` of no arguments is an Output of an empty list. If any of the properties contains unknowns, so
+            # does the value as a whole, which is represented by an explicit unknown like for other values.
+            def construct(d: Any) -> Any:
+                if contains_unknowns(d):
+                    return UNKNOWN
+                return typ(**d) if d else typ()
+
             o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-                lambda d: typ(**d) if d else typ()
+                construct, True
             )
             return cast(Output[T_co], o_typ)
 
-- 
2.43.0


From 3d92179fdffe1784b5535628ae30c713e50a984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:24 +0000
Subject: [PATCH 34/58] fix: allow a coroutine as depends_on

---
 sdk/python/lib/pulumi/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index ea17eee..bda1f35 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -597,6 +597,10 @@ class ResourceOptions:
         if self.depends_on is None:
             return []
 
+        # A coroutine can be awaited only once, whereas this list is needed several times.
+        if asyncio.iscoroutine(self.depends_on):
+            self.depends_on = asyncio.ensure_future(self.depends_on)
+
         return _map_input(
             self.depends_on,
             lambda x: list(x) if isinstance(x, Sequence) else [cast(Any, x)],
-- 
2.43.0


From 649a491cf7c1187a83cccb1c050dcd633732f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:12 +0000
Subject: [PATCH 35/58] fix: allow chains of dependent resources longer than
 the recursion limit

---
 .../lib/pulumi/runtime/resource_cycle_breaker.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py b/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
index 5bb49d6..6b2c6b6 100644
--- a/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
+++ b/sdk/python/lib/pulumi/runtime/resource_cycle_breaker.py
@@ -59,12 +59,14 @@ def _reachable(from_resource: "Resource", to_resource: "Resource") -> bool:
 def _with_transitive_deps(
     r: "Resource", visited: Set["Resource"]
 ) -> Iterable["Resource"]:
-    if r in visited:
-        return
+    # Chains of dependencies can be longer than Python's recursion limit.
+    stack = [r]
+    while stack:
+        x = stack.pop()
+        if x in visited:
+            continue
 
-    visited.add(r)
-    yield r
+        visited.add(x)
+        yield x
 
-    for x in _deps(r):
-        for y in _with_transitive_deps(x, visited):
-            yield y
+        stack.extend(_deps(x))
-- 
2.43.0


From 9bc69431daa58f8733dd2fda376c4e1ebac91fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:18 +0000
Subject: [PATCH 36/58] fix: keep the RPCs of programs that run concurrently in
 one process apart

---
 sdk/python/lib/pulumi/automation/_server.py  |  2 +
 sdk/python/lib/pulumi/provider/server.py     |  2 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 66 ++++++++++++++------
 3 files changed, 51 insertions(+), 19 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..0f52b7d 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -46,6 +46,8 @@ class LanguageServer(LanguageRuntimeServicer):
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
 
+        RPC_MANAGER.clear()
+
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
         reset_options(
diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 808167e..4b2c94c 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -70,6 +70,7 @@ class ProviderServicer(ResourceProviderServicer):
         # Calls to `Construct` and `Call` are serialized because they currently modify globals. When we are able to
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
+        RPC_MANAGER.clear()
         try:
             return await self._construct(request, context)
         finally:
@@ -204,6 +205,7 @@ class ProviderServicer(ResourceProviderServicer):
         # Calls to `Construct` and `Call` are serialized because they currently modify globals. When we are able to
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
+        RPC_MANAGER.clear()
         try:
             return await self._call(request, context)
         finally:
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..9825118 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -14,35 +14,65 @@
 import asyncio
 import sys
 import traceback
+from contextvars import ContextVar
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
 
 
+class _RPCState:
+    """
+    The RPCs of one program.
+    """
+
+    rpcs: List[Awaitable]
+    unhandled_exception: Optional[Exception]
+    exception_traceback: Optional[Any]
+
+    def __init__(self):
+        self.rpcs = []
+        self.unhandled_exception = None
+        self.exception_traceback = None
+
+
 class RPCManager:
     """
     RPCManager is responsible for keeping track of RPCs that are dispatched
     throughout the course of a Pulumi program. It records exceptions that occur
     when performing RPC calls and keeps track of whether or not there are any
     outstanding RPCs.
-    """
 
-    rpcs: List[Awaitable]
-    """
-    The active RPCs.
+    Like the rest of a program's settings, what it tracks is local to the context
+    of the program, as several programs may be running in the same process.
     """
 
-    unhandled_exception: Optional[Exception]
-    """
-    The first unhandled exception encountered during an RPC, if any occurs.
-    """
+    def __init__(self):
+        self._initial_state = _RPCState()
+        self._context_state: ContextVar[_RPCState] = ContextVar("rpc_manager_state")
 
-    exception_traceback: Optional[Any]
-    """
-    The traceback associated with unhandled_exception, if any.
-    """
+    @property
+    def _state(self) -> _RPCState:
+        return self._context_state.get(self._initial_state)
 
-    def __init__(self):
-        self.clear()
+    @property
+    def rpcs(self) -> List[Awaitable]:
+        """
+        The active RPCs.
+        """
+        return self._state.rpcs
+
+    @property
+    def unhandled_exception(self) -> Optional[Exception]:
+        """
+        The first unhandled exception encountered during an RPC, if any occurs.
+        """
+        return self._state.unhandled_exception
+
+    @property
+    def exception_traceback(self) -> Optional[Any]:
+        """
+        The traceback associated with unhandled_exception, if any.
+        """
+        return self._state.exception_traceback
 
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
@@ -71,8 +101,8 @@ class RPCManager:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
                 if self.unhandled_exception is None:
-                    self.unhandled_exception = exn
-                    self.exception_traceback = sys.exc_info()[2]
+                    self._state.unhandled_exception = exn
+                    self._state.exception_traceback = sys.exc_info()[2]
                 result = None
                 exception = exn
 
@@ -82,9 +112,7 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
-        self.rpcs = []
-        self.exception_traceback = None
-        self.unhandled_exception = None
+        self._context_state.set(_RPCState())
 
 
 RPC_MANAGER: RPCManager = RPCManager()
-- 
2.43.0


From a9bc945affdf030c9b2c12657421a323d5de0aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:40 +0000
Subject: [PATCH 37/58] fix: fail the program if the callback of an apply fails
 while nothing awaits its result

---
 sdk/python/lib/pulumi/output.py              | 24 ++++++++++++++++----
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 12 +++++++---
 sdk/python/lib/pulumi/runtime/stack.py       | 10 ++++----
 3 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 73a3b60..9177f33 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -35,6 +35,7 @@ from typing import (
 from . import _types
 from . import runtime
 from .runtime import rpc
+from .runtime.rpc_manager import RPC_MANAGER
 
 if TYPE_CHECKING:
     from .resource import Resource
@@ -159,15 +160,25 @@ class Output(Generic[T_co]):
         result_is_known: asyncio.Future[bool] = asyncio.Future()
         result_is_secret: asyncio.Future[bool] = asyncio.Future()
 
+        @contextlib.contextmanager
+        def unhandled():
+            # Nothing else may ever observe a failure, but the program must not succeed despite it.
+            try:
+                yield
+            except Exception as exn:
+                RPC_MANAGER.record_exception(exn)
+                raise
+
         # The "run" coroutine actually runs the apply.
         async def run() -> U:
             resources: Set["Resource"] = set()
             try:
                 # Await this output's details.
                 resources = await self._resources
-                is_known = await self._is_known
-                is_secret = await self._is_secret
-                value = await self._future
+                with unhandled():
+                    is_known = await self._is_known
+                    is_secret = await self._is_secret
+                    value = await self._future
 
                 if runtime.is_dry_run():
                     # During previews only perform the apply if the engine was able to give us an actual value for this
@@ -192,7 +203,9 @@ class Output(Generic[T_co]):
                     ):
                         value = cast(T_co, UNKNOWN)
 
-                transformed: Input[U] = func(value)
+                with unhandled():
+                    transformed: Input[U] = func(value)
+
                 # Transformed is an Input, meaning there are three cases:
                 #  1. transformed is an Output[U]
                 if isinstance(transformed, Output):
@@ -212,7 +225,8 @@ class Output(Generic[T_co]):
                     result_resources.set_result(resources)
                     result_is_known.set_result(True)
                     result_is_secret.set_result(is_secret)
-                    return await cast(Awaitable[U], transformed)
+                    with unhandled():
+                        return await cast(Awaitable[U], transformed)
 
                 #  3. transformed is U. It is trivially known.
                 result_resources.set_result(resources)
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 9825118..40a73b7 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -100,9 +100,7 @@ class RPCManager:
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
-                if self.unhandled_exception is None:
-                    self._state.unhandled_exception = exn
-                    self._state.exception_traceback = sys.exc_info()[2]
+                self.record_exception(exn)
                 result = None
                 exception = exn
 
@@ -110,6 +108,14 @@ class RPCManager:
 
         return rpc_wrapper
 
+    def record_exception(self, exn: Exception) -> None:
+        """
+        Records the exception being handled, such that the program fails once its outstanding RPCs have completed.
+        """
+        if self.unhandled_exception is None:
+            self._state.unhandled_exception = exn
+            self._state.exception_traceback = sys.exc_info()[2]
+
     def clear(self) -> None:
         """Clears any tracked state."""
         self._context_state.set(_RPCState())
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 59c129c..aa83963 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -111,10 +111,12 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs or tasks have been scheduled, and repeat the cycle if so.
-        # Break if none remain.
-        if len(RPC_MANAGER.rpcs) == 0 and not (
-            await_all_outstanding_tasks and _get_running_tasks()
+        # Check to see if any more RPCs or tasks have been scheduled, or if anything failed in the meantime, and repeat
+        # the cycle if so. Break otherwise.
+        if (
+            len(RPC_MANAGER.rpcs) == 0
+            and RPC_MANAGER.unhandled_exception is None
+            and not (await_all_outstanding_tasks and _get_running_tasks())
         ):
             break
 
-- 
2.43.0


From 1040166fa160d3a178ae3d1b32b5422f305449bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:26 +0000
Subject: [PATCH 38/58] fix: allow a component to get further children while
 something waits for its present ones

---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index d3f0ee5..00afbce 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -819,7 +819,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Further children may be created while waiting for these ones.
+        for child in list(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From 21ad603f144694ecaa8d960e155e312345c5c76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:15 +0000
Subject: [PATCH 39/58] fix: do not let a remote component wait for itself
 through the inputs derived from its parent

---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 30 +++++++++++++++++++----
 2 files changed, 26 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 00afbce..6656a1e 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 09ab887..5bf6636 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,8 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param from_resource: The resource whose inputs these are, if any. See `_expand_dependencies`.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +208,7 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v, deps, input_transformer, get_type(k), keep_output_values, from_resource
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +235,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -261,7 +265,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +369,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -395,7 +409,7 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(value_resources, from_resource)
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -424,7 +438,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -480,6 +499,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From 24e0d2b057d23f2f430f2b042bb4f8691c58613b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:28 +0000
Subject: [PATCH 40/58] fix: return an empty result of a function as such
 rather than as None

---
 sdk/python/lib/pulumi/runtime/invoke.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index 76c8106..985f6c4 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -119,7 +119,8 @@ def invoke(
 
         # Otherwise, return the output properties.
         ret_obj = getattr(resp, "return")
-        if ret_obj:
+        # Note that an empty object is falsy.
+        if resp.HasField("return"):
             deserialized = rpc.deserialize_properties(ret_obj)
             # If typ is not None, call translate_output_properties to instantiate any output types.
             return (
@@ -237,7 +238,8 @@ def call(
             is_secret = False
             deps: Set["Resource"] = set()
             ret_obj = getattr(resp, "return")
-            if ret_obj:
+            # Note that an empty object is falsy.
+            if resp.HasField("return"):
                 deserialized = rpc.deserialize_properties(ret_obj)
                 is_known = not rpc.contains_unknowns(deserialized)
 
-- 
2.43.0


From 13b6e06e77a95dad65f740afc712fa38ec0b8267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:51 +0000
Subject: [PATCH 41/58] fix: keep the properties of an input type that is a
 dict in Output.from_input

---
 sdk/python/lib/pulumi/output.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 9177f33..a8e6ef6 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -301,8 +301,8 @@ class Output(Generic[T_co]):
         # Is it an input type (i.e. args class)? Recurse into the values within.
         typ = type(val)
         if _types.is_input_type(typ):
-            # We know that any input type can safely be decomposed into it's `__dict__`, and then reconstructed
-            # via `type(**d)` from the (unwrapped) properties.
+            # We know that any input type can safely be decomposed into it's properties (its `__dict__`, or itself if it's
+            # a dict), and then reconstructed via `type(**d)` from the (unwrapped) properties.
             # `Output.all` of no arguments is an Output of an empty list. If any of the properties contains unknowns, so
             # does the value as a whole, which is represented by an explicit unknown like for other values.
             def construct(d: Any) -> Any:
@@ -310,9 +310,9 @@ class Output(Generic[T_co]):
                     return UNKNOWN
                 return typ(**d) if d else typ()
 
-            o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
-                construct, True
-            )
+            o_typ: Output[typ] = Output.all(  # type:ignore
+                **_types.input_type_to_untranslated_dict(val)
+            ).apply(construct, True)
             return cast(Output[T_co], o_typ)
 
         # Is a (non-empty) dict or list? Recurse into the values within them.
-- 
2.43.0


From 694c0bfa8ead2fc52e7ccea24a1974d69d7dd7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:36 +0000
Subject: [PATCH 42/58] fix: convert the results of exported coroutines like
 those of other awaitables

---
 sdk/python/lib/pulumi/runtime/stack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index aa83963..82ce90a 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -252,6 +252,10 @@ def is_primitive(attr: Any) -> bool:
     if hasattr(attr, "__dict__"):
         return False
 
+    # coroutines can't be iterated over, but aren't primitive either.
+    if isawaitable(attr):
+        return False
+
     try:
         iter(attr)
         return False
-- 
2.43.0


From b0220fe3d892cb8b4f2369db160c1a53ea5a2ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:59 +0000
Subject: [PATCH 43/58] fix: keep track of an RPC from when it's requested, so
 that a provider waits for it before it answers

---
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 40a73b7..fd880da 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -89,11 +89,15 @@ class RPCManager:
         :return: An awaitable function implementing the RPC
         """
 
-        async def rpc_wrapper(*args, **kwargs):
+        def rpc_wrapper(*args, **kwargs):
             log.debug(f"beginning rpc {name}")
 
+            # Keep track of the RPC from the moment that it's requested, rather than once the event loop gets to it.
             rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
             self.rpcs.append(rpc)
+            return wait_for_rpc(rpc)
+
+        async def wait_for_rpc(rpc):
             try:
                 result = await rpc
                 exception = None
-- 
2.43.0


From 140665c058656e47b9a77791f5b4830046d43b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 44/58] fix: sort the sets of a dynamic provider like its
 dicts, so that it's serialized the same each time

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 50 +++++++++++++++++++++---
 1 file changed, 44 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 9751db5..4fbcad5 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -213,7 +213,7 @@ class ResourceProvider:
 # multiple errors related to the type assignment we're doing in this method eg 'Picker = _Pickler'
 @no_type_check
 def serialize_provider(provider: ResourceProvider) -> str:
-    # We need to customize our Pickler to ensure we sort dictionaries before serializing to try to
+    # We need to customize our Pickler to ensure we sort dictionaries and sets before serializing to try to
     # ensure we get a deterministic result.  Without this we would see changes to our serialized
     # provider even when there are no actual changes.
     old_pickler = pickle.Pickler
@@ -222,15 +222,20 @@ def serialize_provider(provider: ResourceProvider) -> str:
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
     unsorted_batch_setitems = pickle.Pickler._batch_setitems
     unsorted_save_dict = pickle.Pickler.save_dict
+    dispatch = dill.Pickler.dispatch
+    unsorted_save_set = dispatch[set]
+    unsorted_save_frozenset = dispatch[frozenset]
 
-    def batch_set_items_sorted(self, items):
+    def sort(items):
         items = list(items)
         try:
-            items = sorted(items)
+            return sorted(items)
         except TypeError:
-            # There is no order among the keys (e.g. they're of different types), so keep the order of insertion.
-            pass
-        unsorted_batch_setitems(self, items)
+            # There is no order among the items (e.g. they're of different types), so keep the order they have.
+            return items
+
+    def batch_set_items_sorted(self, items):
+        unsorted_batch_setitems(self, sort(items))
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
@@ -245,6 +250,37 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     pickle.Pickler.save_dict = save_dict_sorted
 
+    def save_set_sorted(self, obj):
+        if self.proto < 4:
+            self.save_reduce(set, (sort(obj),), obj=obj)
+            return
+
+        self.write(pickle.EMPTY_SET)
+        self.memoize(obj)
+        self.write(pickle.MARK)
+        for item in sort(obj):
+            self.save(item)
+        self.write(pickle.ADDITEMS)
+
+    dispatch[set] = save_set_sorted
+
+    def save_frozenset_sorted(self, obj):
+        if self.proto < 4:
+            self.save_reduce(frozenset, (sort(obj),), obj=obj)
+            return
+
+        self.write(pickle.MARK)
+        for item in sort(obj):
+            self.save(item)
+        if id(obj) in self.memo:
+            # One of the items refers to the set itself, which has been saved with it.
+            self.write(pickle.POP_MARK + self.get(self.memo[id(obj)][0]))
+            return
+        self.write(pickle.FROZENSET)
+        self.memoize(obj)
+
+    dispatch[frozenset] = save_frozenset_sorted
+
     # Use dill to recursively pickle the provider and store base64 encoded form
     try:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
@@ -252,6 +288,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
     finally:
         # Restore the original pickler, including the methods that were replaced above: these would be wrapped once more
         # with every provider that is serialized, and affect any other use of pickle, otherwise.
+        dispatch[frozenset] = unsorted_save_frozenset
+        dispatch[set] = unsorted_save_set
         pickle.Pickler._batch_setitems = unsorted_batch_setitems
         pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
-- 
2.43.0


From 779bdf9bbdac47224988ea8545a15b1930ebb4aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 45/58] fix: serialize one dynamic provider at a time, as doing
 so replaces parts of the global pickler

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 4fbcad5..4aab05c 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -15,6 +15,7 @@
 import asyncio
 import base64
 import pickle
+import threading
 from typing import Any, ClassVar, Optional, List, TYPE_CHECKING, no_type_check, cast
 
 import dill
@@ -209,10 +210,20 @@ class ResourceProvider:
         pass
 
 
+# Serializing a provider replaces parts of the (global) pickler, hence at most one may be serialized at a time.
+_serialize_lock = threading.RLock()
+
+
 # TODO[python/mypy#1102]: mypy doesn't currently support multiline comments
 # multiple errors related to the type assignment we're doing in this method eg 'Picker = _Pickler'
 @no_type_check
 def serialize_provider(provider: ResourceProvider) -> str:
+    with _serialize_lock:
+        return _serialize_provider(provider)
+
+
+@no_type_check
+def _serialize_provider(provider: ResourceProvider) -> str:
     # We need to customize our Pickler to ensure we sort dictionaries and sets before serializing to try to
     # ensure we get a deterministic result.  Without this we would see changes to our serialized
     # provider even when there are no actual changes.
-- 
2.43.0


From 9eca8f15991a551ac26a2730bb053524fd3d0c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:02 +0000
Subject: [PATCH 46/58] fix: give dynamic resources a default type, so that
 dynamic.Resource can be used without a subclass

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 4aab05c..7d6debe 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -311,7 +311,7 @@ class Resource(CustomResource):
     Resource represents a Pulumi Resource that incorporates an inline implementation of the Resource's CRUD operations.
     """
 
-    _resource_type_name: ClassVar[str]
+    _resource_type_name: ClassVar[str] = "dynamic:Resource"
 
     def __init_subclass__(cls, module: str = "", name: str = "Resource"):
         if module:
-- 
2.43.0


From 542a9ce10376b8e25149cf218d55bc79001195d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:55 +0000
Subject: [PATCH 47/58] fix: use the default project and stack of set_mocks in
 the URNs of mocked resources, rather than those of an earlier test

---
 sdk/python/lib/pulumi/runtime/mocks.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index afaa6fe..81a0e7f 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -155,7 +155,7 @@ class MockMonitor:
     mocks: Mocks
     resources: Dict[str, ResourceRegistration]
 
-    # The project and stack given to `set_mocks`. The monitor is called from other threads, in which the settings (that
+    # The project and stack set by `set_mocks`. The monitor is called from other threads, in which the settings (that
     # are local to a context) don't have the values that were set for the test.
     project: Optional[str] = None
     stack: Optional[str] = None
@@ -309,14 +309,16 @@ def set_mocks(
     """
     if not monitor:
         monitor = MockMonitor(mocks)
+    project = project if project is not None else "project"
+    stack = stack if stack is not None else "stack"
     if isinstance(monitor, MockMonitor):
         monitor.project, monitor.stack = project, stack
 
     settings = MockSettings(
         monitor=monitor,
         engine=MockEngine(logger),
-        project=project if project is not None else "project",
-        stack=stack if stack is not None else "stack",
+        project=project,
+        stack=stack,
         dry_run=preview,
     )
     configure(settings)
-- 
2.43.0


From 3cb23ebee6adf7cc7d15e88a96957177dfde0725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:45 +0000
Subject: [PATCH 48/58] fix: forget the failure of a unit test in every
 context, such that it doesn't fail other tests

---
 sdk/python/lib/pulumi/automation/_server.py  | 2 +-
 sdk/python/lib/pulumi/provider/server.py     | 4 ++--
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 7 +++++++
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 0f52b7d..8d23bcb 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -46,7 +46,7 @@ class LanguageServer(LanguageRuntimeServicer):
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
 
-        RPC_MANAGER.clear()
+        RPC_MANAGER.start()
 
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 4b2c94c..e77fc64 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -70,7 +70,7 @@ class ProviderServicer(ResourceProviderServicer):
         # Calls to `Construct` and `Call` are serialized because they currently modify globals. When we are able to
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
-        RPC_MANAGER.clear()
+        RPC_MANAGER.start()
         try:
             return await self._construct(request, context)
         finally:
@@ -205,7 +205,7 @@ class ProviderServicer(ResourceProviderServicer):
         # Calls to `Construct` and `Call` are serialized because they currently modify globals. When we are able to
         # avoid modifying globals, we can remove the locking.
         await self.lock.acquire()
-        RPC_MANAGER.clear()
+        RPC_MANAGER.start()
         try:
             return await self._call(request, context)
         finally:
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index fd880da..4987079 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -122,6 +122,13 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
+        state = self._state
+        state.rpcs = []
+        state.unhandled_exception = None
+        state.exception_traceback = None
+
+    def start(self) -> None:
+        """Starts to track the RPCs of another program, which is run in the current context."""
         self._context_state.set(_RPCState())
 
 
-- 
2.43.0


From c0c7fe6454fa272171a86cd2873192dc1444661e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 49/58] fix: wait for what a failed unit test has started, such
 that it doesn't fail a later test

---
 sdk/python/lib/pulumi/runtime/mocks.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 81a0e7f..5265058 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -15,6 +15,7 @@
 """
 Mocks for testing.
 """
+import asyncio
 import functools
 import logging
 from abc import ABC, abstractmethod
@@ -34,7 +35,7 @@ from ..runtime.proto import (
     provider_pb2,
     resource_pb2,
 )
-from ..runtime.stack import Stack, run_pulumi_func
+from ..runtime.stack import Stack, _get_running_tasks, run_pulumi_func
 
 if TYPE_CHECKING:
     from ..resource import Resource
@@ -56,12 +57,34 @@ def test(fn):
                     lambda: _sync_await(Output.from_input(fn(*args, **kwargs)).future())
                 )
             )
+        except BaseException:
+            _sync_await(_wait_for_failed_test())
+            raise
         finally:
             rpc_manager.RPC_MANAGER.clear()
 
     return wrapper
 
 
+async def _wait_for_failed_test() -> None:
+    """
+    Waits for what a failed test has started (e.g. the resources that depend on the one that failed), as it'd go on during
+    a later test, and fail that one as well, otherwise.
+    """
+    rpcs = rpc_manager.RPC_MANAGER.rpcs
+    while rpcs:
+        await asyncio.wait([rpcs.pop()])
+        await asyncio.sleep(0)
+
+    # What depends on the RPCs ends without further delay. Don't wait for long for anything else.
+    loop = asyncio.get_event_loop()
+    end = loop.time() + 1
+    tasks = _get_running_tasks()
+    while tasks and loop.time() < end:
+        await asyncio.wait(tasks, timeout=end - loop.time())
+        tasks = _get_running_tasks()
+
+
 class MockResourceArgs:
     """
     MockResourceArgs is used to construct a newResource Mock
-- 
2.43.0


From 72ac9e874d69bc0fdccca420686e2b70bad16748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:16 +0000
Subject: [PATCH 50/58] fix: read an empty stack settings file as one without
 settings

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index fffe3b1..1cbff00 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -45,7 +45,9 @@ class StackSettings:
         self.config = config
 
     @classmethod
-    def _deserialize(cls, data: dict):
+    def _deserialize(cls, data: Optional[dict]):
+        # The settings file may be empty.
+        data = data or {}
         config = data.get("config")
         if config is not None:
             stack_config: Dict[str, Any] = {}
-- 
2.43.0


From fda451888657c3e791030c37a511e787e3be0434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:47 +0000
Subject: [PATCH 51/58] fix: don't show an inline program another program's
 configuration

---
 sdk/python/lib/pulumi/automation/_server.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 8d23bcb..3575dad 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -60,9 +60,9 @@ class LanguageServer(LanguageRuntimeServicer):
             organization=request.organization,
         )
 
-        if request.config:
-            secret_keys = request.configSecretKeys if request.configSecretKeys else None
-            set_all_config(request.config, secret_keys)
+        # Always set the configuration, even if it is empty: otherwise, the program would see that of
+        # another program that was run in this process.
+        set_all_config(request.config, list(request.configSecretKeys))
 
         # The strategy here is derived from sdk/python/cmd/pulumi-language-python-exec
         result = language_pb2.RunResponse()
-- 
2.43.0


From 5b41b2cc393ffcf8b35610ff7a0f40aca49a1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 52/58] fix: don't lose the outcome of an inline program if
 cancelling its remaining tasks fails

---
 sdk/python/lib/pulumi/automation/_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index 3575dad..3893312 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -108,7 +108,9 @@ class LanguageServer(LanguageRuntimeServicer):
             log.debug(f"Cancelling {len(pending)} tasks.")
             for task in pending:
                 task.cancel()
-                with suppress(asyncio.CancelledError):
+                # The outcome of the program is known already, so that a task that fails here must not
+                # change it (or keep us from cleaning up).
+                with suppress(asyncio.CancelledError, Exception):
                     loop.run_until_complete(task)
             loop.close()
             sys.stdout.flush()
-- 
2.43.0


From 0339a2904f778013c045b28ace525003dcbd9bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:33 +0000
Subject: [PATCH 53/58] fix: report a CLI that prints no version as one of an
 invalid version

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 246bed3..2fcb24f 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -372,7 +372,7 @@ class LocalWorkspace(Workspace):
     def _get_pulumi_version(self) -> str:
         result = self._run_pulumi_cmd_sync(["version"])
         version_string = result.stdout.strip()
-        if version_string[0] == "v":
+        if version_string.startswith("v"):
             version_string = version_string[1:]
         return version_string
 
-- 
2.43.0


From 024b2382ede2b72ab1535b12fa5ef81fde4b0d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:35 +0000
Subject: [PATCH 54/58] fix: unknowns within output types that aren't dicts
 make an Output unknown

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 5bf6636..a63f9f4 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -1006,6 +1006,9 @@ def contains_unknowns(val: Any) -> bool:
                 return any((impl(val[k], stack) for k in val))
             if isinstance(val, list):
                 return any((impl(x, stack) for x in val))
+            # Output types are not necessarily dicts.
+            if _types.is_output_type(type(val)):
+                return any((impl(x, stack) for x in list(val.__dict__.values())))
         return False
 
     return impl(val, [])
-- 
2.43.0


From 7867ebf125ef91b2c2b906e5efb0ca83aed15d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:04 +0000
Subject: [PATCH 55/58] fix: return all entries from Stack.history() unless a
 page size is given

---
 sdk/python/lib/pulumi/automation/_stack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 86fc74c..8192e39 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -647,6 +647,9 @@ class Stack:
             if page is None:
                 page = 1
             args.extend(["--page-size", str(page_size), "--page", str(page)])
+        else:
+            # Unless told otherwise, the CLI returns the latest 10 entries only; with 0, it returns all of them.
+            args.extend(["--page-size", "0"])
         result = self._run_pulumi_cmd_sync(args)
         summary_list = json.loads(result.stdout)
 
-- 
2.43.0


From 38889c866a208176080781d9fecf1a8940c9589a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:09 +0000
Subject: [PATCH 56/58] fix: don't count a resource that was refused among its
 parent's children

---
 sdk/python/lib/pulumi/resource.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index bda1f35..4996031 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -905,9 +905,6 @@ class Resource:
             if not isinstance(opts.parent, Resource):
                 raise TypeError("Resource parent is not a valid Resource")
 
-            # Add this resource to its parent's set of child resources.
-            opts.parent._childResources.add(self)
-
             # Infer protection from parent, if one was provided.
             if opts.protect is None:
                 opts.protect = opts.parent._protect
@@ -955,6 +952,10 @@ class Resource:
                 self, t, name, custom, remote, DependencyResource, props, opts, typ
             )
 
+        # Add this resource to its parent's set of child resources, now that it hasn't been refused.
+        if opts.parent is not None:
+            opts.parent._childResources.add(self)
+
     def _get_providers(
         self, t: str, pkg: Optional[str], opts: ResourceOptions
     ) -> Tuple[Optional["ProviderResource"], Mapping[str, "ProviderResource"]]:
-- 
2.43.0


From dd33babe1ed88b2968ebc65ec21674fc67ec5fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:42 +0000
Subject: [PATCH 57/58] fix: unanswered inputs of remote components aren't
 Outputs inside their properties' Outputs

A property that the engine doesn't answer gets the value of the input of
that name. Inputs of remote components are sent as output values, which
were deserialized to Outputs: what's applied to the property saw an Output
instead of the value, and the property wasn't secret if its input was.
---
 sdk/python/lib/pulumi/runtime/rpc.py | 32 ++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index a63f9f4..1926419 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -655,6 +655,31 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     return Output(resources, value_future, is_known_future, is_secret_future)
 
 
+def _without_output_values(value: Any) -> Any:
+    """
+    Given a serialized property, returns it with output values replaced by what they'd be serialized as if
+    output values weren't kept: their (possibly secret) values if known, otherwise the unknown sentinel.
+    """
+    if isinstance(value, struct_pb2.ListValue):
+        return [_without_output_values(v) for v in value]  # type: ignore
+
+    if isinstance(value, struct_pb2.Struct):
+        if (
+            _special_sig_key in value
+            and value[_special_sig_key] == _special_output_value_sig
+        ):
+            if "value" not in value:
+                return UNKNOWN
+            inner = _without_output_values(value["value"])
+            if "secret" in value and value["secret"] is True:
+                return wrap_rpc_secret(inner)
+            return inner
+
+        return {k: _without_output_values(v) for k, v in value.items()}
+
+    return value
+
+
 def is_rpc_secret(value: Any) -> bool:
     """
     Returns if a given python value is actually a wrapped secret.
@@ -1070,9 +1095,12 @@ def resolve_outputs(
             translated_key = translate(key)
             if translated_key not in all_properties:
                 # input prop the engine didn't give us a final value for.Just use the value passed into the resource by
-                # the user.
+                # the user. The inputs of remote components are serialized with output values, which aren't to be
+                # deserialized as Outputs inside the value of this property's own Output.
+                plain = struct_pb2.Struct()
+                plain[key] = _without_output_values(value)
                 all_properties[translated_key] = translate_output_properties(
-                    deserialize_property(value),
+                    deserialize_property(plain[key]),
                     translate_to_pass,
                     types.get(key),
                     transform_using_type_metadata,
-- 
2.43.0


From cf3150b7b266be89adcbaba536c586ffa2c0ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:17 +0000
Subject: [PATCH 58/58] fix: don't lose dependencies when merging depends_on
 with an Output that's None or unknown

---
 sdk/python/lib/pulumi/output.py   | 13 ++++---------
 sdk/python/lib/pulumi/resource.py | 11 +++++++----
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index a8e6ef6..c9dea9b 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -558,8 +558,8 @@ def _map_output(o: Output[T], transform: Callable[[T], U]) -> Output[U]:
     """Transforms an output's result value with a pure function."""
 
     async def fut() -> U:
-        value = await o.future()
-        return transform(value) if value is not None else cast(U, UNKNOWN)
+        # The value is None if it's unknown.
+        return transform(cast(T, await o.future()))
 
     return Output(
         resources=o.resources(),
@@ -578,13 +578,8 @@ def _map2_output(
     """
 
     async def fut() -> U:
-        v1 = await o1.future()
-        v2 = await o2.future()
-        return (
-            transform(v1, v2)
-            if (v1 is not None) and (v2 is not None)
-            else cast(U, UNKNOWN)
-        )
+        # The values are None if they're unknown.
+        return transform(cast(T1, await o1.future()), cast(T2, await o2.future()))
 
     async def res() -> Set["Resource"]:
         r1 = await o1.resources()
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 4996031..7e21b82 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -601,10 +601,13 @@ class ResourceOptions:
         if asyncio.iscoroutine(self.depends_on):
             self.depends_on = asyncio.ensure_future(self.depends_on)
 
-        return _map_input(
-            self.depends_on,
-            lambda x: list(x) if isinstance(x, Sequence) else [cast(Any, x)],
-        )
+        def to_list(x: Any) -> List[Any]:
+            # An Output may resolve to None, either as such or as it's unknown.
+            if x is None:
+                return []
+            return list(x) if isinstance(x, Sequence) else [x]
+
+        return _map_input(self.depends_on, to_list)
 
     # pylint: disable=method-hidden
     @staticmethod
-- 
2.43.0

