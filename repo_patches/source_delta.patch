From 851d198e8afcecd6dea708d313d1609ee5c90f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 01/37] fix: do not iterate over a component's live child set
 while awaiting

Computing the dependencies of a resource that depends on a component awaits
the URN of each of the component's children. A callback that runs meanwhile
and creates another child made the program fail with 'Set changed size
during iteration'.
---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..b832686 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -800,7 +800,8 @@ async def _add_dependency(
     from .. import ComponentResource  # pylint: disable=import-outside-toplevel
 
     if isinstance(res, ComponentResource) and not res._remote:
-        for child in res._childResources:
+        # Iterate over a copy: awaiting a child's URN lets other tasks run, and these may add children to `res`.
+        for child in list(res._childResources):
             await _add_dependency(deps, child, from_resource)
         return
 
-- 
2.43.0


From c3db5b3174c35077a9a85fb97fe8c7b6f7788bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:53 +0000
Subject: [PATCH 02/37] fix: emit an exported object in full each time it is
 exported

massage() remembered every object it had visited anywhere in the outputs, not
only those on the path to the current one, and the callbacks of nested outputs
shared that memory: exporting one object under two names sent nothing for one
of them, and which one depended on the order in which outputs resolved.
---
 sdk/python/lib/pulumi/runtime/stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..b299084 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -185,7 +185,9 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Only the objects on the path from the root to `attr` make a cycle: an object that is merely shared, e.g.
+    # exported under two names, is emitted in full in each place.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From bf6d81b0cdb3b8c06cac1d9b0e1565b82d3cb6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:41 +0000
Subject: [PATCH 03/37] fix: a remote component must not wait for itself while
 serializing its inputs

The dependencies of an output value are found by expanding local components
into their children without saying on whose behalf. A remote child of a local
component with an input computed from that component's URN thus waited for
its own URN, and the program hung.
---
 sdk/python/lib/pulumi/runtime/resource.py |  1 +
 sdk/python/lib/pulumi/runtime/rpc.py      | 33 ++++++++++++++++++-----
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b832686..3abb763 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -127,6 +127,7 @@ async def prepare_resource(
         translate,
         typ,
         keep_output_values=remote,
+        from_resource=res,
     )
 
     # Wait for our parent to resolve
diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..16fd207 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -166,6 +166,7 @@ async def serialize_properties(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> struct_pb2.Struct:
     """
     Serializes an arbitrary Input bag into a Protobuf structure, keeping track of the list
@@ -182,6 +183,8 @@ async def serialize_properties(
     :param Dict[str, List[Resource]] property_deps: Dependencies are set here.
 
     :param input_transfomer: Optional name translator.
+
+    :param from_resource: The resource the properties belong to, if any.
     """
 
     # Default implementation of get_type that always returns None.
@@ -205,7 +208,7 @@ async def serialize_properties(
         v = inputs[k]
         deps: List["Resource"] = []
         result = await serialize_property(
-            v, deps, input_transformer, get_type(k), keep_output_values
+            v, deps, input_transformer, get_type(k), keep_output_values, from_resource
         )
         # We treat properties that serialize to None as if they don't exist.
         if result is not None:
@@ -232,6 +235,7 @@ async def serialize_property(
     input_transformer: Optional[Callable[[str], str]] = None,
     typ: Optional[type] = None,
     keep_output_values: Optional[bool] = None,
+    from_resource: Optional["Resource"] = None,
 ) -> Any:
     """
     Serializes a single Input into a form suitable for remoting to the engine, awaiting
@@ -240,7 +244,8 @@ async def serialize_property(
     When `typ` is specified, the metadata from the type is used to translate Python snake_case
     names to Pulumi camelCase names, rather than using the `input_transformer`.
 
-    If `keep_output_values` is true and the monitor supports output values, they will be kept.
+    If `keep_output_values` is true and the monitor supports output values, they will be kept. Their dependencies
+    then exclude those on which `from_resource`, the resource the value belongs to, must not wait.
     """
 
     # Set typ to T if it's Optional[T], Input[T], or InputType[T].
@@ -261,7 +266,12 @@ async def serialize_property(
         for elem in value:
             props.append(
                 await serialize_property(
-                    elem, deps, input_transformer, element_type, keep_output_values
+                    elem,
+                    deps,
+                    input_transformer,
+                    element_type,
+                    keep_output_values,
+                    from_resource,
                 )
             )
 
@@ -360,7 +370,12 @@ async def serialize_property(
         awaitable = cast("Any", value)
         future_return = await asyncio.ensure_future(awaitable)
         return await serialize_property(
-            future_return, deps, input_transformer, typ, keep_output_values
+            future_return,
+            deps,
+            input_transformer,
+            typ,
+            keep_output_values,
+            from_resource,
         )
 
     if known_types.is_output(value):
@@ -394,7 +409,7 @@ async def serialize_property(
             promise_deps.extend(set(urn_deps))
             value_resources.update(urn_deps)
 
-            dependencies = await _expand_dependencies(value_resources, None)
+            dependencies = await _expand_dependencies(value_resources, from_resource)
 
             output_value: Dict[str, Any] = {_special_sig_key: _special_output_value_sig}
 
@@ -423,7 +438,12 @@ async def serialize_property(
 
         return {
             k: await serialize_property(
-                v, deps, input_transformer, types.get(k), keep_output_values
+                v,
+                deps,
+                input_transformer,
+                types.get(k),
+                keep_output_values,
+                from_resource,
             )
             for k, v in value.items()
         }
@@ -479,6 +499,7 @@ async def serialize_property(
                 input_transformer,
                 get_type(transformed_key),
                 keep_output_values,
+                from_resource,
             )
 
         return obj
-- 
2.43.0


From bccd621839c18cac296621fb599e01091840788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:47 +0000
Subject: [PATCH 04/37] fix: serializing an output must not change the
 resources it depends on

The dependencies found while awaiting an output's value were added to the
output's own set, which derived outputs share, so that what else depended on
it varied with the order in which values were serialized.
---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 16fd207..a8c54f5 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -380,7 +380,8 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        # Copy the set: the output, and others computed from it, keep theirs.
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From ce25ce0f584e90a7b7e04932c0dbfd3054490aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 05/37] fix: fail the outputs of a resource whose read answer
 cannot be used

read_resource and get_resource left the outputs of a resource unresolved when
the engine's answer could not be deserialized, and the program waited for them
forever. Do as register_resource does.
---
 sdk/python/lib/pulumi/runtime/resource.py | 32 ++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 3abb763..dc9905f 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -214,6 +214,32 @@ def resource_output(
     return resolve, Output({res}, value_future, known_future, secret_future)
 
 
+def _resolve_outputs_or_fail(
+    res: "Resource",
+    serialized_props: struct_pb2.Struct,
+    outputs: struct_pb2.Struct,
+    resolvers: Dict[str, "rpc.Resolver"],
+    transform_using_type_metadata: bool,
+) -> None:
+    """
+    Resolves the outputs of a resource that was read or looked up. If the engine's answer cannot be turned into them,
+    they fail with that error: left unresolved, they would make the program wait for them forever.
+    """
+    try:
+        rpc.resolve_outputs(
+            res,
+            serialized_props,
+            outputs,
+            {},
+            resolvers,
+            transform_using_type_metadata,
+        )
+    except Exception as exn:
+        log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+        rpc.resolve_outputs_due_to_exception(resolvers, exn)
+        raise
+
+
 def get_resource(
     res: "Resource", props: "Inputs", custom: bool, urn: str, typ: Optional[type] = None
 ) -> None:
@@ -285,11 +311,10 @@ def get_resource(
             is_known = bool(resp["id"])
             resolve_id(resp["id"], is_known, False, None)
 
-        rpc.resolve_outputs(
+        _resolve_outputs_or_fail(
             res,
             resolver.serialized_props,
             resp["state"],
-            {},
             resolvers,
             transform_using_type_metadata,
         )
@@ -455,11 +480,10 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
+        _resolve_outputs_or_fail(
             res,
             resolver.serialized_props,
             resp.properties,
-            {},
             resolvers,
             transform_using_type_metadata,
         )
-- 
2.43.0


From e24d072509bae2a9fb22187b73c770b931f39716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:35 +0000
Subject: [PATCH 06/37] fix: the ID of a resource read by an unknown ID is
 unknown

During a preview, a resource read by an ID that is an output not yet known
resolved its own ID as known, to the wire marker for unknown values, which
callbacks then received.
---
 sdk/python/lib/pulumi/runtime/resource.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index dc9905f..1cb3724 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -479,7 +479,8 @@ def read_resource(
 
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
-        resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
+        # Read IDs are known, unless the program passed one that is still unknown during a preview.
+        resolve_id(resolved_id, resolved_id != rpc.UNKNOWN, False, None)
         _resolve_outputs_or_fail(
             res,
             resolver.serialized_props,
-- 
2.43.0


From 345b95b02f7a671f1285e11c85f6bb6bddf7b5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:15 +0000
Subject: [PATCH 07/37] fix: outputs of a remote component are not outputs
 within outputs

When the engine's answer leaves out an input of a remote component, the
component's property takes the value of the input. An input sent as an output
value came back as an Output inside of the property's Output, so that callbacks
received an Output rather than its value, and its secretness was lost.
---
 sdk/python/lib/pulumi/runtime/rpc.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index a8c54f5..f232ed1 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -655,6 +655,26 @@ def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
     return Output(resources, value_future, is_known_future, is_secret_future)
 
 
+def _replace_output_values(value: Any) -> Any:
+    """
+    Given a serialized value, replace the output values in it by the plain values, secrets and unknowns they stand for.
+    """
+    if isinstance(value, struct_pb2.ListValue):
+        return [_replace_output_values(v) for v in value]  # type: ignore
+
+    if isinstance(value, struct_pb2.Struct):
+        fields = {k: _replace_output_values(v) for k, v in value.items()}
+        if fields.get(_special_sig_key) != _special_output_value_sig:
+            return fields
+        if "value" not in fields:
+            return UNKNOWN
+        if fields.get("secret") is True:
+            return {_special_sig_key: _special_secret_sig, "value": fields["value"]}
+        return fields["value"]
+
+    return value
+
+
 def is_rpc_secret(value: Any) -> bool:
     """
     Returns if a given python value is actually a wrapped secret.
@@ -1063,7 +1083,10 @@ def resolve_outputs(
         translated_deps[translate(key)] = property_deps
 
     if not settings.is_dry_run() or settings.is_legacy_apply_enabled():
-        for key, value in list(serialized_props.items()):
+        # The inputs of a remote component may hold output values, which its own outputs must not be wrapped in.
+        inputs = struct_pb2.Struct()
+        inputs.update(_replace_output_values(serialized_props))
+        for key, value in list(inputs.items()):
             translated_key = translate(key)
             if translated_key not in all_properties:
                 # input prop the engine didn't give us a final value for.Just use the value passed into the resource by
-- 
2.43.0


From 7ff577f476e0f396aa1ff900f451097cbfd6fb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 08/37] fix: fail the program when the callback of an output
 nobody consumes fails

---
 sdk/python/lib/pulumi/output.py              |  4 ++++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 14 ++++++++++++++
 sdk/python/lib/pulumi/runtime/stack.py       |  5 +++++
 3 files changed, 23 insertions(+)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..59063c7 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -35,6 +35,7 @@ from typing import (
 from . import _types
 from . import runtime
 from .runtime import rpc
+from .runtime.rpc_manager import RPC_MANAGER
 
 if TYPE_CHECKING:
     from .resource import Resource
@@ -219,6 +220,9 @@ class Output(Generic[T_co]):
                 result_is_known.set_result(True)
                 result_is_secret.set_result(is_secret)
                 return cast(U, transformed)
+            except Exception as exn:
+                RPC_MANAGER.output_failed(exn)
+                raise
             finally:
                 with contextlib.suppress(asyncio.InvalidStateError):
                     result_resources.set_result(resources)
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 11d1d26..d591900 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -41,6 +41,11 @@ class RPCManager:
     The traceback associated with unhandled_exception, if any.
     """
 
+    unhandled_output_exception: Optional[Exception]
+    """
+    The first exception with which an Output failed, if any did.
+    """
+
     def __init__(self):
         self.clear()
 
@@ -80,11 +85,20 @@ class RPCManager:
 
         return rpc_wrapper
 
+    def output_failed(self, exn: Exception) -> None:
+        """
+        Records that computing an Output has failed. Nothing may ever await that Output, so whoever waits for the
+        program to finish has to ask.
+        """
+        if self.unhandled_output_exception is None:
+            self.unhandled_output_exception = exn
+
     def clear(self) -> None:
         """Clears any tracked state."""
         self.rpcs = []
         self.exception_traceback = None
         self.unhandled_exception = None
+        self.unhandled_output_exception = None
 
 
 RPC_MANAGER: RPCManager = RPCManager()
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b299084..02ba78a 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -123,8 +123,13 @@ async def run_in_stack(func: Callable):
     will end up as output properties on the resulting stack component in the checkpoint file.  This
     is meant for internal runtime use only and is used by the Python SDK entrypoint program.
     """
+    RPC_MANAGER.unhandled_output_exception = None
     await run_pulumi_func(lambda: Stack(func))
 
+    # A callback may have failed while we were waiting for RPCs, without anything awaiting its result.
+    if RPC_MANAGER.unhandled_output_exception is not None:
+        raise RPC_MANAGER.unhandled_output_exception
+
 
 class Stack(ComponentResource):
     """
-- 
2.43.0


From 98d00c7cea0d74d67933dfaad89a421467ccd445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:23 +0000
Subject: [PATCH 09/37] fix: wait for the tasks that outstanding tasks have
 started

---
 sdk/python/lib/pulumi/runtime/stack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 02ba78a..634f0fc 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -111,6 +111,10 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
+            # The tasks we waited for may have started others in the meantime.
+            if len(_get_running_tasks()) > 0:
+                continue
+
         # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
         # Break if no RPCs remain.
         if len(RPC_MANAGER.rpcs) == 0:
-- 
2.43.0


From 48f541570adcbb1cc4086e8ab6acb7fb3f725703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:08 +0000
Subject: [PATCH 10/37] fix: go on reporting a failure when the engine is not
 there to log to

---
 sdk/python/lib/pulumi/log.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/log.py b/sdk/python/lib/pulumi/log.py
index 6a89220..f892164 100644
--- a/sdk/python/lib/pulumi/log.py
+++ b/sdk/python/lib/pulumi/log.py
@@ -19,6 +19,8 @@ import asyncio
 import sys
 from typing import Optional, TYPE_CHECKING
 
+import grpc
+
 from .runtime.settings import get_engine
 from .runtime.proto import engine_pb2
 
@@ -42,7 +44,12 @@ def debug(
     """
     engine = get_engine()
     if engine is not None:
-        _log(engine, engine_pb2.DEBUG, msg, resource, stream_id, ephemeral)
+        try:
+            _log(engine, engine_pb2.DEBUG, msg, resource, stream_id, ephemeral)
+        except grpc.RpcError:
+            # The engine is gone. The SDK logs while it reports failures, which has to go on regardless: whoever waits
+            # for what failed would otherwise wait forever.
+            pass
 
 
 def info(
-- 
2.43.0


From ab1143c520ffd19c0750c60a52706f9da850203e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:29 +0000
Subject: [PATCH 11/37] fix: merging into merged options keeps what was merged
 before

---
 sdk/python/lib/pulumi/invoke.py   | 3 +++
 sdk/python/lib/pulumi/resource.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..87adef3 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -117,6 +117,9 @@ class InvokeOptions:
         dest = copy.copy(opts1)
         source = opts2
 
+        # The copy must not keep the `merge` bound to the options it was copied from.
+        dest.merge = dest._merge_instance  # type: ignore
+
         dest.parent = dest.parent if source.parent is None else source.parent
         dest.provider = dest.provider if source.provider is None else source.provider
         dest.plugin_download_url = (
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..4d7dc1f 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -645,6 +645,9 @@ class ResourceOptions:
         dest = copy.copy(opts1)
         source = copy.copy(opts2)
 
+        # The copy must not keep the `merge` bound to the options it was copied from.
+        dest.merge = dest._merge_instance  # type: ignore
+
         # This makes merging simple.
         def expand_providers(providers) -> Optional[Sequence["ProviderResource"]]:
             if isinstance(providers, Mapping):
-- 
2.43.0


From e09cd77712b41b2abe31adca9118cb7e2715ea2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:00 +0000
Subject: [PATCH 12/37] fix: a coroutine given as depends_on is awaited once

---
 sdk/python/lib/pulumi/resource.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 4d7dc1f..8f58206 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -17,6 +17,7 @@
 import asyncio
 import copy
 import warnings
+from inspect import isawaitable
 from typing import (
     Optional,
     List,
@@ -597,6 +598,10 @@ class ResourceOptions:
         if self.depends_on is None:
             return []
 
+        # A coroutine can be awaited only once, but these options may be asked again, and by several resources.
+        if isawaitable(self.depends_on):
+            self.depends_on = asyncio.ensure_future(self.depends_on)
+
         return _map_input(
             self.depends_on,
             lambda x: list(x) if isinstance(x, Sequence) else [cast(Any, x)],
-- 
2.43.0


From 815831b3a9d2aa8cf7c35338efa00039bb08a68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 13/37] fix: send a remote component all the providers it was
 given

---
 sdk/python/lib/pulumi/runtime/resource.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 1cb3724..867a4f8 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -774,18 +774,15 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result: Dict[str, "ProviderResource"] = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 57a687a52cbdee855561fc4eeabc25645b4fdf43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:12 +0000
Subject: [PATCH 14/37] fix: looking something up must not change the caller's
 options

---
 sdk/python/lib/pulumi/runtime/invoke.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..dec8c1e 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,16 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        # Do not store it in the options: they belong to the caller, who may use them again.
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 353bfb798cdbda1f04d0d427833c7c95667b9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:48 +0000
Subject: [PATCH 15/37] fix: an object of an output type keeps its type within
 Output.all

---
 sdk/python/lib/pulumi/output.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 59063c7..c053d1a 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -298,8 +298,9 @@ class Output(Generic[T_co]):
             )
             return cast(Output[T_co], o_typ)
 
-        # Is a (non-empty) dict or list? Recurse into the values within them.
-        if val and isinstance(val, dict):
+        # Is a (non-empty) dict or list? Recurse into the values within them. An object of an output type may be a dict
+        # as well, but it holds no inputs, and it has to keep its type.
+        if val and isinstance(val, dict) and not _types.is_output_type(typ):
             o_dict: Output[dict] = Output.all(**val)
             return cast(Output[T_co], o_dict)
 
-- 
2.43.0


From 5ac3d9f516da565cc5bc1c2d3e86bf7e542485e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:57 +0000
Subject: [PATCH 16/37] fix: merging invoke options keeps the version when the
 second ones state none

---
 sdk/python/lib/pulumi/invoke.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 87adef3..58251a5 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -47,7 +47,7 @@ class InvokeOptions:
         self,
         parent: Optional["Resource"] = None,
         provider: Optional["ProviderResource"] = None,
-        version: Optional[str] = "",
+        version: Optional[str] = None,
         plugin_download_url: Optional[str] = None,
     ) -> None:
         """
-- 
2.43.0


From 060f30eda42f5761621b449a4deaf91fa082008e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:00 +0000
Subject: [PATCH 17/37] fix: an args object that is not known leaves what it is
 combined with known

---
 sdk/python/lib/pulumi/output.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index c053d1a..6f3f504 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -296,7 +296,9 @@ class Output(Generic[T_co]):
             o_typ: Output[typ] = Output.all(**val.__dict__).apply(  # type:ignore
                 lambda d: typ(**d)
             )
-            return cast(Output[T_co], o_typ)
+            # If a field is not known the object as a whole is not known either, and has to be seen as such by whoever
+            # runs with unknowns (as any other output that is not known is).
+            return cast(Output[T_co], o_typ.apply(lambda v: v, True))
 
         # Is a (non-empty) dict or list? Recurse into the values within them. An object of an output type may be a dict
         # as well, but it holds no inputs, and it has to keep its type.
-- 
2.43.0


From 4a9a47dc9dcd6785e077a38be77568af50d74e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:17 +0000
Subject: [PATCH 18/37] fix: a component constructed by a provider gets the
 parent it was given

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 sdk/python/lib/pulumi/resource.py        | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..261a6bf 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent):
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 8f58206..1cbd6a7 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -831,6 +831,10 @@ class Resource:
         if dependency:
             self._protect = False
             self._providers = {}
+            self._name = name
+            self._aliases = []
+            self._transformations = []
+            self._childResources = set()
             return
 
         if props is None:
-- 
2.43.0


From 9cd9515f41c5a942fe026c3fbd6a3fdb899d368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:19 +0000
Subject: [PATCH 19/37] fix: what failed in one program or provider request
 does not fail another

---
 sdk/python/lib/pulumi/automation/_server.py  |  3 +
 sdk/python/lib/pulumi/provider/server.py     |  7 ++
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 70 ++++++++++++++++----
 3 files changed, 66 insertions(+), 14 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_server.py b/sdk/python/lib/pulumi/automation/_server.py
index a714e3b..7cd44d6 100644
--- a/sdk/python/lib/pulumi/automation/_server.py
+++ b/sdk/python/lib/pulumi/automation/_server.py
@@ -46,6 +46,9 @@ class LanguageServer(LanguageRuntimeServicer):
     def Run(self, request, context):
         _suppress_unobserved_task_logging()
 
+        # Programs may be running on other threads at the same time.
+        RPC_MANAGER.clear()
+
         # Configure the runtime so that the user program hooks up to Pulumi as appropriate.
         engine_address = request.args[0] if request.args else ""
         reset_options(
diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 261a6bf..b9c6b3b 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -36,6 +36,7 @@ from pulumi.resource import (
 )
 from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
+from pulumi.runtime.rpc_manager import RPC_MANAGER
 from pulumi.runtime.stack import wait_for_rpcs
 import pulumi
 import pulumi.resource
@@ -82,6 +83,9 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.ConstructRequest
         ), f"request is not ConstructRequest but is {type(request)} instead"
 
+        # What went wrong while serving another request is no concern of this one.
+        RPC_MANAGER.clear()
+
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
@@ -211,6 +215,9 @@ class ProviderServicer(ResourceProviderServicer):
             request, proto.CallRequest
         ), f"request is not CallRequest but is {type(request)} instead"
 
+        # What went wrong while serving another request is no concern of this one.
+        RPC_MANAGER.clear()
+
         pulumi.runtime.settings.reset_options(
             project=_empty_as_none(request.project),
             stack=_empty_as_none(request.stack),
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index d591900..1292696 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -14,16 +14,14 @@
 import asyncio
 import sys
 import traceback
+from contextvars import ContextVar
 from typing import Callable, Awaitable, Tuple, Any, Optional, List
 from .. import log
 
 
-class RPCManager:
+class RPCState:
     """
-    RPCManager is responsible for keeping track of RPCs that are dispatched
-    throughout the course of a Pulumi program. It records exceptions that occur
-    when performing RPC calls and keeps track of whether or not there are any
-    outstanding RPCs.
+    What an RPCManager keeps track of for one program, or for one request to a provider.
     """
 
     rpcs: List[Awaitable]
@@ -47,7 +45,53 @@ class RPCManager:
     """
 
     def __init__(self):
-        self.clear()
+        self.rpcs = []
+        self.exception_traceback = None
+        self.unhandled_exception = None
+        self.unhandled_output_exception = None
+
+
+class RPCManager:
+    """
+    RPCManager is responsible for keeping track of RPCs that are dispatched
+    throughout the course of a Pulumi program. It records exceptions that occur
+    when performing RPC calls and keeps track of whether or not there are any
+    outstanding RPCs.
+
+    A process may run several programs, or serve several requests, and work that one of them has started may still be
+    going on when the next one begins. Each calls `clear` as it begins, and what is tracked from then on in that context,
+    and in the tasks started from it, is its own.
+    """
+
+    def __init__(self):
+        self._default_state = RPCState()
+        self._context_state: ContextVar[Optional[RPCState]] = ContextVar(
+            "rpc_state", default=None
+        )
+
+    @property
+    def _state(self) -> RPCState:
+        return self._context_state.get() or self._default_state
+
+    @property
+    def rpcs(self) -> List[Awaitable]:
+        return self._state.rpcs
+
+    @property
+    def unhandled_exception(self) -> Optional[Exception]:
+        return self._state.unhandled_exception
+
+    @property
+    def exception_traceback(self) -> Optional[Any]:
+        return self._state.exception_traceback
+
+    @property
+    def unhandled_output_exception(self) -> Optional[Exception]:
+        return self._state.unhandled_output_exception
+
+    @unhandled_output_exception.setter
+    def unhandled_output_exception(self, exn: Optional[Exception]) -> None:
+        self._state.unhandled_output_exception = exn
 
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
@@ -67,17 +111,18 @@ class RPCManager:
         async def rpc_wrapper(*args, **kwargs):
             log.debug(f"beginning rpc {name}")
 
+            state = self._state
             rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
-            self.rpcs.append(rpc)
+            state.rpcs.append(rpc)
             try:
                 result = await rpc
                 exception = None
             except Exception as exn:
                 log.debug("RPC failed with exception:")
                 log.debug(traceback.format_exc())
-                if self.unhandled_exception is None:
-                    self.unhandled_exception = exn
-                    self.exception_traceback = sys.exc_info()[2]
+                if state.unhandled_exception is None:
+                    state.unhandled_exception = exn
+                    state.exception_traceback = sys.exc_info()[2]
                 result = None
                 exception = exn
 
@@ -95,10 +140,7 @@ class RPCManager:
 
     def clear(self) -> None:
         """Clears any tracked state."""
-        self.rpcs = []
-        self.exception_traceback = None
-        self.unhandled_exception = None
-        self.unhandled_output_exception = None
+        self._context_state.set(RPCState())
 
 
 RPC_MANAGER: RPCManager = RPCManager()
-- 
2.43.0


From feafb9d746402c0af39c2c84dedf159289e7af97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:57 +0000
Subject: [PATCH 20/37] fix: a provider answers a request when everything it
 started is done

---
 sdk/python/lib/pulumi/output.py              |  1 +
 sdk/python/lib/pulumi/runtime/rpc_manager.py | 32 ++++++++++++++++++--
 sdk/python/lib/pulumi/runtime/stack.py       |  9 ++++++
 3 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 6f3f504..a2b7052 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -106,6 +106,7 @@ class Output(Generic[T_co]):
             self._resources = asyncio.ensure_future(resources)
 
         self._future = future
+        RPC_MANAGER.track_output(future)
         self._is_known = asyncio.ensure_future(is_value_known())
 
         if is_secret is not None:
diff --git a/sdk/python/lib/pulumi/runtime/rpc_manager.py b/sdk/python/lib/pulumi/runtime/rpc_manager.py
index 1292696..03f1a96 100644
--- a/sdk/python/lib/pulumi/runtime/rpc_manager.py
+++ b/sdk/python/lib/pulumi/runtime/rpc_manager.py
@@ -15,7 +15,7 @@ import asyncio
 import sys
 import traceback
 from contextvars import ContextVar
-from typing import Callable, Awaitable, Tuple, Any, Optional, List
+from typing import Callable, Awaitable, Tuple, Any, Optional, List, Set
 from .. import log
 
 
@@ -44,11 +44,17 @@ class RPCState:
     The first exception with which an Output failed, if any did.
     """
 
+    outputs: Set[asyncio.Future]
+    """
+    The values of Outputs that are still being computed, and of those that failed.
+    """
+
     def __init__(self):
         self.rpcs = []
         self.exception_traceback = None
         self.unhandled_exception = None
         self.unhandled_output_exception = None
+        self.outputs = set()
 
 
 class RPCManager:
@@ -93,6 +99,10 @@ class RPCManager:
     def unhandled_output_exception(self, exn: Optional[Exception]) -> None:
         self._state.unhandled_output_exception = exn
 
+    @property
+    def outputs(self) -> Set[asyncio.Future]:
+        return self._state.outputs
+
     def do_rpc(
         self, name: str, rpc_function: Callable[..., Awaitable[Tuple[Any, Exception]]]
     ) -> Callable[..., Awaitable[Tuple[Any, Exception]]]:
@@ -108,12 +118,16 @@ class RPCManager:
         :return: An awaitable function implementing the RPC
         """
 
-        async def rpc_wrapper(*args, **kwargs):
+        def rpc_wrapper(*args, **kwargs):
             log.debug(f"beginning rpc {name}")
 
+            # The RPC is outstanding from here on, not just when whoever awaits it gets to run.
             state = self._state
             rpc = asyncio.ensure_future(rpc_function(*args, **kwargs))
             state.rpcs.append(rpc)
+            return rpc_result(state, rpc)
+
+        async def rpc_result(state, rpc):
             try:
                 result = await rpc
                 exception = None
@@ -138,6 +152,20 @@ class RPCManager:
         if self.unhandled_output_exception is None:
             self.unhandled_output_exception = exn
 
+    def track_output(self, future: asyncio.Future) -> None:
+        """
+        Keeps track of the value of an Output until it has been computed.
+        """
+        outputs = self._state.outputs
+
+        def done(fut: asyncio.Future) -> None:
+            if fut.cancelled() or fut.exception() is None:
+                outputs.discard(fut)
+
+        if not future.done():
+            outputs.add(future)
+            future.add_done_callback(done)
+
     def clear(self) -> None:
         """Clears any tracked state."""
         self._context_state.set(RPCState())
diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index 634f0fc..f241582 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -114,6 +114,15 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
             # The tasks we waited for may have started others in the meantime.
             if len(_get_running_tasks()) > 0:
                 continue
+        elif len(RPC_MANAGER.outputs) > 0:
+            # Computing these values may make more RPCs, or fail.
+            done, _ = await asyncio.wait(
+                RPC_MANAGER.outputs, return_when="FIRST_COMPLETED"
+            )
+            for output in done:
+                if not output.cancelled():
+                    output.result()
+            continue
 
         # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
         # Break if no RPCs remain.
-- 
2.43.0


From 41fa6e991e27df8a968e11ba938fcfe0a43bed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:50 +0000
Subject: [PATCH 21/37] fix: engine events keep the resource URN, the detailed
 diff and the stream id

---
 sdk/python/lib/pulumi/automation/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..cec2a4f 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From a957fa59a310b1d5199e292db5bc7c02fea8265a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:51 +0000
Subject: [PATCH 22/37] fix: log_verbosity reaches the command line as text

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..e2c5c6a 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -771,7 +771,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 42744e26b709a01b04b6d62002cd194d4032b9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 23/37] fix: import_stack removes its temporary file when the
 import fails

---
 .../lib/pulumi/automation/_local_workspace.py      | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..933338e 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -347,11 +347,15 @@ class LocalWorkspace(Workspace):
 
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
-            json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+            try:
+                json.dump(state.__dict__, file, indent=4)
+                file.close()
+                self._run_pulumi_cmd_sync(
+                    ["stack", "import", "--file", file.name, "--stack", stack_name]
+                )
+            finally:
+                file.close()
+                os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From aef744c5eb13d31e0e91a8d22bf5721ca060be3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 24/37] fix: creating a stack leaves the caller's workspace
 options as they were

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 933338e..e7a790b 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -564,7 +564,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The caller's options may serve other stacks too: leave them as they are.
+    workspace_options = LocalWorkspaceOptions(**opts.__dict__ if opts else {})
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -591,7 +592,8 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The caller's options may serve other stacks too: leave them as they are.
+    workspace_options = LocalWorkspaceOptions(**opts.__dict__ if opts else {})
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From 3c40851d103305378dbcd8cf5ac136717703192c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 25/37] fix: loading stack settings keeps configuration that is
 not a string

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..58b32d0 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,14 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                if (
+                    isinstance(val, dict)
+                    and len(val) == 1
+                    and isinstance(val.get("secure"), str)
+                ):
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From fe3ea97a287488b09260334b2417c3f9c7f3e5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:14 +0000
Subject: [PATCH 26/37] fix: project settings with a runtime, template or
 backend description can be saved and loaded

---
 .../lib/pulumi/automation/_local_workspace.py |  8 +--
 .../pulumi/automation/_project_settings.py    | 49 ++++++++++++++++++-
 2 files changed, 50 insertions(+), 7 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index e7a790b..4a5d6e6 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -146,11 +146,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = settings._serialize()
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -651,7 +647,7 @@ def _load_project_settings(work_dir: str) -> ProjectSettings:
             continue
         with open(project_path, "r", encoding="utf-8") as file:
             settings = json.load(file) if ext == ".json" else yaml.safe_load(file)
-            return ProjectSettings(**settings)
+            return ProjectSettings._deserialize(settings)
     raise FileNotFoundError(
         f"failed to find project settings file in workdir: {work_dir}"
     )
diff --git a/sdk/python/lib/pulumi/automation/_project_settings.py b/sdk/python/lib/pulumi/automation/_project_settings.py
index 33f70af..c9e05d8 100644
--- a/sdk/python/lib/pulumi/automation/_project_settings.py
+++ b/sdk/python/lib/pulumi/automation/_project_settings.py
@@ -12,7 +12,16 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 
-from typing import Optional, Mapping, Any, Union
+from typing import Optional, Mapping, Any, Dict, Union
+
+
+def _present(obj: Any) -> Dict[str, Any]:
+    """The attributes of an object that are set, in the form the settings file has them."""
+    return {
+        key: val._serialize() if hasattr(val, "_serialize") else val
+        for key, val in obj.__dict__.items()
+        if val is not None
+    }
 
 
 class ProjectRuntimeInfo:
@@ -25,6 +34,9 @@ class ProjectRuntimeInfo:
         self.name = name
         self.options = options
 
+    def _serialize(self) -> Dict[str, Any]:
+        return _present(self)
+
 
 class ProjectTemplateConfigValue:
     """A placeholder config value for a project template."""
@@ -43,6 +55,9 @@ class ProjectTemplateConfigValue:
         self.default = default
         self.secret = secret
 
+    def _serialize(self) -> Dict[str, Any]:
+        return _present(self)
+
 
 class ProjectTemplate:
     """A template used to seed new stacks created from this project."""
@@ -64,6 +79,21 @@ class ProjectTemplate:
         self.config = config or {}
         self.important = important
 
+    @classmethod
+    def _deserialize(cls, data: dict) -> "ProjectTemplate":
+        config = {
+            key: ProjectTemplateConfigValue(**val)
+            for key, val in (data.get("config") or {}).items()
+        }
+        return cls(**{**data, "config": config})
+
+    def _serialize(self) -> Dict[str, Any]:
+        serializable = _present(self)
+        serializable["config"] = {
+            key: val._serialize() for key, val in self.config.items()
+        }
+        return serializable
+
 
 class ProjectBackend:
     """Configuration for the project's Pulumi state storage backend."""
@@ -73,6 +103,9 @@ class ProjectBackend:
     def __init__(self, url: Optional[str] = None):
         self.url = url
 
+    def _serialize(self) -> Dict[str, Any]:
+        return _present(self)
+
 
 class ProjectSettings:
     """A Pulumi project manifest. It describes metadata applying to all sub-stacks created from the project."""
@@ -121,3 +154,17 @@ class ProjectSettings:
         self.config = config
         self.template = template
         self.backend = backend
+
+    @classmethod
+    def _deserialize(cls, data: dict) -> "ProjectSettings":
+        data = dict(data)
+        if isinstance(data.get("runtime"), dict):
+            data["runtime"] = ProjectRuntimeInfo(**data["runtime"])
+        if isinstance(data.get("template"), dict):
+            data["template"] = ProjectTemplate._deserialize(data["template"])
+        if isinstance(data.get("backend"), dict):
+            data["backend"] = ProjectBackend(**data["backend"])
+        return cls(**data)
+
+    def _serialize(self) -> Dict[str, Any]:
+        return _present(self)
-- 
2.43.0


From fc3a37ee083415b2e541f5db904bb0194139a9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:03 +0000
Subject: [PATCH 27/37] fix: every engine event is delivered, and the event
 watcher ends with its operation

---
 sdk/python/lib/pulumi/automation/_stack.py | 45 ++++++++++++++--------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e2c5c6a..9bf87ca 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -15,7 +15,6 @@
 import json
 import os
 import tempfile
-import time
 import threading
 from concurrent import futures
 from enum import Enum
@@ -288,11 +287,12 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        stop_watching = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("up")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
@@ -302,7 +302,7 @@ class Stack:
             summary = self.info(show_secrets)
             assert summary is not None
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching, on_exit)
 
         return UpResult(
             stdout=up_result.stdout,
@@ -409,15 +409,16 @@ class Stack:
                 on_event(event)
 
         # Start watching logs in a thread
+        stop_watching = threading.Event()
         log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback)
+            target=_watch_logs, args=(log_file, on_event_callback, stop_watching)
         )
         log_watcher_thread.start()
 
         try:
             preview_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread, on_exit)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching, on_exit)
 
         if not summary_events:
             raise RuntimeError("summary event never found")
@@ -475,18 +476,19 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        stop_watching = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("refresh")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
         try:
             refresh_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -540,18 +542,19 @@ class Stack:
 
         log_watcher_thread = None
         temp_dir = None
+        stop_watching = threading.Event()
         if on_event:
             log_file, temp_dir = _create_log_file("destroy")
             args.extend(["--event-log", log_file])
             log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event)
+                target=_watch_logs, args=(log_file, on_event, stop_watching)
             )
             log_watcher_thread.start()
 
         try:
             destroy_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
-            _cleanup(temp_dir, log_watcher_thread)
+            _cleanup(temp_dir, log_watcher_thread, stop_watching)
 
         summary = self.info(show_secrets)
         assert summary is not None
@@ -812,17 +815,23 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     return filepath, log_dir
 
 
-def _watch_logs(filename: str, callback: OnEvent):
-    with open(filename, encoding="utf-8") as f:
+def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
+    with open(filename, "rb") as f:
+        line = b""
         while True:
-            line = f.readline()
-
-            # sleep if file hasn't been updated
-            if not line:
-                time.sleep(0.1)
+            # By the time we are asked to stop, everything there will be has been written.
+            stopping = stop.is_set()
+            line += f.readline()
+
+            # wait if file hasn't been updated, or only part of a line has been written
+            if not line.endswith(b"\n"):
+                if stopping:
+                    break
+                stop.wait(0.1)
                 continue
 
             event = EngineEvent.from_json(json.loads(line))
+            line = b""
             callback(event)
 
             # if this is the cancel event, stop watching logs.
@@ -833,12 +842,14 @@ def _watch_logs(filename: str, callback: OnEvent):
 def _cleanup(
     temp_dir: Optional[tempfile.TemporaryDirectory],
     thread: Optional[threading.Thread],
+    stop_watching: threading.Event,
     on_exit_fn: Optional[Callable[[], None]] = None,
 ) -> None:
     # If there's an on_exit function, execute it (used in preview/up to shut down server)
     if on_exit_fn:
         on_exit_fn()
-    # If we started a thread to watch logs, wait for it to terminate, timing out after 5 seconds.
+    # If we started a thread to watch logs, wait for it to deliver what is left, timing out after 5 seconds.
+    stop_watching.set()
     if thread:
         thread.join(5)
     # If we created a temp_dir for the logs, clean up.
-- 
2.43.0


From 0d3b5d8f000119dba87649be9a57156aed496fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:40 +0000
Subject: [PATCH 28/37] fix: an operation that fails while it is set up leaves
 nothing behind

---
 sdk/python/lib/pulumi/automation/_stack.py | 78 +++++++++++++---------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 9bf87ca..53fa78c 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -288,15 +288,15 @@ class Stack:
         log_watcher_thread = None
         temp_dir = None
         stop_watching = threading.Event()
-        if on_event:
-            log_file, temp_dir = _create_log_file("up")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event, stop_watching)
-            )
-            log_watcher_thread.start()
 
         try:
+            if on_event:
+                log_file, temp_dir = _create_log_file("up")
+                args.extend(["--event-log", log_file])
+                log_watcher_thread = _start_watching(
+                    log_file, on_event, stop_watching
+                )
+
             up_result = self._run_pulumi_cmd_sync(args, on_output)
             outputs = self.outputs()
             summary = self.info(show_secrets)
@@ -398,8 +398,9 @@ class Stack:
             args.append(f"--client=127.0.0.1:{port}")
         args.extend(["--exec-kind", kind])
 
-        log_file, temp_dir = _create_log_file("preview")
-        args.extend(["--event-log", log_file])
+        log_watcher_thread = None
+        temp_dir = None
+        stop_watching = threading.Event()
         summary_events: List[SummaryEvent] = []
 
         def on_event_callback(event: EngineEvent) -> None:
@@ -408,14 +409,15 @@ class Stack:
             if on_event:
                 on_event(event)
 
-        # Start watching logs in a thread
-        stop_watching = threading.Event()
-        log_watcher_thread = threading.Thread(
-            target=_watch_logs, args=(log_file, on_event_callback, stop_watching)
-        )
-        log_watcher_thread.start()
-
         try:
+            log_file, temp_dir = _create_log_file("preview")
+            args.extend(["--event-log", log_file])
+
+            # Start watching logs in a thread
+            log_watcher_thread = _start_watching(
+                log_file, on_event_callback, stop_watching
+            )
+
             preview_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
             _cleanup(temp_dir, log_watcher_thread, stop_watching, on_exit)
@@ -477,15 +479,15 @@ class Stack:
         log_watcher_thread = None
         temp_dir = None
         stop_watching = threading.Event()
-        if on_event:
-            log_file, temp_dir = _create_log_file("refresh")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event, stop_watching)
-            )
-            log_watcher_thread.start()
 
         try:
+            if on_event:
+                log_file, temp_dir = _create_log_file("refresh")
+                args.extend(["--event-log", log_file])
+                log_watcher_thread = _start_watching(
+                    log_file, on_event, stop_watching
+                )
+
             refresh_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
             _cleanup(temp_dir, log_watcher_thread, stop_watching)
@@ -543,15 +545,15 @@ class Stack:
         log_watcher_thread = None
         temp_dir = None
         stop_watching = threading.Event()
-        if on_event:
-            log_file, temp_dir = _create_log_file("destroy")
-            args.extend(["--event-log", log_file])
-            log_watcher_thread = threading.Thread(
-                target=_watch_logs, args=(log_file, on_event, stop_watching)
-            )
-            log_watcher_thread.start()
 
         try:
+            if on_event:
+                log_file, temp_dir = _create_log_file("destroy")
+                args.extend(["--event-log", log_file])
+                log_watcher_thread = _start_watching(
+                    log_file, on_event, stop_watching
+                )
+
             destroy_result = self._run_pulumi_cmd_sync(args, on_output)
         finally:
             _cleanup(temp_dir, log_watcher_thread, stop_watching)
@@ -810,11 +812,23 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
     filepath = os.path.join(log_dir.name, "eventlog.txt")
 
     # Open and close the file to ensure it exists before we start polling for logs
-    with open(filepath, "w+", encoding="utf-8"):
-        pass
+    try:
+        with open(filepath, "w+", encoding="utf-8"):
+            pass
+    except OSError:
+        log_dir.cleanup()
+        raise
     return filepath, log_dir
 
 
+def _start_watching(
+    filename: str, callback: OnEvent, stop: threading.Event
+) -> threading.Thread:
+    thread = threading.Thread(target=_watch_logs, args=(filename, callback, stop))
+    thread.start()
+    return thread
+
+
 def _watch_logs(filename: str, callback: OnEvent, stop: threading.Event):
     with open(filename, "rb") as f:
         line = b""
-- 
2.43.0


From fa2caa975a579765bc250f9d27d54fcc85453991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 29/37] fix: serialising a dynamic provider no longer patches
 the standard library's picklers

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 43 ++++++++----------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..3a1badb 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -14,8 +14,9 @@
 
 import asyncio
 import base64
+import io
 import pickle
-from typing import Any, ClassVar, Optional, List, TYPE_CHECKING, no_type_check, cast
+from typing import Any, ClassVar, Optional, List, TYPE_CHECKING, cast
 
 import dill
 from .. import CustomResource, ResourceOptions
@@ -209,42 +210,26 @@ class ResourceProvider:
         pass
 
 
-# TODO[python/mypy#1102]: mypy doesn't currently support multiline comments
-# multiple errors related to the type assignment we're doing in this method eg 'Picker = _Pickler'
-@no_type_check
-def serialize_provider(provider: ResourceProvider) -> str:
+class _SortedPickler(dill.Pickler):  # type: ignore
     # We need to customize our Pickler to ensure we sort dictionaries before serializing to try to
     # ensure we get a deterministic result.  Without this we would see changes to our serialized
-    # provider even when there are no actual changes.
-    old_pickler = pickle.Pickler
-    pickle.Pickler = pickle._Pickler  # pylint: disable=protected-access
-
+    # provider even when there are no actual changes. This is a class of its own, rather than a change
+    # to the picklers of the standard library, so that nothing else in the program is affected and so
+    # that it doesn't matter how many providers are serialized, or on how many threads.
     # See: https://github.com/uqfoundation/dill/issues/481#issuecomment-1133789848
-    unsorted_batch_setitems = pickle.Pickler._batch_setitems
-
-    def batch_set_items_sorted(self, items):
-        unsorted_batch_setitems(self, sorted(items))
 
-    pickle.Pickler._batch_setitems = batch_set_items_sorted
+    # dill recognizes its own picklers by the module they belong to.
+    __module__ = dill.Pickler.__module__
 
-    def save_dict_sorted(self, obj):
-        if self.bin:
-            self.write(pickle.EMPTY_DICT)
-        else:  # proto 0 -- can't use EMPTY_DICT
-            self.write(pickle.MARK + pickle.DICT)
+    def _batch_setitems(self, items, *args, **kwargs):
+        super()._batch_setitems(sorted(items), *args, **kwargs)
 
-        self.memoize(obj)
-        self._batch_setitems(obj.items())  # pylint: disable=protected-access
-
-    pickle.Pickler.save_dict = save_dict_sorted
 
+def serialize_provider(provider: ResourceProvider) -> str:
     # Use dill to recursively pickle the provider and store base64 encoded form
-    try:
-        byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
-        return base64.b64encode(byts).decode("utf-8")
-    finally:
-        # Restore the original pickler
-        pickle.Pickler = old_pickler
+    buf = io.BytesIO()
+    _SortedPickler(buf, pickle.DEFAULT_PROTOCOL, recurse=True).dump(provider)
+    return base64.b64encode(buf.getvalue()).decode("utf-8")
 
 
 class Resource(CustomResource):
-- 
2.43.0


From 37bcac95260023cf4a3c231cc830fb0bcef9c8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 30/37] fix: creating a dynamic resource no longer writes the
 provider into the caller's properties

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 3a1badb..415e78c 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -262,7 +262,7 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
-        props[PROVIDER_KEY] = serialize_provider(provider)
+        # The caller's properties are left as they are: they may be used for another resource.
+        props = {**cast(dict, props), PROVIDER_KEY: serialize_provider(provider)}
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From 022d1b55ee8b63ea3e596ae91f8a0a437e99101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 31/37] fix: a dynamic provider's diff passes on the stable
 properties

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..64d542f 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From ec337393b08367f937afcb6161b361c45d90786c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:45 +0000
Subject: [PATCH 32/37] fix: a dynamic provider can report that the resource it
 read is missing

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 64d542f..106f907 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -175,7 +175,10 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        if not result.id:
+            # A blank ID tells the engine that the resource is missing.
+            return proto.ReadResponse()
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From 7d2bd0e2dda58bc2f18501efd061f315f43b5196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 33/37] fix: dynamic providers can hold dicts whose keys cannot
 be compared

---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 415e78c..84382c3 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -222,7 +222,13 @@ class _SortedPickler(dill.Pickler):  # type: ignore
     __module__ = dill.Pickler.__module__
 
     def _batch_setitems(self, items, *args, **kwargs):
-        super()._batch_setitems(sorted(items), *args, **kwargs)
+        items = list(items)
+        try:
+            items.sort(key=lambda item: item[0])
+        except TypeError:
+            # Not all keys can be compared, for example because they differ in type.
+            items.sort(key=lambda item: (type(item[0]).__name__, repr(item[0])))
+        super()._batch_setitems(items, *args, **kwargs)
 
 
 def serialize_provider(provider: ResourceProvider) -> str:
-- 
2.43.0


From 6f0a3dadd3d6fdaf2f6bcd2e13cbef760ca55955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:49 +0000
Subject: [PATCH 34/37] fix: the dynamic provider process leaves the dicts that
 provider code returns alone

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 106f907..af87d08 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -96,7 +96,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         result = provider.update(request.id, olds, news)  # pylint: disable=no-member
         outs = {}
         if result.outs is not None:
-            outs = result.outs
+            outs = dict(result.outs)
         outs[PROVIDER_KEY] = news[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
@@ -120,7 +120,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.create(props)  # pylint: disable=no-member
-        outs = result.outs if result.outs is not None else {}
+        outs = dict(result.outs) if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
@@ -139,7 +139,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = result.inputs
+        inputs = dict(result.inputs)
         failures = result.failures
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
@@ -178,7 +178,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         if not result.id:
             # A blank ID tells the engine that the resource is missing.
             return proto.ReadResponse()
-        outs = result.outs if result.outs is not None else {}
+        outs = dict(result.outs) if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From 3d9d2fab771212c2ade5975857783159a2f455c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:18 +0000
Subject: [PATCH 35/37] fix: a dynamic provider's check need not state the
 inputs to use

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index af87d08..3230290 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -139,7 +139,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             provider = get_provider(news)
 
         result = provider.check(olds, news)  # pylint: disable=no-member
-        inputs = dict(result.inputs)
+        # A provider that has nothing to change need not state the inputs to use.
+        inputs = dict(result.inputs if result.inputs is not None else news)
         failures = result.failures
 
         inputs[PROVIDER_KEY] = news[PROVIDER_KEY]
-- 
2.43.0


From 9f91bd0ae660815d0e2aeecb4d039cae0eeb5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:47 +0000
Subject: [PATCH 36/37] fix: mocks run with the settings of the program under
 test

---
 sdk/python/lib/pulumi/runtime/invoke.py     |  6 +++---
 sdk/python/lib/pulumi/runtime/resource.py   |  9 +++++----
 sdk/python/lib/pulumi/runtime/settings.py   |  4 ++--
 sdk/python/lib/pulumi/runtime/sync_await.py | 21 ++++++++++++++++++++-
 4 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index dec8c1e..44c02c4 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -25,7 +25,7 @@ from ..runtime.proto import provider_pb2, resource_pb2
 from . import rpc
 from .rpc_manager import RPC_MANAGER
 from .settings import get_monitor, grpc_error_to_exception, handle_grpc_error
-from .sync_await import _sync_await
+from .sync_await import _run_in_thread, _sync_await
 
 if TYPE_CHECKING:
     from .. import Resource, Inputs, Output
@@ -106,7 +106,7 @@ def invoke(
             except grpc.RpcError as exn:
                 return None, grpc_error_to_exception(exn)
 
-        resp, error = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+        resp, error = await _run_in_thread(do_invoke)
         log.debug(f"Invoking function completed: tok={tok}, error={error}")
 
         # If the invoke failed, raise an error.
@@ -221,7 +221,7 @@ def call(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_thread(do_rpc_call)
             if resp is None:
                 return
 
diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index 867a4f8..94104b7 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -39,6 +39,7 @@ from .. import log
 from ..runtime.proto import provider_pb2, resource_pb2
 from .rpc_manager import RPC_MANAGER
 from .settings import handle_grpc_error
+from .sync_await import _run_in_thread
 from .resource_cycle_breaker import declare_dependency
 from ..output import Output
 from .. import _types
@@ -281,7 +282,7 @@ def get_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_invoke)
+            resp = await _run_in_thread(do_invoke)
 
             # If the invoke failed, raise an error.
             if resp.failures:
@@ -466,7 +467,7 @@ def read_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_thread(do_rpc_call)
 
         except Exception as exn:
             log.debug(
@@ -630,7 +631,7 @@ def register_resource(
                     handle_grpc_error(exn)
                     return None
 
-            resp = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+            resp = await _run_in_thread(do_rpc_call)
         except Exception as exn:
             log.debug(
                 f"exception when preparing or executing rpc: {traceback.format_exc()}"
@@ -728,7 +729,7 @@ def register_resource_outputs(
                 handle_grpc_error(exn)
                 return None
 
-        await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        await _run_in_thread(do_rpc_call)
         log.debug(
             f"resource registration successful: urn={urn}, props={serialized_props}"
         )
diff --git a/sdk/python/lib/pulumi/runtime/settings.py b/sdk/python/lib/pulumi/runtime/settings.py
index 6dfd4d9..9eb0ee4 100644
--- a/sdk/python/lib/pulumi/runtime/settings.py
+++ b/sdk/python/lib/pulumi/runtime/settings.py
@@ -17,7 +17,6 @@ Runtime settings and configuration.
 """
 from __future__ import annotations
 
-import asyncio
 from contextvars import ContextVar
 import os
 from typing import Optional, Union, Any, TYPE_CHECKING
@@ -26,6 +25,7 @@ import grpc
 from ..runtime.proto import engine_pb2_grpc, resource_pb2, resource_pb2_grpc
 from ..errors import RunError
 from .._utils import contextproperty
+from .sync_await import _run_in_thread
 
 if TYPE_CHECKING:
     from ..resource import Resource
@@ -245,7 +245,7 @@ async def monitor_supports_feature(feature: str) -> bool:
                     handle_grpc_error(exn)
                 return False
 
-        result = await asyncio.get_event_loop().run_in_executor(None, do_rpc_call)
+        result = await _run_in_thread(do_rpc_call)
         SETTINGS.feature_support[feature] = result
 
     return SETTINGS.feature_support[feature]
diff --git a/sdk/python/lib/pulumi/runtime/sync_await.py b/sdk/python/lib/pulumi/runtime/sync_await.py
index aa65634..fe9aed1 100644
--- a/sdk/python/lib/pulumi/runtime/sync_await.py
+++ b/sdk/python/lib/pulumi/runtime/sync_await.py
@@ -12,8 +12,11 @@
 # See the License for the specific language governing permissions and
 # limitations under the License.
 import asyncio
+import contextvars
 import sys
-from typing import Any, Awaitable
+from typing import Any, Awaitable, Callable, TypeVar
+
+T = TypeVar("T")
 
 # If we are not running on Python 3.7 or later, we need to swap the Python implementation of Task in for the C
 # implementation in order to support synchronous invokes.
@@ -96,3 +99,19 @@ def _ensure_event_loop():
         loop = asyncio.new_event_loop()
         asyncio.set_event_loop(loop)
     return loop
+
+
+async def _run_in_thread(fn: Callable[[], T]) -> T:
+    """
+    Runs fn on a thread of the event loop's default executor. The settings of the program that asks for it are context
+    variables, which fn sees as the program does (mocks are code of the program's that runs there). Outputs that fn makes
+    belong to that thread's own event loop, and the program does not wait for them.
+    """
+    from .rpc_manager import RPC_MANAGER  # pylint: disable=import-outside-toplevel
+
+    def run() -> T:
+        RPC_MANAGER.clear()
+        return fn()
+
+    context = contextvars.copy_context()
+    return await asyncio.get_event_loop().run_in_executor(None, context.run, run)
-- 
2.43.0


From 5660a5b4909ecf4445638fe44ae3b2fabceabbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 37/37] fix: what a failed test leaves behind does not fail the
 next one

---
 sdk/python/lib/pulumi/runtime/mocks.py | 40 +++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..0486b21 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -15,6 +15,7 @@
 """
 Mocks for testing.
 """
+import asyncio
 import functools
 import logging
 from abc import ABC, abstractmethod
@@ -34,7 +35,7 @@ from ..runtime.proto import (
     provider_pb2,
     resource_pb2,
 )
-from ..runtime.stack import Stack, run_pulumi_func
+from ..runtime.stack import Stack, _get_running_tasks, run_pulumi_func
 
 if TYPE_CHECKING:
     from ..resource import Resource
@@ -50,18 +51,55 @@ def test(fn):
     def wrapper(*args, **kwargs):
         from .. import Output  # pylint: disable=import-outside-toplevel
 
+        global _last_test_failed  # pylint: disable=global-statement
+        if _last_test_failed:
+            _last_test_failed = False
+            _sync_await(_wait_for_failed_test())
+
         try:
             _sync_await(
                 run_pulumi_func(
                     lambda: _sync_await(Output.from_input(fn(*args, **kwargs)).future())
                 )
             )
+        except BaseException:
+            _last_test_failed = True
+            raise
         finally:
             rpc_manager.RPC_MANAGER.clear()
 
     return wrapper
 
 
+_last_test_failed = False
+
+
+async def _wait_for_failed_test() -> None:
+    """
+    Tests share an event loop, and a test that fails leaves behind what it did not wait for. Lets that come to its end
+    before the next test begins, which is not to fail because of it.
+    """
+    loop = asyncio.get_event_loop()
+    deadline = loop.time() + _FAILED_TEST_TIMEOUT
+    while True:
+        tasks = _get_running_tasks()
+        if len(tasks) == 0:
+            break
+        if loop.time() >= deadline:
+            # These may be waiting for something that the test failed to do.
+            for task in tasks:
+                task.cancel()
+            await asyncio.wait(tasks, timeout=1)
+            break
+        await asyncio.wait(tasks, timeout=deadline - loop.time())
+
+
+_FAILED_TEST_TIMEOUT = 10
+"""
+How long what a failed test has left behind may take, in seconds.
+"""
+
+
 class MockResourceArgs:
     """
     MockResourceArgs is used to construct a newResource Mock
-- 
2.43.0

