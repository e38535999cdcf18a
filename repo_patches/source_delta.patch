From ec0c33f563f96ef39668ad4c591dbbdc2accdffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:13 +0000
Subject: [PATCH 01/10] fix: do not alter the index when merging inconsistent
 variant data

VariantsJson.merge() added the variants before verifying that priorities
and providers agree, so a refused wheel still left its variants behind
(e.g. in the index written by generate-index-json, which skips the wheel
and carries on).
---
 variantlib/variants_json.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/variantlib/variants_json.py b/variantlib/variants_json.py
index 363eeb5..c3a8cd6 100644
--- a/variantlib/variants_json.py
+++ b/variantlib/variants_json.py
@@ -112,9 +112,6 @@ class VariantsJson(VariantInfo):
     def merge(self, variant_dist_info: Self) -> None:
         """Merge info from another wheel (VariantsJson instance)"""
 
-        # Merge the variant properties
-        self.variants.update(variant_dist_info.variants)
-
         # Verify consistency of default priorities
         for attribute in (
             "namespace_priorities",
@@ -154,6 +151,9 @@ class VariantsJson(VariantInfo):
                             f"Expected: {old!r}, found: {new!r}"
                         )
 
+        # Merge the variant properties, now that everything was found consistent
+        self.variants.update(variant_dist_info.variants)
+
     def _get_expected_aot_namespaces(self) -> set[VariantNamespace]:
         return {
             namespace
-- 
2.43.0


From 03ea0909c47090e38454768ff28b3eb6761bd87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 02/10] fix: do not reuse plugin answers across Python
 interpreters

The cache of plugin queries was keyed by plugin list, command and
arguments only, so querying the same plugins in another environment
(venv_python_executable) in one process returned the answers of the
environment queried first.
---
 variantlib/plugins/loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index b87987e..e122443 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -96,7 +96,7 @@ class BasePluginLoader:
         _commands = json.dumps(commands).encode("utf8")
         _args: tuple[str] = tuple(args)  # type: ignore[assignment]
 
-        cache_key = hash((_plugin_apis, _commands, _args))
+        cache_key = hash((self._python_executable, _plugin_apis, _commands, _args))
 
         with suppress(KeyError):
             return VARIANT_PROVIDER_CACHE_TABLE[cache_key]
-- 
2.43.0


From 7b5b9de0a5c8109a9e5373dda45cfc2e4c00f39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:16 +0000
Subject: [PATCH 03/10] fix: report unsupported ahead-of-time properties as a
 validation error

make_variant_dist_info() raised KeyError instead of ValidationError when
the provider's plugin supports nothing at all, or is disabled by its
environment marker.
---
 variantlib/api.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/variantlib/api.py b/variantlib/api.py
index d1f887a..3230f8f 100644
--- a/variantlib/api.py
+++ b/variantlib/api.py
@@ -260,9 +260,9 @@ def make_variant_dist_info(
         for vprop in vdesc.properties:
             if vprop.namespace not in build_namespaces:
                 continue
-            if vprop.value not in variant_json.static_properties[vprop.namespace].get(
-                vprop.feature, []
-            ):
+            if vprop.value not in variant_json.static_properties.get(
+                vprop.namespace, {}
+            ).get(vprop.feature, []):
                 raise ValidationError(
                     f"Property {vprop.to_str()!r} is not installable according to the "
                     "respective provider plugin, which is invalid for ahead-of-time "
-- 
2.43.0


From 154f2b387515e40bc59b0cd9213ccb556fbb0b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 04/10] fix: handle every valid RECORD layout in make-variant
 and unmake-variant

RECORD was split on commas, so a quoted file name (containing a comma) or
a blank line aborted the conversion and a quoted entry of an old
variant.json was kept. Without a newline at the end of RECORD, the new
entry was glued to the last line.
---
 variantlib/commands/make_variant.py   | 14 +++++++++++---
 variantlib/commands/unmake_variant.py |  9 ++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index e753993..273739e 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 import argparse
 import base64
+import csv
 import hashlib
 import logging
 import pathlib
@@ -263,14 +264,21 @@ def _make_variant(
 
                     # Update RECORD for the new checksums.
                     with output_zip.open(file_info, "w") as output_file:
+                        new_line = b""
                         for line in input_file:
-                            new_line = line
-                            rec_filename, _sha256, _size = line.split(b",")
+                            # RECORD is a CSV file, it may have quoted file names
+                            # and blank lines.
+                            record = next(csv.reader([line.decode("utf-8")]), None)
                             # Skip existing hash for the discarded copy.
-                            if rec_filename.decode("utf-8") == dist_info_path:
+                            if record and record[0] == dist_info_path:
                                 continue
+                            new_line = line
                             output_file.write(new_line)
 
+                        # The final newline is optional.
+                        if new_line and not new_line.endswith(b"\n"):
+                            output_file.write(b"\n")
+
                         # Write hash for the new files.
                         new_sha256 = base64.urlsafe_b64encode(
                             hashlib.sha256(dist_info_data.encode("utf8")).digest()
diff --git a/variantlib/commands/unmake_variant.py b/variantlib/commands/unmake_variant.py
index 5a85984..c62fa32 100644
--- a/variantlib/commands/unmake_variant.py
+++ b/variantlib/commands/unmake_variant.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import argparse
+import csv
 import email.parser
 import email.policy
 import logging
@@ -108,10 +109,12 @@ def _unmake_variant(
                     # Update RECORD to remove the checksum.
                     variant_dist_info_path = (
                         f"{components[0]}/{VARIANT_DIST_INFO_FILENAME}"
-                    ).encode()
+                    )
                     for line in input_file:
-                        rec_filename, _sha256, _size = line.split(b",")
-                        if rec_filename != variant_dist_info_path:
+                        # RECORD is a CSV file, it may have quoted file names
+                        # and blank lines.
+                        record = next(csv.reader([line.decode("utf-8")]), None)
+                        if not record or record[0] != variant_dist_info_path:
                             output_file.write(line)
                 else:
                     shutil.copyfileobj(input_file, output_file)
-- 
2.43.0


From 352496d3f6bebe137a6497cf52ddeb2adb2d0148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 05/10] fix: do not destroy the input wheel when it is also the
 output

make-variant of a wheel that already carries the resulting label, with its
own directory as output, truncated the input before reading it.
---
 variantlib/commands/make_variant.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/variantlib/commands/make_variant.py b/variantlib/commands/make_variant.py
index 273739e..dd0014a 100644
--- a/variantlib/commands/make_variant.py
+++ b/variantlib/commands/make_variant.py
@@ -238,6 +238,10 @@ def _make_variant(
     output_filepath = (
         output_directory / f"{wheel_info.group('base_wheel_name')}-{variant_label}.whl"
     )
+    if output_filepath.exists() and output_filepath.samefile(input_filepath):
+        raise FileExistsError(
+            f"Output Wheel File `{output_filepath}` is the same file as the input."
+        )
 
     with (
         zipfile.ZipFile(input_filepath, "r") as input_zip,
-- 
2.43.0


From 4cef7523368054c48589937ef8b2d8c9ad23ff12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 06/10] fix: skip unreadable wheels when generating the index

A wheel that is not a zip archive, or whose variant.json is not valid JSON,
aborted the whole run instead of being skipped like other invalid wheels.
---
 variantlib/commands/generate_index_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/variantlib/commands/generate_index_json.py b/variantlib/commands/generate_index_json.py
index 6ead9ff..76bf922 100644
--- a/variantlib/commands/generate_index_json.py
+++ b/variantlib/commands/generate_index_json.py
@@ -85,7 +85,7 @@ def generate_index_json(args: list[str]) -> None:
                         {"wheel": wheel, "filename": VARIANT_DIST_INFO_FILENAME},
                     )
                     continue
-        except ValidationError as err:
+        except (ValueError, zipfile.BadZipFile) as err:
             logger.warning(
                 "%(wheel)s: %(err)s",
                 {
-- 
2.43.0


From 8db1d764e6770e4ca88a4ba04e7ac82be845cc93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:32 +0000
Subject: [PATCH 07/10] fix: refuse empty or false configuration values of the
 wrong type

Values such as `namespace_priorities = false` or `feature_priorities = ""`
were silently replaced by the default instead of being rejected.
---
 variantlib/models/configuration.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/variantlib/models/configuration.py b/variantlib/models/configuration.py
index 8a2bc3a..ab2ac19 100644
--- a/variantlib/models/configuration.py
+++ b/variantlib/models/configuration.py
@@ -130,9 +130,15 @@ class VariantConfiguration(BaseModel):
         """
 
         return cls(
-            namespace_priorities=namespace_priorities or [],
-            feature_priorities=feature_priorities or {},
-            property_priorities=property_priorities or {},
+            namespace_priorities=(
+                namespace_priorities if namespace_priorities is not None else []
+            ),
+            feature_priorities=(
+                feature_priorities if feature_priorities is not None else {}
+            ),
+            property_priorities=(
+                property_priorities if property_priorities is not None else {}
+            ),
         )
 
     def to_dict(self) -> dict[str, Any]:
-- 
2.43.0


From ca292079536a6b6e330b5cf89cf0b8bd2e229fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 08/10] fix: keep plugin references valid and matched with
 their package

A plugin that is a bare module was reported as `module:`, which
update-pyproject-toml then wrote as a plugin-api that variantlib itself
rejects, and for such plugins (or references with white space around the
colon) the providing package was not found, leaving `requires` empty.
---
 variantlib/plugins/loader.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/variantlib/plugins/loader.py b/variantlib/plugins/loader.py
index e122443..a4769d3 100644
--- a/variantlib/plugins/loader.py
+++ b/variantlib/plugins/loader.py
@@ -158,6 +158,15 @@ class BasePluginLoader:
     @abstractmethod
     def _load_all_plugins(self) -> None: ...
 
+    @staticmethod
+    def _normalize_plugin_api(plugin_api: str) -> str:
+        plugin_api_match = validate_matches_re(
+            plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
+        )
+        import_name: str = plugin_api_match.group("module")
+        attr_path: str | None = plugin_api_match.group("attr")
+        return import_name if attr_path is None else f"{import_name}:{attr_path}"
+
     def _load_all_plugins_from_tuple(self, plugin_apis: list[str]) -> None:
         if self._namespace_map is not None:
             raise RuntimeError(
@@ -170,13 +179,8 @@ class BasePluginLoader:
 
         normalized_plugin_apis = []
         for plugin_api in plugin_apis:
-            plugin_api_match = validate_matches_re(
-                plugin_api, VALIDATION_PROVIDER_PLUGIN_API_REGEX
-            )
-            import_name: str = plugin_api_match.group("module")
-            attr_path: str = plugin_api_match.group("attr") or ""
             # normalize it before passing to the subprocess
-            normalized_plugin_apis.append(f"{import_name}:{attr_path}")
+            normalized_plugin_apis.append(self._normalize_plugin_api(plugin_api))
 
             logger.info(
                 "Loading plugin via %(plugin_api)s",
@@ -419,7 +423,9 @@ class EntryPointPluginLoader(BasePluginLoader):
 
             plugin_apis.append(ep.value)
             if ep.dist is not None:
-                self._plugin_provider_packages[ep.value] = ep.dist
+                self._plugin_provider_packages[self._normalize_plugin_api(ep.value)] = (
+                    ep.dist
+                )
 
         self._load_all_plugins_from_tuple(plugin_apis=plugin_apis)
 
-- 
2.43.0


From 975d4f36373eb084ab2858b25b14bc7a279d4574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:25 +0000
Subject: [PATCH 09/10] fix: drop static properties along with their provider
 in pyproject.toml

Deleting a provider with static properties, or replacing it by a plugin,
left its static-properties behind, which makes the metadata invalid.
---
 variantlib/commands/update_pyproject_toml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 22aecc8..96264cb 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -13,6 +13,7 @@ from variantlib.constants import VARIANT_INFO_NAMESPACE_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_DATA_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_PLUGIN_API_KEY
 from variantlib.constants import VARIANT_INFO_PROVIDER_REQUIRES_KEY
+from variantlib.constants import VARIANT_INFO_STATIC_PROPERTIES_KEY
 from variantlib.plugins.loader import EntryPointPluginLoader
 
 
@@ -62,6 +63,8 @@ def update_pyproject_toml(args: list[str]) -> None:
     default_prio_table = variant_table.setdefault(VARIANT_INFO_DEFAULT_PRIO_KEY, {})
     namespace_prio_key = default_prio_table.setdefault(VARIANT_INFO_NAMESPACE_KEY, [])
     provider_table = variant_table.setdefault(VARIANT_INFO_PROVIDER_DATA_KEY, {})
+    # static properties are only valid for providers without a plugin
+    static_properties_table = variant_table.get(VARIANT_INFO_STATIC_PROPERTIES_KEY, {})
 
     with EntryPointPluginLoader() as loader:
         for namespace in parsed_args.delete:
@@ -69,6 +72,7 @@ def update_pyproject_toml(args: list[str]) -> None:
                 namespace_prio_key.remove(namespace)
             if namespace in provider_table:
                 del provider_table[namespace]
+            static_properties_table.pop(namespace, None)
 
         for namespace in parsed_args.add:
             if namespace not in loader.namespaces:
@@ -88,6 +92,7 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
+            static_properties_table.pop(namespace, None)
 
     toml_file.write(toml_data)
     sys.stdout.write(f"Wrote changes to {parsed_args.file}\n")
-- 
2.43.0


From ad300432290600a5f420e51344a10c9426eb6460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:10 +0000
Subject: [PATCH 10/10] fix: update-pyproject-toml wrote an invalid requirement
 for plugin packages with a local version

---
 variantlib/commands/update_pyproject_toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/variantlib/commands/update_pyproject_toml.py b/variantlib/commands/update_pyproject_toml.py
index 96264cb..bcb4999 100644
--- a/variantlib/commands/update_pyproject_toml.py
+++ b/variantlib/commands/update_pyproject_toml.py
@@ -88,7 +88,9 @@ def update_pyproject_toml(args: list[str]) -> None:
             namespace_table[VARIANT_INFO_PROVIDER_PLUGIN_API_KEY] = plugin_api
             default_requires = []
             if (dist := loader.plugin_provider_packages.get(plugin_api)) is not None:
-                default_requires.append(f"{dist.name} >={dist.version}")
+                # local version labels are not permitted in ">=" specifiers
+                public_version = dist.version.partition("+")[0]
+                default_requires.append(f"{dist.name} >={public_version}")
             namespace_table.setdefault(
                 VARIANT_INFO_PROVIDER_REQUIRES_KEY, default_requires
             )
-- 
2.43.0

