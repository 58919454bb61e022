From 9d2623607a43168aa0ca2e9297954ee7a56c1288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:34 +0000
Subject: [PATCH 1/4] fix: build the cached category tuple before taking the
 cache slot's lock

Creating Python objects inside OnceLock::get_or_init can run finalisers, switch threads or fork while
the slot is locked: a re-entrant call, another thread or the forked child then waits for ever.
---
 crates/unicode-intervals-py/src/lib.rs | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index a5d00ee..644917b 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -152,17 +152,19 @@ fn query(
 #[pyo3(signature = (version=None))]
 fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let cached = CATEGORIES_CACHE[core_version as usize].get_or_init(|| {
-        let names = core_version
-            .normalized_categories()
-            .iter()
-            .map(ToString::to_string)
-            .collect::<Vec<_>>();
-        PyTuple::new(py, names)
-            .expect("category names are valid")
-            .unbind()
-    });
-    Ok(cached.clone_ref(py))
+    let slot = &CATEGORIES_CACHE[core_version as usize];
+    if let Some(cached) = slot.get() {
+        return Ok(cached.clone_ref(py));
+    }
+    let names = core_version
+        .normalized_categories()
+        .iter()
+        .map(ToString::to_string)
+        .collect::<Vec<_>>();
+    // Creating the tuple may run arbitrary Python code (garbage collection, thread switches), so it
+    // must not happen inside `get_or_init`, which holds the slot's lock. The first tuple stored wins.
+    let tuple = PyTuple::new(py, names)?.unbind();
+    Ok(slot.get_or_init(|| tuple).clone_ref(py))
 }
 
 /// Expand major classes (e.g. ``"N"`` -> ``"Nd"``, ``"Nl"``, ``"No"``) and validate category names.
-- 
2.43.0


From f7fbb8c438ad2d4d354ce9e9910f2f64ffcbd4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 2/4] fix: accept any iterable of category names, as the type
 stub promises

The extraction into Vec<String> took sequences only and reserved memory for whatever length the sequence
claimed: a generator was rejected, and a wrong __len__ made the call panic or abort the process.
---
 crates/unicode-intervals-py/src/lib.rs | 37 +++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/crates/unicode-intervals-py/src/lib.rs b/crates/unicode-intervals-py/src/lib.rs
index 644917b..776907f 100644
--- a/crates/unicode-intervals-py/src/lib.rs
+++ b/crates/unicode-intervals-py/src/lib.rs
@@ -1,4 +1,9 @@
-use pyo3::{exceptions::PyValueError, prelude::*, types::PyTuple, wrap_pyfunction};
+use pyo3::{
+    exceptions::{PyTypeError, PyValueError},
+    prelude::*,
+    types::{PyString, PyTuple},
+    wrap_pyfunction,
+};
 use std::sync::OnceLock;
 use unicode_intervals_core::{UnicodeCategory, UnicodeCategorySet, UnicodeVersion as CoreVersion};
 
@@ -90,12 +95,29 @@ impl PyUnicodeVersion {
     }
 }
 
-fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCategorySet>> {
+/// Collect category names from any iterable of strings; a bare string is rejected.
+///
+/// The items are counted as they arrive: `Vec`'s own extraction takes sequences only and reserves
+/// memory for whatever length the sequence claims to have.
+fn extract_names(names: &Bound<'_, PyAny>) -> PyResult<Vec<String>> {
+    if names.is_instance_of::<PyString>() {
+        return Err(PyTypeError::new_err(
+            "categories must be an iterable of strings, not a string",
+        ));
+    }
+    let mut extracted = Vec::new();
+    for name in names.try_iter()? {
+        extracted.push(name?.extract()?);
+    }
+    Ok(extracted)
+}
+
+fn parse_categories(names: Option<&Bound<'_, PyAny>>) -> PyResult<Option<UnicodeCategorySet>> {
     match names {
         None => Ok(None),
         Some(list) => {
             let mut set = UnicodeCategorySet::new();
-            for name in list {
+            for name in extract_names(list)? {
                 let category: UnicodeCategory = name
                     .parse()
                     .map_err(|_| PyValueError::new_err(format!("Unknown category: {name}")))?;
@@ -118,8 +140,8 @@ fn parse_categories(names: Option<Vec<String>>) -> PyResult<Option<UnicodeCatego
 #[allow(clippy::too_many_arguments)]
 fn query(
     py: Python<'_>,
-    categories: Option<Vec<String>>,
-    exclude_categories: Option<Vec<String>>,
+    categories: Option<&Bound<'_, PyAny>>,
+    exclude_categories: Option<&Bound<'_, PyAny>>,
     min_codepoint: Option<u32>,
     max_codepoint: Option<u32>,
     include_characters: &str,
@@ -172,11 +194,12 @@ fn categories(py: Python<'_>, version: Option<PyUnicodeVersion>) -> PyResult<Py<
 #[pyo3(signature = (categories, version=None))]
 fn as_general_categories(
     py: Python<'_>,
-    categories: Vec<String>,
+    categories: &Bound<'_, PyAny>,
     version: Option<PyUnicodeVersion>,
 ) -> PyResult<Py<PyTuple>> {
     let core_version: CoreVersion = version.map_or_else(CoreVersion::latest, Into::into);
-    let expanded = unicode_intervals_core::as_general_categories(&categories, core_version)
+    let names = extract_names(categories)?;
+    let expanded = unicode_intervals_core::as_general_categories(&names, core_version)
         .map_err(|e| PyValueError::new_err(e.to_string()))?;
     let names: Vec<String> = expanded.iter().map(ToString::to_string).collect();
     Ok(PyTuple::new(py, names)?.into())
-- 
2.43.0


From 5f969b0ab3d7991ffb2dbb24069c565b4f585b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:02 +0000
Subject: [PATCH 3/4] fix: replace the generated table in one step

An interrupted or failed write left a truncated table behind.
---
 generate_tables.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/generate_tables.py b/generate_tables.py
index 94e6f5c..33a3b4b 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -91,8 +91,16 @@ def main() -> None:
     fetch(unicode_version, temp_directory)
     code = ucd_generate(temp_directory)
     code = transform_code(code)
-    with get_output_path(unicode_version).open("wb") as fd:
-        fd.write(code)
+    output_path = get_output_path(unicode_version)
+    # Write next to the output and rename, so that a failed or interrupted run leaves the old table intact
+    temp_path = output_path.with_name(f".{output_path.name}.tmp")
+    try:
+        with temp_path.open("wb") as fd:
+            fd.write(code)
+        temp_path.replace(output_path)
+    except BaseException:
+        temp_path.unlink(missing_ok=True)
+        raise
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 585ca289bb2178c5a1daa58ac331197a81efb2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 4/4] fix: give every run its own temporary table

Two runs for one version wrote to the same temporary file: one could rename the other's unfinished table into place.
---
 generate_tables.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/generate_tables.py b/generate_tables.py
index 33a3b4b..283463f 100644
--- a/generate_tables.py
+++ b/generate_tables.py
@@ -1,3 +1,4 @@
+import os
 import sys
 import tempfile
 import urllib
@@ -93,7 +94,7 @@ def main() -> None:
     code = transform_code(code)
     output_path = get_output_path(unicode_version)
     # Write next to the output and rename, so that a failed or interrupted run leaves the old table intact
-    temp_path = output_path.with_name(f".{output_path.name}.tmp")
+    temp_path = output_path.with_name(f".{output_path.name}.{os.getpid()}.tmp")
     try:
         with temp_path.open("wb") as fd:
             fd.write(code)
-- 
2.43.0

