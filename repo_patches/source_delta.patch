From 7eb16b07c2e9dadf73631ae993d067da2493602f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 01/39] fix: report an error instead of panicking when a
 directory has no entry file

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 0dcfb57..5528a43 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -252,7 +252,8 @@ impl Resolver {
                 };
                 ResolverStats::Error((err_msg, info))
             }
-            _ => unreachable!(),
+            // nothing answered, such as a directory without any entry file.
+            ResolverStats::Resolving(info) => ResolverStats::Error((resolve_err_msg, info)),
         }
     }
 }
-- 
2.43.0


From fb3f011745de38d124327a4caff12494ad338833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 02/39] fix: do not panic on a scope-only request when the
 package has exports

---
 src/plugin/exports_field.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index f7d1214..d253601 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -47,8 +47,9 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 let query = &info.request.query;
                 let fragment = &info.request.fragment;
                 let chars: String = if target.starts_with('@') {
-                    let index = target.find('/').unwrap();
-                    &target[index + 1..]
+                    target
+                        .find('/')
+                        .map_or(&**target, |index| &target[index + 1..])
                 } else {
                     target
                 }
-- 
2.43.0


From 61adb8a215202b384efde921a369ed3d1d2d8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 03/39] fix: split the package name at byte offsets, not at
 character counts

---
 src/resolve.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index f33572a..8b5c5a9 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -50,8 +50,7 @@ impl Resolver {
             // join request part
             let has_namespace_scope = target.starts_with('@');
             let slash_index_list: Vec<usize> = target
-                .chars()
-                .enumerate()
+                .char_indices()
                 .filter(|(_, char)| '/'.eq(char))
                 .map(|(index, _)| index)
                 .collect();
-- 
2.43.0


From b95f649ccd20818d755a6350e8716b2a689e3944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 04/39] fix: do not panic on a true value in the browser field

---
 src/description.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 416468d..5b0d0db 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -58,8 +58,9 @@ impl Resolver {
             if let Some(map) = value.as_object() {
                 for (key, value) in map {
                     if let Some(b) = value.as_bool() {
-                        assert!(!b);
-                        alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        if !b {
+                            alias_fields.insert(key.to_string(), AliasMap::Ignored);
+                        }
                     } else if let Some(s) = value.as_str() {
                         alias_fields.insert(key.to_string(), AliasMap::Target(s.to_string()));
                     }
-- 
2.43.0


From 8b1a8d274099fc8f17f4614d4ad9cf3d7b0e4667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 05/39] fix: report unexpected values in exports and imports
 instead of panicking

---
 src/map.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 8122f31..49ca033 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -119,7 +119,11 @@ pub trait Field {
                         MappingValue::Conditional(conditional) => {
                             temp.push(AvailableMapping::Conditional(conditional))
                         }
-                        _ => panic!("Array mapping is not allowed nested in exports field"),
+                        MappingValue::Array(_) => {
+                            return Err(
+                                "Array mapping is not allowed nested in exports field".to_string()
+                            )
+                        }
                     }
                 }
                 MappingValue::Array(temp)
@@ -131,7 +135,7 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
-            _ => unreachable!(),
+            _ => return Err(format!("Unexpected mapping value {json_value}")),
         };
         Ok(result)
     }
-- 
2.43.0


From f7b4b229fa500404ee682da7dd4c9948078b0abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 06/39] fix: report an imports field that is not an object
 instead of panicking

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 49ca033..3741786 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -366,7 +366,7 @@ impl Field for ImportsField {
     fn build_field_path_tree(imports_field_value: &serde_json::Value) -> RResult<PathTreeNode> {
         let field = match Self::from_json(imports_field_value)? {
             MappingValue::Conditional(field) => field,
-            _ => unreachable!(),
+            _ => return Err("Imports field should be an object".to_string()),
         };
         let mut root = PathTreeNode::default();
         for (key, value) in field {
-- 
2.43.0


From 9080314ea354eaba31a4fd652dea2b410a7dae51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:16 +0000
Subject: [PATCH 07/39] fix: allow a description file to be parsed again after
 a failure or by another thread

---
 src/cache.rs       | 19 -------------------
 src/description.rs | 19 -------------------
 src/lib.rs         |  7 -------
 3 files changed, 45 deletions(-)

diff --git a/src/cache.rs b/src/cache.rs
index 85e0c79..c1900a8 100644
--- a/src/cache.rs
+++ b/src/cache.rs
@@ -11,22 +11,3 @@ pub struct ResolverCache {
     pub exports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
     pub imports_content_to_tree: DashMap<String, Arc<PathTreeNode>>,
 }
-
-#[cfg(debug_assertions)]
-#[derive(Default, Debug, Clone)]
-pub(crate) struct DebugReadMap(DashMap<PathBuf, bool>);
-
-#[cfg(debug_assertions)]
-impl DebugReadMap {
-    pub(crate) fn remove(&self, path: &std::path::Path) {
-        self.0.remove(path);
-    }
-
-    pub(crate) fn contains_key(&self, path: &std::path::Path) -> bool {
-        self.0.contains_key(path)
-    }
-
-    pub(crate) fn insert(&self, path: &std::path::Path, value: bool) {
-        self.0.insert(path.to_path_buf(), value);
-    }
-}
diff --git a/src/description.rs b/src/description.rs
index 5b0d0db..c50d211 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -27,20 +27,6 @@ pub struct PkgFileInfo {
 impl Resolver {
     #[tracing::instrument]
     fn parse_description_file(&self, dir: &Path, file_path: PathBuf) -> RResult<PkgFileInfo> {
-        #[cfg(debug_assertions)]
-        {
-            // ensure that the same package.json is not parsed twice
-            if self.dbg_read_map.contains_key(&file_path) {
-                println!("{:?}", self.cache.file_dir_to_pkg_info);
-                println!("{:?}", self.dbg_read_map);
-                panic!(
-                    "Had try to parse same package.json, {}",
-                    file_path.display()
-                )
-            }
-            self.dbg_read_map.insert(&file_path, true);
-        }
-
         let str = tracing::debug_span!("read_to_string").in_scope(|| {
             self.fs
                 .read_to_string(&file_path)
@@ -184,11 +170,6 @@ impl Resolver {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-                #[cfg(debug_assertions)]
-                {
-                    self.dbg_read_map.remove(&description_file_path);
-                }
-
                 false
             }
         } else {
diff --git a/src/lib.rs b/src/lib.rs
index 5528a43..c8a79bc 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,9 +54,6 @@ mod tsconfig;
 mod tsconfig_path;
 mod utils;
 
-#[cfg(debug_assertions)]
-use cache::DebugReadMap;
-
 pub use cache::ResolverCache;
 pub use description::SideEffects;
 use kind::PathKind;
@@ -75,8 +72,6 @@ pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
-    #[cfg(debug_assertions)]
-    dbg_read_map: DebugReadMap,
 }
 
 pub type ResolverError = String;
@@ -179,8 +174,6 @@ impl Resolver {
             fs,
             cache,
             options,
-            #[cfg(debug_assertions)]
-            dbg_read_map: Default::default(),
         }
     }
 
-- 
2.43.0


From 90c716ad76c93ef67088a7f52f1b2a79c28ac58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 08/39] fix: do not store the tree of an imports field in the
 cache of exports fields

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index c50d211..bfb6129 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -77,7 +77,7 @@ impl Resolver {
                 Some(tree.clone())
             } else {
                 let tree = Arc::new(ImportsField::build_field_path_tree(value)?);
-                self.cache.exports_content_to_tree.insert(key, tree.clone());
+                self.cache.imports_content_to_tree.insert(key, tree.clone());
                 Some(tree)
             }
         } else {
-- 
2.43.0


From e1ffba151a00aa56643a3e5cce7cd1ac23f8e124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 09/39] fix: do not loop forever when an ancestor of the path
 is not a directory

---
 src/description.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index bfb6129..67abaa5 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -185,18 +185,14 @@ impl Resolver {
             } else {
                 // it means all paths during from the `path` to root pointed None.
                 // cache it
-                let mut path = path;
-                loop {
+                for path in path.ancestors() {
                     if path.is_dir() {
                         self.cache
                             .file_dir_to_pkg_info
                             .insert(path.to_path_buf(), None);
-                        match path.parent() {
-                            Some(parent) => path = parent,
-                            None => return Ok(None),
-                        }
                     }
                 }
+                return Ok(None);
             }
         }
 
-- 
2.43.0


From c9a8af8da32873168361ba3ed5a97daba87ab9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 10/39] fix: a path without any existing ancestor has no
 description file

---
 src/description.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 67abaa5..6559acd 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -158,7 +158,7 @@ impl Resolver {
         if !path.is_dir() {
             return match path.parent() {
                 Some(dir) => self.load_pkg_file(dir),
-                None => Err(Resolver::raise_tag()),
+                None => Ok(None),
             };
         }
 
-- 
2.43.0


From 92c86845a08560595d6d50be42dbd744c0e3559e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 11/39] fix: record the modified time of a file before reading
 its content

---
 src/fs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fs.rs b/src/fs.rs
index 2d67760..8fd590a 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -54,11 +54,12 @@ impl CacheFile {
 
     #[tracing::instrument]
     pub fn read_to_string<P: AsRef<Path> + Debug>(&self, path: P) -> RResult<Arc<String>> {
+        // the time should be known before reading, or a change between them would be missed.
+        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
         let str = Arc::new(
             fs::read_to_string(path.as_ref())
                 .map_err(|_| format!("Open {} failed", path.as_ref().display()))?,
         );
-        let last_modified_time = Self::get_last_modified_time_from_file(path.as_ref())?;
         self.cached_file.insert(
             path.as_ref().to_path_buf(),
             (str.clone(), last_modified_time),
-- 
2.43.0


From 1ed2dcecd00730c83c5eeb7e1ea1f5339f7760c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 12/39] fix: read a file again when it was replaced by an older
 one

---
 src/fs.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/fs.rs b/src/fs.rs
index 8fd590a..ed41b57 100644
--- a/src/fs.rs
+++ b/src/fs.rs
@@ -42,12 +42,10 @@ impl CacheFile {
             .get(path.as_ref())
             .map(|value| value.1)
             .map(|stored_last_modify_time| -> RResult<bool> {
-                let duration = Self::get_last_modified_time_from_file(path.as_ref())?
+                Ok(Self::get_last_modified_time_from_file(path.as_ref())?
                     .duration_since(stored_last_modify_time)
-                    .map_err(|_| {
-                        format!("Compare SystemTime failed in {}", path.as_ref().display())
-                    })?;
-                Ok(duration >= self.duration)
+                    // an older file took its place.
+                    .map_or(true, |duration| duration >= self.duration))
             })
             .map_or(Ok(true), |val| val)
     }
-- 
2.43.0


From d944c1ec88bd706e84366de4e9b158ed3e335e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:18 +0000
Subject: [PATCH 13/39] fix: assert/strict is a built-in module

---
 src/kind.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kind.rs b/src/kind.rs
index 102dbe3..b165bc9 100644
--- a/src/kind.rs
+++ b/src/kind.rs
@@ -29,7 +29,7 @@ const BUILT_IN_MODULE_SET: Set<&'static str> = phf_set! {
    "_tls_common",
    "_tls_wrap",
    "assert",
-   "assert/,strict",
+   "assert/strict",
    "async_hooks",
    "buffer",
    "child_process",
-- 
2.43.0


From 895b348a1bdb392be1dd670201c36472230e4a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 14/39] fix: do not reuse the info of a description file that
 was removed

---
 src/description.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/description.rs b/src/description.rs
index 6559acd..9baf279 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -166,7 +166,10 @@ impl Resolver {
         let description_file_path = path.join(description_file_name);
         let need_find_up = if let Some(r#ref) = self.cache.file_dir_to_pkg_info.get(path) {
             // if pkg_info_cache contain this key
-            if !self.fs.need_update(&description_file_path)? {
+            if r#ref.is_some() && !description_file_path.is_file() {
+                // but the file was removed
+                true
+            } else if !self.fs.need_update(&description_file_path)? {
                 // and not modified, then return
                 return Ok(r#ref.clone());
             } else {
-- 
2.43.0


From 28e1dff6791b9dcd1ee9e6846bc2d834cb226769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 15/39] fix: report unexpected values in tsconfig instead of
 panicking

---
 src/tsconfig.rs | 35 +++++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 14 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 04901bf..785c452 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -20,28 +20,35 @@ pub struct CompilerOptions {
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
         let json = parse_file_to_value(location, resolver)?;
-        let compiler_options = json.get("compilerOptions").map(|options| {
+        let unexpected = |name: &str| format!("Unexpected {name} in {}", location.display());
+        let compiler_options = if let Some(options) = json.get("compilerOptions") {
             // TODO: should optimized
-            let base_url = options
-                .get("baseUrl")
-                .map(|v| v.as_str().unwrap().to_string());
-            let paths = options.get("paths").map(|v| {
+            let base_url = match options.get("baseUrl") {
+                Some(v) => Some(v.as_str().ok_or_else(|| unexpected("baseUrl"))?.to_string()),
+                None => None,
+            };
+            let paths = if let Some(v) = options.get("paths") {
                 let mut map = HashMap::new();
                 // TODO: should optimized
-                for (key, obj) in v.as_object().unwrap() {
+                for (key, obj) in v.as_object().ok_or_else(|| unexpected("paths"))? {
                     map.insert(
                         key.to_string(),
                         obj.as_array()
-                            .unwrap()
+                            .ok_or_else(|| unexpected("paths"))?
                             .iter()
-                            .map(|v| v.as_str().unwrap().to_string())
-                            .collect(),
+                            .map(|v| v.as_str().map(|s| s.to_string()))
+                            .collect::<Option<Vec<String>>>()
+                            .ok_or_else(|| unexpected("paths"))?,
                     );
                 }
-                map
-            });
-            CompilerOptions { base_url, paths }
-        });
+                Some(map)
+            } else {
+                None
+            };
+            Some(CompilerOptions { base_url, paths })
+        } else {
+            None
+        };
         let extends: Option<String> = json.get("extends").map(|v| v.to_string());
         Ok(TsConfig {
             extends,
@@ -55,7 +62,7 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
         .map_err(|err| format!("Parse {} failed. Error: {err}", location.display()))?
-        .unwrap_or_else(|| panic!("Transfer {} to serde value failed", location.display()));
+        .ok_or_else(|| format!("Parse {} failed. Error: it is empty", location.display()))?;
 
     // merge `extends`.
     if let serde_json::Value::String(s) = &json["extends"] {
-- 
2.43.0


From b6ca00efcec5eaadf1604b2e56731578b3de11d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 16/39] fix: match a tsconfig pattern without slicing inside a
 character

---
 src/tsconfig_path.rs | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7a43b55..07541c6 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -55,17 +55,10 @@ impl Resolver {
         if pattern == "*" {
             return Some(search);
         }
-        pattern.find(|c| c == '*').and_then(|star_index| {
-            let part1 = &pattern[..star_index];
-            let part2 = &pattern[star_index + 1..];
-            if &search[0..star_index] != part1 {
-                return None;
-            }
-            if &search[search.len() - part2.len()..] != part2 {
-                return None;
-            }
-            let len = search.len() - part2.len() - part1.len();
-            Some(&search[star_index..star_index + len])
+        pattern.split_once('*').and_then(|(prefix, suffix)| {
+            search
+                .strip_prefix(prefix)
+                .and_then(|rest| rest.strip_suffix(suffix))
         })
     }
 
-- 
2.43.0


From b3a4658461b348e9cb8abc7c5328933237c15b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 17/39] fix: keep the query and the fragment of a request
 mapped by tsconfig paths

---
 src/tsconfig_path.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 07541c6..7aea032 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -109,7 +109,13 @@ impl Resolver {
                     .replace('*', star_match);
 
                 let path = PathBuf::from(physical_path);
-                let result = self._resolve(ResolveInfo::from(path, Request::empty()));
+                // the path replaced the target, but not the query and the fragment.
+                let request = Request {
+                    query: info.request.query.clone(),
+                    fragment: info.request.fragment.clone(),
+                    ..Request::empty()
+                };
+                let result = self._resolve(ResolveInfo::from(path, request));
                 if result.is_success() {
                     return result;
                 }
-- 
2.43.0


From 2557de28202fa5e5fe6bbb819b8743506af84b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 18/39] fix: try tsconfig paths in an order that is the same on
 every run

---
 src/tsconfig_path.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index 7aea032..cdb2eb5 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -89,8 +89,10 @@ impl Resolver {
             Ok(tsconfig) => tsconfig,
             Err(error) => return ResolverStats::Error((error, info)),
         };
-        let absolute_path_mappings =
+        let mut absolute_path_mappings =
             Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
+        // the order in `paths` is unknown, so the longest pattern goes first.
+        absolute_path_mappings.sort_by(|a, b| b.pattern.cmp(&a.pattern));
 
         for entry in absolute_path_mappings {
             let star_match = if entry.pattern == info.request.target {
-- 
2.43.0


From cb62d617eca48e69107e09b2199bc0119a3da3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 19/39] fix: try the keys of the browser field in the order
 they are written

---
 src/description.rs        | 6 +++---
 src/plugin/alias_field.rs | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index 9baf279..d8e2883 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -1,6 +1,6 @@
 use crate::map::{ExportsField, Field, ImportsField, PathTreeNode};
 use crate::{AliasMap, RResult, Resolver};
-use std::collections::HashMap;
+use indexmap::IndexMap;
 use std::path::{Path, PathBuf};
 use std::sync::Arc;
 
@@ -17,7 +17,7 @@ pub struct PkgFileInfo {
     pub abs_dir_path: PathBuf,
     pub name: Option<String>,
     pub version: Option<String>,
-    pub alias_fields: HashMap<String, AliasMap>,
+    pub alias_fields: IndexMap<String, AliasMap>,
     pub exports_field_tree: Option<Arc<PathTreeNode>>,
     pub imports_field_tree: Option<Arc<PathTreeNode>>,
     pub side_effects: Option<SideEffects>,
@@ -38,7 +38,7 @@ impl Resolver {
                     .map_err(|_| format!("Parse {} failed", file_path.display()))
             })?;
 
-        let mut alias_fields = HashMap::new();
+        let mut alias_fields = IndexMap::new();
 
         if let Some(value) = json.get("browser") {
             if let Some(map) = value.as_object() {
diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 425049d..8202e69 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -1,6 +1,7 @@
 use crate::{description::PkgFileInfo, AliasMap, Resolver};
 use std::sync::Arc;
-use std::{collections::HashMap, path::PathBuf};
+use indexmap::IndexMap;
+use std::path::PathBuf;
 
 use super::Plugin;
 use crate::{PathKind, ResolveInfo, ResolveResult, ResolverStats};
@@ -17,7 +18,7 @@ impl<'a> AliasFieldPlugin<'a> {
     pub(super) fn deal_with_alias_fields_recursive(
         &self,
         target: &AliasMap,
-        alias_fields: &HashMap<String, AliasMap>,
+        alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
         match target {
             AliasMap::Target(target) => {
-- 
2.43.0


From ffe8e6bb94f9fb47fe585cb9ab2c62999306d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 20/39] fix: stop following a browser field whose entries form
 a cycle

---
 src/plugin/alias_field.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/plugin/alias_field.rs b/src/plugin/alias_field.rs
index 8202e69..fc10a82 100644
--- a/src/plugin/alias_field.rs
+++ b/src/plugin/alias_field.rs
@@ -20,16 +20,18 @@ impl<'a> AliasFieldPlugin<'a> {
         target: &AliasMap,
         alias_fields: &IndexMap<String, AliasMap>,
     ) -> AliasMap {
-        match target {
-            AliasMap::Target(target) => {
-                if let Some(next) = alias_fields.get(target) {
-                    self.deal_with_alias_fields_recursive(next, alias_fields)
-                } else {
-                    AliasMap::Target(target.clone())
-                }
+        let mut target = target;
+        // a chain longer than the count of fields must be a cycle.
+        for _ in 0..alias_fields.len() {
+            match target {
+                AliasMap::Target(key) => match alias_fields.get(key) {
+                    Some(next) => target = next,
+                    None => break,
+                },
+                AliasMap::Ignored => break,
             }
-            AliasMap::Ignored => AliasMap::Ignored,
         }
+        target.clone()
     }
 
     pub(super) fn request_target_is_module_and_equal_alias_key(
-- 
2.43.0


From 28ec9c721378aad4fba5a1b4a08c8c9aaa03471c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:19 +0000
Subject: [PATCH 21/39] fix: stop following alias options that form a cycle

---
 src/parse.rs        | 11 +++++++++++
 src/plugin/alias.rs | 12 ++++++++++--
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a03f701..a67dc2e 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -9,6 +9,8 @@ pub struct Request {
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
+    /// How many times it was replaced by `alias` or by the imports field.
+    pub(crate) depth: usize,
 }
 
 impl std::fmt::Display for Request {
@@ -24,6 +26,7 @@ impl Request {
             query: "".into(),
             fragment: "".into(),
             kind: PathKind::Relative,
+            depth: 0,
         }
     }
 
@@ -66,6 +69,13 @@ impl Request {
         (target, query, fragment)
     }
 
+    /// Upper bound of `depth`, it means a cycle when reached.
+    pub(crate) const MAX_DEPTH: usize = 10;
+
+    pub(crate) fn with_depth(self, depth: usize) -> Self {
+        Self { depth, ..self }
+    }
+
     pub(crate) fn with_target(self, target: &str) -> Self {
         Self {
             kind: Resolver::get_target_kind(target),
@@ -83,6 +93,7 @@ impl Resolver {
             target: target.into(),
             query: query.into(),
             fragment: fragment.into(),
+            depth: 0,
         }
     }
 }
diff --git a/src/plugin/alias.rs b/src/plugin/alias.rs
index 316222f..aee21dd 100644
--- a/src/plugin/alias.rs
+++ b/src/plugin/alias.rs
@@ -1,4 +1,4 @@
-use crate::{options::AliasMap, Resolver, MODULE};
+use crate::{options::AliasMap, parse::Request, Resolver, MODULE};
 
 use super::Plugin;
 use crate::{ResolveInfo, ResolveResult, ResolverStats};
@@ -21,10 +21,18 @@ impl Plugin for AliasPlugin {
                             // skip `target.starts_with(&format("{to}"))` to prevent infinite loop.
                             continue;
                         }
+                        if info.request.depth >= Request::MAX_DEPTH {
+                            // `alias` contains a cycle.
+                            continue;
+                        }
+                        let depth = info.request.depth + 1;
                         let normalized_target = inner_target.replacen(from, to, 1);
                         let alias_info = ResolveInfo::from(
                             info.path.to_path_buf(),
-                            info.request.clone().with_target(&normalized_target),
+                            info.request
+                                .clone()
+                                .with_target(&normalized_target)
+                                .with_depth(depth),
                         );
                         let stats = resolver._resolve(alias_info);
                         if stats.is_success() {
-- 
2.43.0


From b3ae658cdd6cef5074266681d3f7503f4dfa6bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 22/39] fix: stop following an imports field whose entries form
 a cycle

---
 src/plugin/exports_field.rs |  2 +-
 src/plugin/imports_field.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index d253601..3e7d549 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -91,7 +91,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
             };
 
             for item in list {
-                let request = resolver.parse(&item);
+                let request = resolver.parse(&item).with_depth(info.request.depth);
                 let info = ResolveInfo::from(pkg_info.abs_dir_path.to_path_buf(), request);
 
                 if info.get_path().is_file() && ExportsField::check_target(&info.request.target) {
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index e1dcbdb..964f290 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -1,6 +1,8 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, plugin::ExportsFieldPlugin, Resolver, MODULE};
+use crate::{
+    description::PkgFileInfo, parse::Request, plugin::ExportsFieldPlugin, Resolver, MODULE,
+};
 
 use super::{AliasFieldPlugin, Plugin};
 use crate::{
@@ -43,8 +45,16 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             };
 
+            if info.request.depth >= Request::MAX_DEPTH {
+                return ResolverStats::Error((
+                    format!("Package path {target} is mapped in a cycle"),
+                    info,
+                ));
+            }
+
             if let Some(item) = list.first() {
-                let request = resolver.parse(item);
+                let depth = info.request.depth + 1;
+                let request = resolver.parse(item).with_depth(depth);
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(
-- 
2.43.0


From 6a842f3fff6642b63561013b42ebb34e1620c3a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 23/39] fix: keep the query and the fragment of a request
 mapped by the imports field

---
 src/plugin/imports_field.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 964f290..15bcc65 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -54,7 +54,11 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
 
             if let Some(item) = list.first() {
                 let depth = info.request.depth + 1;
-                let request = resolver.parse(item).with_depth(depth);
+                let mut request = resolver.parse(item).with_depth(depth);
+                if request.query.is_empty() && request.fragment.is_empty() {
+                    request.query = info.request.query.clone();
+                    request.fragment = info.request.fragment.clone();
+                }
                 let is_normal_kind = matches!(request.kind, PathKind::Normal);
                 let is_internal_kind = matches!(request.kind, PathKind::Internal);
                 let info = ResolveInfo::from(
-- 
2.43.0


From f58f2ddbfa0eded7b1aa6306cbdd3bdf6f1d398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 24/39] fix: report tsconfig files that extend each other in a
 cycle

---
 src/tsconfig.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/tsconfig.rs b/src/tsconfig.rs
index 785c452..ce58586 100644
--- a/src/tsconfig.rs
+++ b/src/tsconfig.rs
@@ -19,7 +19,7 @@ pub struct CompilerOptions {
 
 impl TsConfig {
     pub fn parse_file(location: &Path, resolver: &Resolver) -> RResult<TsConfig> {
-        let json = parse_file_to_value(location, resolver)?;
+        let json = parse_file_to_value(location, resolver, 0)?;
         let unexpected = |name: &str| format!("Unexpected {name} in {}", location.display());
         let compiler_options = if let Some(options) = json.get("compilerOptions") {
             // TODO: should optimized
@@ -57,7 +57,17 @@ impl TsConfig {
     }
 }
 
-fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_json::Value> {
+/// Upper bound of the length of an `extends` chain, it means a cycle when reached.
+const MAX_EXTENDS_DEPTH: usize = 100;
+
+fn parse_file_to_value(
+    location: &Path,
+    resolver: &Resolver,
+    depth: usize,
+) -> RResult<serde_json::Value> {
+    if depth >= MAX_EXTENDS_DEPTH {
+        return Err(format!("{} is extended in a cycle", location.display()));
+    }
     let json_str =
         read_to_string(location).map_err(|_| format!("Open {} failed", location.display()))?;
     let mut json: serde_json::Value = jsonc_parser::parse_to_serde_value(&json_str)
@@ -72,7 +82,9 @@ fn parse_file_to_value(location: &Path, resolver: &Resolver) -> RResult<serde_js
         // Is it better to use cache?
         if let ResolverStats::Success(result) = stats {
             let extends_tsconfig_json = match result {
-                ResolveResult::Info(info) => parse_file_to_value(&info.get_path(), resolver),
+                ResolveResult::Info(info) => {
+                    parse_file_to_value(&info.get_path(), resolver, depth + 1)
+                }
                 ResolveResult::Ignored => {
                     return Err(format!("{s} had been ignored in {}", location.display()))
                 }
-- 
2.43.0


From 52e9c17269ca8ebdf5b8fd70bf249a5ccba66830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 25/39] fix: an imports target can not be an absolute path
 outside of the package

---
 src/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 3741786..6bd0826 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -81,6 +81,9 @@ pub struct PathTreeNode {
 ///  `build_field_path_tree` and `field_process`.
 pub trait Field {
     fn check_target(relative_path: &str) -> bool {
+        if relative_path.starts_with('/') {
+            return false;
+        }
         let relative_path = relative_path.chars().collect::<Vec<char>>();
         let slash_index_list = PathTreeNode::get_next_list(&relative_path, '/');
         let mut last_non_slash_index = 0;
-- 
2.43.0


From 0e76404c2aba8f4998b3757821bea70966024a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:21 +0000
Subject: [PATCH 26/39] fix: do not damage a path that is not valid UTF-8

---
 src/lib.rs       | 9 +++------
 src/normalize.rs | 6 +++---
 src/resolve.rs   | 4 +++-
 3 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c8a79bc..65b1cd7 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -105,12 +105,9 @@ impl ResolveInfo {
     }
 
     pub fn join(&self) -> PathBuf {
-        let buf = format!(
-            "{}{}{}",
-            self.path.display(),
-            self.request.query,
-            self.request.fragment,
-        );
+        let mut buf = self.path.as_os_str().to_os_string();
+        buf.push(&*self.request.query);
+        buf.push(&*self.request.fragment);
         PathBuf::from(buf)
     }
 }
diff --git a/src/normalize.rs b/src/normalize.rs
index 018324b..c7e64f4 100644
--- a/src/normalize.rs
+++ b/src/normalize.rs
@@ -4,8 +4,8 @@ use crate::{RResult, ResolveResult, Resolver};
 
 impl Resolver {
     #[cfg(not(target_os = "windows"))]
-    fn adjust(p: PathBuf) -> String {
-        p.display().to_string()
+    fn adjust(p: PathBuf) -> PathBuf {
+        p
     }
 
     /// Eliminate `\\?\` prefix in windows.
@@ -41,7 +41,7 @@ impl Resolver {
         if self.options.symlinks {
             Path::canonicalize(path)
                 .map_err(|_| "Path normalized failed".to_string())
-                .map(|result| PathBuf::from(Self::adjust(result)))
+                .map(|result| Self::adjust(result).into())
         } else {
             Ok(Self::normalize_path_without_link(path))
         }
diff --git a/src/resolve.rs b/src/resolve.rs
index 8b5c5a9..03dd807 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -11,7 +11,9 @@ use crate::{PathKind, ResolveInfo, ResolveResult, Resolver, ResolverStats, MODUL
 
 impl Resolver {
     pub(crate) fn append_ext_for_path(path: &Path, ext: &str) -> PathBuf {
-        PathBuf::from(&format!("{}{ext}", path.display()))
+        let mut path = path.as_os_str().to_os_string();
+        path.push(ext);
+        PathBuf::from(path)
     }
 
     #[tracing::instrument]
-- 
2.43.0


From f33f9819fb0043277accefac6054f3e65d3786b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 27/39] fix: count the characters of a wildcard key, since the
 request is a list of characters

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 6bd0826..bc7778c 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -429,7 +429,7 @@ impl PathTreeNode {
         if let Some(map) = &node.wildcards {
             for (key, target) in map {
                 if remaining_request.starts_with(key) {
-                    let index = (last_non_slash_index + key.len()) as i32;
+                    let index = (last_non_slash_index + key.chars().count()) as i32;
                     if last_folder_match.is_none() || last_folder_match.unwrap().1 < index {
                         last_folder_match = Some((target, index));
                     }
-- 
2.43.0


From 65b42b2024fe857fb414a459f3271bfe291ae874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:55 +0000
Subject: [PATCH 28/39] fix: an exact key in a nested folder leaves nothing to
 substitute

---
 src/map.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index bc7778c..3fc2830 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -493,7 +493,7 @@ impl PathTreeNode {
             .iter()
             .collect::<String>();
             if let Some(value) = node.files.get(&remaining_request) {
-                Some((value, (remaining_request.len() + 1) as i32))
+                Some((value, (request.len() + 1) as i32))
             } else {
                 Self::apply_wildcard_mappings(
                     Self::apply_folder_mapping(last_folder_match, node, last_non_slash_index),
-- 
2.43.0


From 76283f98aedb659e98a98a0366cac39e0fa4bb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 29/39] fix: a null target excludes a path from the exports

---
 src/map.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map.rs b/src/map.rs
index 3fc2830..590e73f 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -138,6 +138,8 @@ pub trait Field {
                 }
                 MappingValue::Conditional(map)
             }
+            // it excludes the path.
+            serde_json::Value::Null => MappingValue::Array(vec![]),
             _ => return Err(format!("Unexpected mapping value {json_value}")),
         };
         Ok(result)
-- 
2.43.0


From 89cfa1451620bcbe34c56ace66b55a62829f52ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:36 +0000
Subject: [PATCH 30/39] fix: a module folder without entry file keeps the
 request for the parent folders

---
 src/resolve.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/resolve.rs b/src/resolve.rs
index 03dd807..ebd9475 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -105,6 +105,8 @@ impl Resolver {
                             ResolverStats::Error((error, err_info))
                         }
                     }
+                    // nothing answered, such as a directory without any entry file.
+                    ResolverStats::Resolving(_) => ResolverStats::Resolving(info),
                     _ => stats,
                 }
             }
-- 
2.43.0


From a6ff7b28a15386b7cca5c414977c0ca6b9866be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:55 +0000
Subject: [PATCH 31/39] fix: every main field and main file starts from the
 directory itself

---
 src/lib.rs               | 8 --------
 src/plugin/main_field.rs | 9 ++++-----
 src/plugin/main_file.rs  | 7 +++----
 3 files changed, 7 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 65b1cd7..738ce21 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -136,14 +136,6 @@ impl ResolverStats {
     pub fn is_success(&self) -> bool {
         matches!(self, ResolverStats::Success(_))
     }
-
-    pub fn extract_info(self) -> ResolveInfo {
-        match self {
-            ResolverStats::Resolving(info) => info,
-            ResolverStats::Error((_, info)) => info,
-            _ => unreachable!(),
-        }
-    }
 }
 
 pub(crate) static MODULE: &str = "node_modules";
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index a68c6a7..5c434dc 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -21,8 +21,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            let mut main_field_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
-
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +32,10 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                         break;
                     }
 
-                    main_field_info = if main_field.starts_with("./") {
+                    // every field starts from this directory, whatever the previous one did.
+                    let main_field_info =
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                    let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
                         main_field_info.with_target(&format!("./{main_field}"))
@@ -47,8 +48,6 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     if stats.is_success() {
                         return stats;
-                    } else {
-                        main_field_info = stats.extract_info();
                     }
                 }
             }
diff --git a/src/plugin/main_file.rs b/src/plugin/main_file.rs
index 85a0789..0e52685 100644
--- a/src/plugin/main_file.rs
+++ b/src/plugin/main_file.rs
@@ -18,9 +18,10 @@ impl<'a> MainFilePlugin<'a> {
 
 impl<'a> Plugin for MainFilePlugin<'a> {
     fn apply(&self, resolver: &Resolver, info: ResolveInfo) -> ResolverStats {
-        let mut main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone());
         for main_file in &resolver.options.main_files {
-            main_file_info = main_file_info.with_target(&format!("./{main_file}"));
+            // every file starts from this directory, whatever the previous one did.
+            let main_file_info = ResolveInfo::from(info.path.to_owned(), info.request.clone())
+                .with_target(&format!("./{main_file}"));
             let stats = ExportsFieldPlugin::new(self.pkg_info)
                 .apply(resolver, main_file_info)
                 .and_then(|info| ImportsFieldPlugin::new(self.pkg_info).apply(resolver, info))
@@ -28,8 +29,6 @@ impl<'a> Plugin for MainFilePlugin<'a> {
                 .and_then(|info| resolver.resolve_as_file(info));
             if stats.is_success() {
                 return stats;
-            } else {
-                main_file_info = stats.extract_info();
             }
         }
         ResolverStats::Resolving(info)
-- 
2.43.0


From 111f91f4b72d4d489086a2964f901d897e13ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 32/39] fix: bound the chain of main fields which point to each
 other

---
 src/parse.rs             |  2 +-
 src/plugin/main_field.rs | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/parse.rs b/src/parse.rs
index a67dc2e..3ab26aa 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -9,7 +9,7 @@ pub struct Request {
     pub query: SmolStr,
     pub fragment: SmolStr,
     pub(crate) kind: PathKind,
-    /// How many times it was replaced by `alias` or by the imports field.
+    /// How many times it was replaced by `alias`, by the imports field or by a main field.
     pub(crate) depth: usize,
 }
 
diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index 5c434dc..c20e3d3 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, Resolver};
+use crate::{description::PkgFileInfo, parse::Request, Resolver};
 
 use super::{AliasFieldPlugin, Plugin, ResolveInfo, ResolverStats};
 
@@ -21,6 +21,12 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
+            if info.request.depth >= Request::MAX_DEPTH {
+                // the main fields of some folders point to each other.
+                return ResolverStats::Resolving(info);
+            }
+            let depth = info.request.depth + 1;
+
             for user_main_field in &resolver.options.main_fields {
                 if let Some(main_field) = pkg_info
                     .raw
@@ -34,7 +40,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
 
                     // every field starts from this directory, whatever the previous one did.
                     let main_field_info =
-                        ResolveInfo::from(info.path.to_owned(), info.request.clone());
+                        ResolveInfo::from(info.path.to_owned(), info.request.clone().with_depth(depth));
                     let main_field_info = if main_field.starts_with("./") {
                         main_field_info.with_target(main_field)
                     } else {
-- 
2.43.0


From e4929693c8ee5d86653775429e4ac9294f193670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:23 +0000
Subject: [PATCH 33/39] fix: an empty segment of a target does not lead into a
 folder

---
 src/map.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/map.rs b/src/map.rs
index 590e73f..93b84ef 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -96,7 +96,10 @@ pub trait Field {
                 if cd < 0 {
                     return false;
                 }
-            } else if relative_path[last_non_slash_index] == '.' {
+            } else if relative_path[last_non_slash_index] == '.'
+                || slash_index == last_non_slash_index
+            {
+                // `.` and an empty segment stay in the same folder.
             } else {
                 cd += 1;
             }
-- 
2.43.0


From 0e1d36a37cbf1abde092049bc28bb5cd6c1ebcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:09 +0000
Subject: [PATCH 34/39] fix: a dollar sign of a request is not doubled by a
 wildcard target

---
 src/map.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/map.rs b/src/map.rs
index 93b84ef..f1dcd96 100644
--- a/src/map.rs
+++ b/src/map.rs
@@ -159,11 +159,7 @@ pub trait Field {
                 (true, true) => Ok(format!("{target}{request}")),
                 (true, false) => Err(format!("Expected {target} is folder mapping")),
                 (false, true) => Err(format!("Expected {target} is file mapping")),
-                (false, false) => {
-                    let request = remaining_request.as_ref().unwrap();
-                    let to = &request.replace('$', "$$");
-                    Ok(target.replace('*', to))
-                }
+                (false, false) => Ok(target.replace('*', request)),
             }
         } else if !is_folder {
             Ok(target.to_string())
-- 
2.43.0


From 5bcbd5dcd4c891eb9172f321e1d3b5250a956a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:58 +0000
Subject: [PATCH 35/39] fix: a package.json which can not be parsed any more
 does not leave its former description behind

---
 src/description.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/description.rs b/src/description.rs
index d8e2883..53ebfff 100644
--- a/src/description.rs
+++ b/src/description.rs
@@ -199,9 +199,14 @@ impl Resolver {
             }
         }
 
-        let pkg_info = Some(Arc::new(
-            self.parse_description_file(path, description_file_path)?,
-        ));
+        let pkg_info = match self.parse_description_file(path, description_file_path) {
+            Ok(pkg_info) => Some(Arc::new(pkg_info)),
+            Err(err) => {
+                // the file was read, so what it was before should not be used any more.
+                self.cache.file_dir_to_pkg_info.remove(path);
+                return Err(err);
+            }
+        };
 
         self.cache
             .file_dir_to_pkg_info
-- 
2.43.0


From e2396b4b93c2541564a5e35f6ff68e7ac32990cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:56 +0000
Subject: [PATCH 36/39] fix: a main field which points to its own directory
 does not hide the next main fields

---
 src/plugin/main_field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/plugin/main_field.rs b/src/plugin/main_field.rs
index c20e3d3..445e8a1 100644
--- a/src/plugin/main_field.rs
+++ b/src/plugin/main_field.rs
@@ -35,7 +35,7 @@ impl<'a> Plugin for MainFieldPlugin<'a> {
                 {
                     if main_field == "." || main_field == "./" {
                         // if it pointed to itself.
-                        break;
+                        continue;
                     }
 
                     // every field starts from this directory, whatever the previous one did.
-- 
2.43.0


From c4c74f4db28cddabb711a4c319fe21053b3b5aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:19 +0000
Subject: [PATCH 37/39] fix: keep the directory of a tsconfig path mapping as
 it is

---
 src/tsconfig_path.rs | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/tsconfig_path.rs b/src/tsconfig_path.rs
index cdb2eb5..b8cae24 100644
--- a/src/tsconfig_path.rs
+++ b/src/tsconfig_path.rs
@@ -62,6 +62,17 @@ impl Resolver {
         })
     }
 
+    /// Only the text below `base_dir` was written in `paths`, the directory itself maybe
+    /// contains '*' or is not even valid UTF-8.
+    fn fill_star(path: &Path, base_dir: &Path, star_match: &str) -> PathBuf {
+        let fill = |path: &Path| path.to_str().map(|path| path.replace('*', star_match));
+        match path.strip_prefix(base_dir) {
+            Ok(below) if !below.has_root() => fill(below).map(|below| base_dir.join(format!("./{below}"))),
+            _ => fill(path).map(PathBuf::from),
+        }
+        .unwrap_or_else(|| path.to_path_buf())
+    }
+
     fn create_match_list(
         location: &Path,
         base_url: &Option<String>,
@@ -91,6 +102,10 @@ impl Resolver {
         };
         let mut absolute_path_mappings =
             Resolver::create_match_list(location, &tsconfig.base_url, &tsconfig.paths);
+        let base_dir = location
+            .parent()
+            .unwrap()
+            .join(tsconfig.base_url.as_deref().unwrap_or_default());
         // the order in `paths` is unknown, so the longest pattern goes first.
         absolute_path_mappings.sort_by(|a, b| b.pattern.cmp(&a.pattern));
 
@@ -105,12 +120,7 @@ impl Resolver {
             };
 
             for physical_path_pattern in &entry.paths {
-                let physical_path = &physical_path_pattern
-                    .display()
-                    .to_string()
-                    .replace('*', star_match);
-
-                let path = PathBuf::from(physical_path);
+                let path = Self::fill_star(physical_path_pattern, &base_dir, star_match);
                 // the path replaced the target, but not the query and the fragment.
                 let request = Request {
                     query: info.request.query.clone(),
-- 
2.43.0


From da837bd9a985a825921e82f21202f54da610c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:12 +0000
Subject: [PATCH 38/39] fix: the default resolver reads an unchanged
 description again for every request

The derived Default left the resolution of the cache at zero, so every
cached description counted as changed.
---
 src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 738ce21..8d09782 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -67,13 +67,19 @@ use std::{
 
 use crate::utils::RAISE_RESOLVE_ERROR_TAG;
 
-#[derive(Default, Debug)]
+#[derive(Debug)]
 pub struct Resolver {
     pub options: ResolverOptions,
     cache: Arc<ResolverCache>,
     fs: fs::CacheFile,
 }
 
+impl Default for Resolver {
+    fn default() -> Self {
+        Self::new(ResolverOptions::default())
+    }
+}
+
 pub type ResolverError = String;
 
 #[derive(Debug, Clone)]
-- 
2.43.0


From 8bfe0c9aa332eccd31814f486945019941deae00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:00:05 +0000
Subject: [PATCH 39/39] fix: the exports field of another package than the
 requested one answers

A package.json deeper inside the package, one of the folder around a
package without a description, or one whose name is only a beginning of
the request were asked in place of the package that the request names.
---
 src/plugin/exports_field.rs | 14 +++++++------
 src/plugin/imports_field.rs |  8 +++++++-
 src/resolve.rs              | 41 ++++++++++++++++++++-----------------
 3 files changed, 37 insertions(+), 26 deletions(-)

diff --git a/src/plugin/exports_field.rs b/src/plugin/exports_field.rs
index 3e7d549..5f85c1e 100644
--- a/src/plugin/exports_field.rs
+++ b/src/plugin/exports_field.rs
@@ -1,6 +1,6 @@
 use std::sync::Arc;
 
-use crate::{description::PkgFileInfo, kind::PathKind, Resolver, MODULE};
+use crate::{description::PkgFileInfo, kind::PathKind, Resolver};
 
 use super::Plugin;
 use crate::{
@@ -17,16 +17,18 @@ impl<'a> ExportsFieldPlugin<'a> {
         Self { pkg_info }
     }
 
-    fn is_in_module(&self, pkg_info: &PkgFileInfo) -> bool {
-        pkg_info.abs_dir_path.to_string_lossy().contains(MODULE)
+    /// the request names the package in this directory.
+    fn is_in_module(&self, pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
+        pkg_info.abs_dir_path == info.path.join(Resolver::module_name(&info.request.target))
     }
 
     pub(crate) fn is_resolve_self(pkg_info: &PkgFileInfo, info: &ResolveInfo) -> bool {
         pkg_info
             .name
             .as_ref()
-            .map(|pkg_name| info.request.target.starts_with(pkg_name))
-            .map_or(false, |ans| ans)
+            .map_or(false, |pkg_name| {
+                Resolver::module_name(&info.request.target) == pkg_name
+            })
     }
 }
 
@@ -39,7 +41,7 @@ impl<'a> Plugin for ExportsFieldPlugin<'a> {
                 return ResolverStats::Resolving(info);
             }
 
-            if !self.is_in_module(pkg_info) && !Self::is_resolve_self(pkg_info, &info) {
+            if !self.is_in_module(pkg_info, &info) && !Self::is_resolve_self(pkg_info, &info) {
                 return ResolverStats::Resolving(info);
             }
 
diff --git a/src/plugin/imports_field.rs b/src/plugin/imports_field.rs
index 15bcc65..6bc43fd 100644
--- a/src/plugin/imports_field.rs
+++ b/src/plugin/imports_field.rs
@@ -83,7 +83,13 @@ impl<'a> Plugin for ImportsFieldPlugin<'a> {
                         }
                     }
 
-                    ExportsFieldPlugin::new(&pkg_info)
+                    let module_path = info.path.join(Resolver::module_name(&info.request.target));
+                    let module_pkg_info = match resolver.load_pkg_file(&module_path) {
+                        Ok(info) => info,
+                        Err(err) => return ResolverStats::Error((err, info)),
+                    };
+
+                    ExportsFieldPlugin::new(&module_pkg_info)
                         .apply(resolver, info)
                         .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(resolver, info))
                         .and_then(|info| AliasFieldPlugin::new(&pkg_info).apply(resolver, info))
diff --git a/src/resolve.rs b/src/resolve.rs
index ebd9475..298cbcd 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,7 +1,5 @@
 use std::path::{Path, PathBuf};
 
-use smol_str::SmolStr;
-
 use crate::plugin::{
     AliasFieldPlugin, ExportsFieldPlugin, ExtensionsPlugin, ImportsFieldPlugin, MainFieldPlugin,
     MainFilePlugin, Plugin,
@@ -43,34 +41,39 @@ impl Resolver {
             .and_then(|info| MainFilePlugin::new(&pkg_info_wrap).apply(self, info))
     }
 
+    /// The part of a bare request that names the package.
+    pub(crate) fn module_name(target: &str) -> &str {
+        let has_namespace_scope = target.starts_with('@');
+        let mut slash_index_list = target.match_indices('/').map(|(index, _)| index);
+        let end = if has_namespace_scope {
+            slash_index_list.nth(1)
+        } else {
+            slash_index_list.next()
+        };
+        end.map_or(target, |index| &target[..index])
+    }
+
     #[tracing::instrument]
     pub(crate) fn resolve_as_modules(&self, info: ResolveInfo) -> ResolverStats {
         let original_dir = info.path.clone();
         let module_root_path = original_dir.join(MODULE);
         let stats = if module_root_path.is_dir() {
             let target = &info.request.target;
-            // join request part
-            let has_namespace_scope = target.starts_with('@');
-            let slash_index_list: Vec<usize> = target
-                .char_indices()
-                .filter(|(_, char)| '/'.eq(char))
-                .map(|(index, _)| index)
-                .collect();
-            let last_start_index = if has_namespace_scope {
-                slash_index_list.get(1)
-            } else {
-                slash_index_list.first()
-            };
-            let module_name =
-                last_start_index.map_or(target.clone(), |&index| SmolStr::new(&target[0..index]));
-            let module_path = module_root_path.join(&*module_name);
+            let module_name = Self::module_name(target);
+            let module_path = module_root_path.join(module_name);
 
             let module_info = ResolveInfo::from(module_root_path, info.request.clone());
             let pkg_info = match self.load_pkg_file(&module_info.path.join(&**target)) {
                 Ok(pkg_info) => pkg_info,
                 Err(err) => return ResolverStats::Error((err, info)),
             };
-            let is_resolve_self = pkg_info.as_ref().map_or(false, |pkg_info| {
+            // what is requested may have a nearer description,
+            // but it is the exports field of the package it names that counts.
+            let module_pkg_info = match self.load_pkg_file(&module_path) {
+                Ok(pkg_info) => pkg_info,
+                Err(err) => return ResolverStats::Error((err, info)),
+            };
+            let is_resolve_self = module_pkg_info.as_ref().map_or(false, |pkg_info| {
                 ExportsFieldPlugin::is_resolve_self(pkg_info, &module_info)
             });
             if !module_path.is_dir() && !is_resolve_self {
@@ -81,7 +84,7 @@ impl Resolver {
                     ResolverStats::Resolving(info)
                 }
             } else {
-                let stats = ExportsFieldPlugin::new(&pkg_info)
+                let stats = ExportsFieldPlugin::new(&module_pkg_info)
                     .apply(self, module_info)
                     .and_then(|info| ImportsFieldPlugin::new(&pkg_info).apply(self, info))
                     .and_then(|info| {
-- 
2.43.0

