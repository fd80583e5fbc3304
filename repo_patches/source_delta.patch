From 1a6f3299188264b693287a7bddc5785d1987fab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:34 +0000
Subject: [PATCH 01/23] fix: resolve submodules of #[path] modules as rustc
 does

Files named by a #[path] attribute are treated by rustc like mod.rs files, and
a #[path] on an inline module is relative to the directory of the file. Before
this, modules below them were reported as missing and never mutated.
---
 src/source.rs |  3 +++
 src/visit.rs  | 14 ++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/source.rs b/src/source.rs
index 9dc353e..459c9ef 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -38,6 +38,9 @@ pub struct SourceFile {
 
     /// True if this is the top source file for its target: typically but
     /// not always `lib.rs` or `main.rs`.
+    ///
+    /// Also true for files named by a `#[path]` attribute, because their
+    /// submodules are resolved in the same way.
     pub is_top: bool,
 }
 
diff --git a/src/visit.rs b/src/visit.rs
index 174ccc5..198f8dd 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -115,7 +115,13 @@ fn walk_package(
         // `--list-files`.
         for mod_namespace in &external_mods {
             if let Some(mod_path) = find_mod_source(workspace_dir, &source_file, mod_namespace) {
-                filename_queue.push_back((mod_path, false));
+                // Like rustc, treat files named by a path attribute as if they were
+                // `mod.rs` files: their submodules are found in the same directory.
+                let has_path_attribute = mod_namespace
+                    .parts
+                    .last()
+                    .is_some_and(|m| m.path_attribute.is_some());
+                filename_queue.push_back((mod_path, has_path_attribute));
             }
         }
         if !options.allows_source_file_path(&source_file.tree_relative_path) {
@@ -699,9 +705,9 @@ fn find_mod_source(
     let parent_path = &parent.tree_relative_path;
     let mut search_dir = if parent.is_top
         || parent_path.ends_with("mod.rs")
-        // NOTE: Path attribute on a top-level `mod foo;` (no enclosing block)
-        //       ignores the parent module path
-        || (mod_child.path_attribute.is_some() && mod_parents.is_empty())
+        // NOTE: Path attribute on a top-level `mod foo;` or `mod foo {...}` (no enclosing
+        //       block) ignores the parent module path
+        || mod_namespace.parts[0].path_attribute.is_some()
     {
         parent_path
             .parent()
-- 
2.43.0


From 5f5432fd16a14f87e8a7185dcf29771298f28ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:52 +0000
Subject: [PATCH 02/23] fix: visit each source file only once per package

A file reached from several mod statements, such as a module declared in both
lib.rs and main.rs, was visited once for each and its mutants were tested
several times.
---
 src/visit.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/visit.rs b/src/visit.rs
index 198f8dd..d14887d 100644
--- a/src/visit.rs
+++ b/src/visit.rs
@@ -9,7 +9,7 @@
 
 #![warn(clippy::pedantic)]
 
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 use std::sync::Arc;
 use std::vec;
 
@@ -92,7 +92,14 @@ fn walk_package(
     let mut files = Vec::new();
     let mut filename_queue =
         VecDeque::from_iter(package.top_sources.iter().map(|p| (p.to_owned(), true)));
+    // Several `mod` statements, perhaps in different targets, can refer to the same file.
+    let mut seen = HashSet::new();
     while let Some((path, package_top)) = filename_queue.pop_front() {
+        let full_path = workspace_dir.join(&path);
+        if !seen.insert(full_path.canonicalize_utf8().unwrap_or(full_path)) {
+            debug!(%path, "already visited");
+            continue;
+        }
         let Some(source_file) = SourceFile::load(workspace_dir, &path, package, package_top)?
         else {
             info!("Skipping source file outside of tree: {path:?}");
-- 
2.43.0


From 77f11fd491c10fb72eb25c527c8722987462b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:29 +0000
Subject: [PATCH 03/23] fix: accept git diffs with header-only sections and
 missing final newlines

Sections for pure renames, mode changes and empty or binary files at the end of
the diff, and a 'No newline at end of file' marker within a hunk, made
--in-diff panic.
---
 src/in_diff.rs | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 2b103af..53f9bb2 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -17,13 +17,37 @@ use crate::mutant::Mutant;
 use crate::source::SourceFile;
 use crate::Result;
 
+/// Starts of lines that are removed from the diff before parsing it.
+///
+/// None of them can be the start of a line within a hunk, other than the
+/// `\ No newline at end of file` marker which can follow any line of a hunk.
+///
+/// Git writes sections that have only headers and no hunks for binary files, empty files,
+/// and for changes only to the name or mode.
+const STRIP_LINES: &[&str] = &[
+    "Binary files ",
+    "\\ ",
+    "diff --git ",
+    "index ",
+    "old mode ",
+    "new mode ",
+    "new file mode ",
+    "deleted file mode ",
+    "copy from ",
+    "copy to ",
+    "rename from ",
+    "rename to ",
+    "similarity index ",
+    "dissimilarity index ",
+];
+
 /// Return only mutants to functions whose source was touched by this diff.
 pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>> {
-    // Strip any "Binary files .. differ" lines because `patch` doesn't understand them at
-    // the moment; this could be removed if it's fixed in that crate.
+    // Strip lines that `patch` doesn't understand at the moment, or not in every position;
+    // this could be removed if it's fixed in that crate.
     let fixed_diff = diff_text
         .lines()
-        .filter(|line| !(line.starts_with("Binary files ")))
+        .filter(|line| !STRIP_LINES.iter().any(|prefix| line.starts_with(prefix)))
         .chain(once(""))
         .join("\n");
 
-- 
2.43.0


From d51747593e4b4ac0955ddb7b33b54e7c4be84c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:25 +0000
Subject: [PATCH 04/23] fix: --in-diff with deletions in diffs without context

In a hunk that only deletes lines and has no context, the new range names the
line before the deletion, so the wrong lines were considered affected.
---
 src/in_diff.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 53f9bb2..4786c46 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -158,6 +158,15 @@ fn affected_lines(patch: &Patch) -> Vec<usize> {
     let mut affected_lines = Vec::new();
     for hunk in &patch.hunks {
         let mut lineno: usize = hunk.new_range.start.try_into().unwrap();
+        if hunk.new_range.count == 0 {
+            // A deletion without context: the range names the line before the deleted lines.
+            for adjacent in [lineno, lineno + 1] {
+                if adjacent > 0 && affected_lines.last().map_or(true, |last| *last < adjacent) {
+                    affected_lines.push(adjacent);
+                }
+            }
+            continue;
+        }
         // True if the previous line was deleted. If set, then the next line that exists in the
         // new file, if there is one, will be marked as affected.
         let mut prev_removed = false;
-- 
2.43.0


From d6f0b4d8a1260c15bb832f276052e99a9cfd8884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:39 +0000
Subject: [PATCH 05/23] fix: don't panic showing logs that are not UTF-8

---
 src/outcome.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/outcome.rs b/src/outcome.rs
index 2d83ab4..b343da5 100644
--- a/src/outcome.rs
+++ b/src/outcome.rs
@@ -3,7 +3,7 @@
 //! The outcome of running a single mutation scenario, or a whole lab.
 
 use std::fmt;
-use std::fs::read_to_string;
+use std::fs::read;
 use std::time::{Duration, Instant};
 
 use anyhow::Context;
@@ -190,7 +190,10 @@ impl ScenarioOutcome {
     }
 
     pub fn get_log_content(&self) -> Result<String> {
-        read_to_string(self.output_dir.join(&self.log_path)).context("read log file")
+        // Tests can print anything, so the log is not necessarily UTF-8.
+        read(self.output_dir.join(&self.log_path))
+            .map(|bytes| String::from_utf8_lossy(&bytes).into_owned())
+            .context("read log file")
     }
 
     pub fn last_phase(&self) -> Phase {
-- 
2.43.0


From 572e85baee22aba705f1411fdeb8a15d19ee3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:07 +0000
Subject: [PATCH 06/23] fix: restore files with CRLF line endings to their
 original bytes

---
 src/mutant.rs |  2 +-
 src/source.rs | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 3c6486a..83fef32 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -211,7 +211,7 @@ impl Mutant {
         trace!(?self, "Revert mutant");
         build_dir.overwrite_file(
             &self.source_file.tree_relative_path,
-            self.source_file.code(),
+            &self.source_file.original_text,
         )
     }
 
diff --git a/src/source.rs b/src/source.rs
index 459c9ef..e943464 100644
--- a/src/source.rs
+++ b/src/source.rs
@@ -20,7 +20,8 @@ use crate::span::LineColumn;
 /// or as a path that can be opened (relative to cwd or absolute.)
 ///
 /// Code is normalized to Unix line endings as it's read in, and modified
-/// files are written with Unix line endings.
+/// files are written with Unix line endings. The original text is kept so that
+/// files can be restored to exactly what they were.
 #[derive(Clone, Debug, Eq, PartialEq)]
 #[allow(clippy::module_name_repetitions)]
 pub struct SourceFile {
@@ -36,6 +37,10 @@ pub struct SourceFile {
     /// amounts of memory.
     pub code: Arc<String>,
 
+    /// The text of the file exactly as it was read, before normalizing line endings, so that
+    /// it can be restored after testing mutants.
+    pub original_text: Arc<String>,
+
     /// True if this is the top source file for its target: typically but
     /// not always `lib.rs` or `main.rs`.
     ///
@@ -65,14 +70,19 @@ impl SourceFile {
             return Ok(None);
         }
         let full_path = tree_path.join(tree_relative_path);
-        let code = Arc::new(
+        let original_text = Arc::new(
             read_to_string(&full_path)
-                .with_context(|| format!("failed to read source of {full_path:?}"))?
-                .replace("\r\n", "\n"),
+                .with_context(|| format!("failed to read source of {full_path:?}"))?,
         );
+        let code = if original_text.contains("\r\n") {
+            Arc::new(original_text.replace("\r\n", "\n"))
+        } else {
+            Arc::clone(&original_text)
+        };
         Ok(Some(SourceFile {
             tree_relative_path: tree_relative_path.to_owned(),
             code,
+            original_text,
             package: Arc::new(package.clone()),
             is_top,
         }))
@@ -95,6 +105,7 @@ impl SourceFile {
         SourceFile {
             tree_relative_path,
             code: Arc::new(code.to_owned()),
+            original_text: Arc::new(code.to_owned()),
             package: Arc::new(Package {
                 name: package_name.to_owned(),
                 relative_dir: Utf8PathBuf::new(),
-- 
2.43.0


From f8e4e202399ec4bc961713eea2be20d7985f7215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:12 +0000
Subject: [PATCH 07/23] fix: don't write through symlinks out of a copied tree

A copied tree can contain absolute symlinks, which point to the original
files. Applying mutants or fixing paths in Cargo.toml and .cargo/config.toml
wrote through them and changed the original tree even without --in-place.
---
 src/build_dir.rs | 18 ++++++++++++++++--
 src/manifest.rs  | 24 +++++++++++++++++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/src/build_dir.rs b/src/build_dir.rs
index 2df19e9..344e2d4 100644
--- a/src/build_dir.rs
+++ b/src/build_dir.rs
@@ -32,6 +32,8 @@ pub struct BuildDir {
     /// object is dropped. If None, there's nothing to clean up.
     #[allow(dead_code)]
     temp_dir: Option<TempDir>,
+    /// True if this is the original source directory.
+    in_place: bool,
 }
 
 impl BuildDir {
@@ -72,7 +74,11 @@ impl BuildDir {
         } else {
             Some(temp_dir)
         };
-        let build_dir = BuildDir { path, temp_dir };
+        let build_dir = BuildDir {
+            path,
+            temp_dir,
+            in_place: false,
+        };
         Ok(build_dir)
     }
 
@@ -80,6 +86,7 @@ impl BuildDir {
     pub fn in_place(source_path: &Utf8Path) -> Result<BuildDir> {
         Ok(BuildDir {
             temp_dir: None,
+            in_place: true,
             path: source_path
                 .canonicalize_utf8()
                 .context("canonicalize source path")?,
@@ -92,8 +99,15 @@ impl BuildDir {
 
     pub fn overwrite_file(&self, relative_path: &Utf8Path, code: &str) -> Result<()> {
         let full_path = self.path.join(relative_path);
-        // for safety, don't follow symlinks
         ensure!(full_path.is_file(), "{full_path:?} is not a file");
+        // for safety, don't follow symlinks out of a copied tree, perhaps to the original
+        ensure!(
+            self.in_place
+                || full_path
+                    .canonicalize_utf8()?
+                    .starts_with(self.path.canonicalize_utf8()?),
+            "{full_path:?} is a symlink to outside of the build directory"
+        );
         write(&full_path, code.as_bytes())
             .with_context(|| format!("failed to write code to {full_path:?}"))
     }
diff --git a/src/manifest.rs b/src/manifest.rs
index 5089420..2cd1b06 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -5,9 +5,9 @@
 //! In particular, when the tree is copied we have to fix up relative paths, so
 //! that they still work from the new location of the scratch directory.
 
-use std::fs::{read_to_string, write};
+use std::fs::{read_to_string, remove_file, write};
 
-use anyhow::Context;
+use anyhow::{ensure, Context};
 use camino::Utf8Path;
 use tracing::debug;
 
@@ -26,13 +26,24 @@ pub fn fix_manifest(manifest_scratch_path: &Utf8Path, source_dir: &Utf8Path) ->
     if let Some(changed_toml) = fix_manifest_toml(&toml_str, source_dir)? {
         let toml_str =
             toml::to_string_pretty(&changed_toml).context("serialize changed manifest")?;
-        write(manifest_scratch_path, toml_str.as_bytes()).with_context(|| {
+        replace_file(manifest_scratch_path, &toml_str).with_context(|| {
             format!("Failed to write fixed manifest to {manifest_scratch_path}")
         })?;
     }
     Ok(())
 }
 
+/// Replace the contents of a file in the scratch directory.
+///
+/// If it's a symlink then it might point to the original tree, so the link is replaced.
+fn replace_file(path: &Utf8Path, content: &str) -> Result<()> {
+    if path.is_symlink() {
+        remove_file(path)?;
+    }
+    write(path, content.as_bytes())?;
+    Ok(())
+}
+
 /// Fix any relative paths within a Cargo.toml manifest.
 ///
 /// Returns the new manifest, or None if no changes were made.
@@ -108,8 +119,11 @@ pub fn fix_cargo_config(build_path: &Utf8Path, source_path: &Utf8Path) -> Result
     if config_path.exists() {
         let toml_str = read_to_string(&config_path).context("read .cargo/config.toml")?;
         if let Some(changed_toml) = fix_cargo_config_toml(&toml_str, source_path)? {
-            write(build_path.join(&config_path), changed_toml.as_bytes())
-                .context("write .cargo/config.toml")?;
+            ensure!(
+                !build_path.join(".cargo").is_symlink(),
+                "can't fix relative paths in .cargo/config.toml because .cargo is a symlink"
+            );
+            replace_file(&config_path, &changed_toml).context("write .cargo/config.toml")?;
         }
     }
     Ok(())
-- 
2.43.0


From 9b2b4facd2667eba50451c120b106e09dbb8cfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:55 +0000
Subject: [PATCH 08/23] fix: restore the file if applying a mutant fails part
 way

If writing the mutated file failed, for example because the disk is full, the
source file was left truncated, which matters with --in-place.
---
 src/lab.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lab.rs b/src/lab.rs
index 793ce02..2298176 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -270,7 +270,16 @@ impl Worker<'_> {
             let mutated_code = mutant.mutated_code();
             let diff = scenario.mutant().unwrap().diff(&mutated_code);
             scenario_output.write_diff(&diff)?;
-            mutant.apply(self.build_dir, &mutated_code)?;
+            if let Err(err) = mutant.apply(self.build_dir, &mutated_code) {
+                // The file might already have been truncated or partly written.
+                if let Err(revert_err) = mutant.revert(self.build_dir) {
+                    error!(
+                        ?revert_err,
+                        "failed to revert after failing to apply mutant"
+                    );
+                }
+                return Err(err);
+            }
         }
 
         let mut outcome = ScenarioOutcome::new(&scenario_output, scenario.clone());
-- 
2.43.0


From 2b8ee6ef253293bcd3df9f0dab1b9c5e7d28d711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:35 +0000
Subject: [PATCH 09/23] fix: write outcomes.json and mutants.json atomically

They were truncated and then rewritten, so if cargo-mutants was killed, or
while another program was reading them, they could be empty or incomplete.
---
 src/output.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/output.rs b/src/output.rs
index 8caae46..8cd74d4 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -202,11 +202,8 @@ impl OutputDir {
     ///
     /// Called multiple times as the lab runs.
     fn write_lab_outcome(&self) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("outcomes.json"))?),
-            &self.lab_outcome,
-        )
-        .context("write outcomes.json")
+        write_json_atomically(&self.path.join("outcomes.json"), &self.lab_outcome)
+            .context("write outcomes.json")
     }
 
     /// Add the result of testing one scenario.
@@ -237,11 +234,8 @@ impl OutputDir {
     }
 
     pub fn write_mutants_list(&self, mutants: &[Mutant]) -> Result<()> {
-        serde_json::to_writer_pretty(
-            BufWriter::new(File::create(self.path.join("mutants.json"))?),
-            mutants,
-        )
-        .context("write mutants.json")
+        write_json_atomically(&self.path.join("mutants.json"), mutants)
+            .context("write mutants.json")
     }
 
     pub fn take_lab_outcome(self) -> LabOutcome {
@@ -264,6 +258,16 @@ impl OutputDir {
     }
 }
 
+/// Write a value as json, so that the file is always complete, even if the program is killed.
+fn write_json_atomically<T: Serialize + ?Sized>(path: &Utf8Path, value: &T) -> Result<()> {
+    let tmp_path = Utf8PathBuf::from(format!("{path}.tmp"));
+    let mut writer = BufWriter::new(File::create(&tmp_path)?);
+    serde_json::to_writer_pretty(&mut writer, value)?;
+    writer.flush()?;
+    rename(&tmp_path, path)?;
+    Ok(())
+}
+
 /// Return the string names of mutants previously caught in this output directory, including
 /// unviable mutants.
 ///
-- 
2.43.0


From 63ceea428bcf5cf197ab3fa12ce07f08e6e02f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:51 +0000
Subject: [PATCH 10/23] fix: rewrite relative paths in all kinds of
 dependencies

Relative paths leaving the tree were only fixed in [dependencies], so a copied
tree did not build if they were used for dev, build, target-specific or
workspace dependencies.
---
 src/manifest.rs | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/manifest.rs b/src/manifest.rs
index 2cd1b06..d1bcf86 100644
--- a/src/manifest.rs
+++ b/src/manifest.rs
@@ -54,8 +54,20 @@ fn fix_manifest_toml(
     let mut value: toml::Value = manifest_toml.parse().context("parse manifest")?;
     let orig_value = value.clone();
     if let Some(top_table) = value.as_table_mut() {
-        if let Some(dependencies) = top_table.get_mut("dependencies") {
-            fix_dependency_table(dependencies, manifest_source_dir);
+        fix_dependency_sections(top_table, manifest_source_dir);
+        if let Some(target_table) = top_table.get_mut("target").and_then(|t| t.as_table_mut()) {
+            // The keys of the target table are target triples or cfg expressions.
+            for (_name, target) in target_table.iter_mut() {
+                if let Some(target) = target.as_table_mut() {
+                    fix_dependency_sections(target, manifest_source_dir);
+                }
+            }
+        }
+        if let Some(workspace) = top_table
+            .get_mut("workspace")
+            .and_then(|w| w.as_table_mut())
+        {
+            fix_dependency_sections(workspace, manifest_source_dir);
         }
         if let Some(replace) = top_table.get_mut("replace") {
             // The replace section is a table from package name/version to a
@@ -80,6 +92,15 @@ fn fix_manifest_toml(
     }
 }
 
+/// Fix up paths in all the kinds of dependencies directly inside one table of the manifest.
+fn fix_dependency_sections(table: &mut toml::Table, manifest_source_dir: &Utf8Path) {
+    for section in ["dependencies", "dev-dependencies", "build-dependencies"] {
+        if let Some(dependencies) = table.get_mut(section) {
+            fix_dependency_table(dependencies, manifest_source_dir);
+        }
+    }
+}
+
 /// Fix up paths in a manifest "dependency table".
 ///
 /// This is a pattern that can occur at various places in the manifest. It's a
-- 
2.43.0


From 10c79a6c27e5e53488fc8c649d2bd9b5c5d39846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 11/23] fix: mutate a package only once if it is named
 repeatedly

`-p foo -p foo` listed and tested every mutant in foo twice.
---
 src/workspace.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/workspace.rs b/src/workspace.rs
index 97872dc..304f5e3 100644
--- a/src/workspace.rs
+++ b/src/workspace.rs
@@ -117,6 +117,7 @@ impl Workspace {
             .iter()
             .map(AsRef::as_ref)
             .sorted()
+            .dedup()
             .filter_map(|name| {
                 if let Some(p) = self.packages.iter().find(|p| p.name == name) {
                     Some(Arc::clone(p))
-- 
2.43.0


From 1768ce6a67310759e81ada09ef6fdb9b64ba2d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 12/23] fix: accept a bare file name in --manifest-path

`--manifest-path Cargo.toml` failed with '"" is not a directory'.
---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index ab3b4e1..859df2a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -450,9 +450,14 @@ fn main() -> Result<()> {
 
     let start_dir: &Utf8Path = if let Some(manifest_path) = &args.manifest_path {
         ensure!(manifest_path.is_file(), "Manifest path is not a file");
-        manifest_path
+        match manifest_path
             .parent()
             .ok_or(anyhow!("Manifest path has no parent"))?
+        {
+            // A bare file name like `Cargo.toml` has an empty parent.
+            parent if parent.as_str().is_empty() => Utf8Path::new("."),
+            parent => parent,
+        }
     } else if let Some(dir) = &args.dir {
         dir
     } else {
-- 
2.43.0


From e6afb6137069acec37c10615106ed9b4e5d3fc83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:33 +0000
Subject: [PATCH 13/23] fix: accept comma-separated lists in --package as
 documented

`-p foo,bar` was taken as one package name, so no mutants were found.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 859df2a..f44c15e 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -474,7 +474,7 @@ fn main() -> Result<()> {
     let options = Options::new(&args, &config)?;
     debug!(?options);
     let package_filter = if !args.mutate_packages.is_empty() {
-        PackageFilter::explicit(&args.mutate_packages)
+        PackageFilter::explicit(args.mutate_packages.iter().flat_map(|s| s.split(',')))
     } else if args.workspace {
         PackageFilter::All
     } else {
-- 
2.43.0


From dda91f3c9e10423ecc8680b4c229438b43d0d591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:33 +0000
Subject: [PATCH 14/23] fix: baseline runs the tests chosen by --test-workspace
 and --test-package

As documented, those options apply to the baseline too. Previously, tests of
the chosen packages that already fail in the unmutated tree went unnoticed
and every mutant was counted as caught.
---
 src/lab.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/lab.rs b/src/lab.rs
index 2298176..31779e0 100644
--- a/src/lab.rs
+++ b/src/lab.rs
@@ -174,15 +174,22 @@ impl Lab<'_> {
     ///
     /// If it succeeds, return the timeouts to be used for the other scenarios.
     fn run_baseline(&self, build_dir: &BuildDir, mutants: &[Mutant]) -> Result<ScenarioOutcome> {
-        let all_mutated_packages: Vec<Arc<Package>> = mutants
-            .iter()
-            .map(|m| Arc::clone(&m.source_file.package))
-            .sorted_by_key(|p| p.name.clone())
-            .unique()
-            .collect_vec();
+        let test_packages = match &self.tests_for_mutant {
+            TestsForMutant::Workspace => PackageSelection::All,
+            TestsForMutant::Mutated => {
+                let all_mutated_packages: Vec<Arc<Package>> = mutants
+                    .iter()
+                    .map(|m| Arc::clone(&m.source_file.package))
+                    .sorted_by_key(|p| p.name.clone())
+                    .unique()
+                    .collect_vec();
+                PackageSelection::Explicit(all_mutated_packages)
+            }
+            TestsForMutant::Explicit(packages) => PackageSelection::Explicit(packages.clone()),
+        };
         self.make_worker(build_dir).run_one_scenario(
             &Scenario::Baseline,
-            &PackageSelection::Explicit(all_mutated_packages),
+            &test_packages,
             Timeouts::for_baseline(self.options),
         )
     }
-- 
2.43.0


From c0092e125c299f811430d9366a0db2c7e6185a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:23 +0000
Subject: [PATCH 15/23] fix: pass the profile to cargo check as --profile also
 with nextest

---
 src/cargo.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cargo.rs b/src/cargo.rs
index a1db2ac..3f258d2 100644
--- a/src/cargo.rs
+++ b/src/cargo.rs
@@ -126,12 +126,13 @@ fn cargo_argv(packages: &PackageSelection, phase: Phase, options: &Options) -> V
     }
     if let Some(profile) = &options.profile {
         match options.test_tool {
-            TestTool::Cargo => {
-                cargo_args.push(format!("--profile={profile}"));
-            }
-            TestTool::Nextest => {
+            // `cargo check` is run the same way for every test tool.
+            TestTool::Nextest if phase != Phase::Check => {
                 cargo_args.push(format!("--cargo-profile={profile}"));
             }
+            TestTool::Cargo | TestTool::Nextest => {
+                cargo_args.push(format!("--profile={profile}"));
+            }
         }
     }
     cargo_args.push("--verbose".to_string());
-- 
2.43.0


From ad50fb91e16f2de248375b3e731ddaf8f4ed9549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:08:38 +0000
Subject: [PATCH 16/23] fix: treat a child killed by a signal as a failure

---
 src/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 439c1f6..d1e30e1 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -165,7 +165,8 @@ impl Exit {
     }
 
     pub fn is_failure(self) -> bool {
-        matches!(self, Exit::Failure(_))
+        // Including being killed by a signal.
+        !self.is_success() && !self.is_timeout()
     }
 }
 
-- 
2.43.0


From 8498b565f4a45cd3b889af462ec5fc32d557858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:32 +0000
Subject: [PATCH 17/23] fix: recognise file names written with octal escapes in
 diffs

Git by default quotes names that aren't ASCII in diffs, as "b/src/gr\303\266\303\237e.rs",
and mutants in such files were not selected by --in-diff.
---
 src/in_diff.rs | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index 4786c46..c6dd104 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -3,6 +3,7 @@
 //! Filter mutants to those intersecting a diff on the file tree,
 //! for example from uncommitted or unmerged changes.
 
+use std::borrow::Cow;
 use std::collections::HashMap;
 use std::iter::once;
 
@@ -48,7 +49,8 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     let fixed_diff = diff_text
         .lines()
         .filter(|line| !STRIP_LINES.iter().any(|prefix| line.starts_with(prefix)))
-        .chain(once(""))
+        .map(decode_octal_escapes)
+        .chain(once("".into()))
         .join("\n");
 
     // Flatten the error to a string because otherwise it references the diff, and can't be returned.
@@ -102,6 +104,36 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
     Ok(matched)
 }
 
+/// Decode octal escapes in a quoted file name in a diff header.
+///
+/// By default, git writes names with any non-ASCII bytes like this. `patch` decodes only the
+/// other escapes.
+fn decode_octal_escapes(line: &str) -> Cow<'_, str> {
+    if !line.starts_with("--- \"") && !line.starts_with("+++ \"") {
+        return line.into();
+    }
+    let mut decoded = Vec::with_capacity(line.len());
+    let mut rest = line.as_bytes();
+    loop {
+        match rest {
+            [b'\\', a @ b'0'..=b'3', b @ b'0'..=b'7', c @ b'0'..=b'7', tail @ ..] => {
+                decoded.push(((a - b'0') << 6) | ((b - b'0') << 3) | (c - b'0'));
+                rest = tail;
+            }
+            [b'\\', escaped, tail @ ..] => {
+                decoded.extend([b'\\', *escaped]);
+                rest = tail;
+            }
+            [byte, tail @ ..] => {
+                decoded.push(*byte);
+                rest = tail;
+            }
+            [] => break,
+        }
+    }
+    String::from_utf8(decoded).map_or(line.into(), Cow::Owned)
+}
+
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
     let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
-- 
2.43.0


From bdcac6811fdf8b106970747fa9156558af4a6551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:31 +0000
Subject: [PATCH 18/23] fix: count carriage returns within a line as columns,
 and don't break lines of diffs there

Only a carriage return before a newline is part of the line ending. One elsewhere, in a
comment for example, shifted the replaced span, and made malformed diffs.
---
 src/mutant.rs |  8 +++++++-
 src/span.rs   | 10 ++++++----
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/mutant.rs b/src/mutant.rs
index 83fef32..0d6173d 100644
--- a/src/mutant.rs
+++ b/src/mutant.rs
@@ -194,7 +194,13 @@ impl Mutant {
         let old_label = self.source_file.tree_relative_slashes();
         // There shouldn't be any newlines, but just in case...
         let new_label = self.describe_change().replace('\n', " ");
-        TextDiff::from_lines(self.source_file.code(), mutated_code)
+        // Split only at newlines: `TextDiff::from_lines` also does at carriage returns, which
+        // would make a malformed diff if there are any within a line.
+        let old_lines: Vec<&str> = self.source_file.code().split_inclusive('\n').collect();
+        let new_lines: Vec<&str> = mutated_code.split_inclusive('\n').collect();
+        TextDiff::configure()
+            .newline_terminated(true)
+            .diff_slices(&old_lines, &new_lines)
             .unified_diff()
             .context_radius(8)
             .header(&old_label, &new_label)
diff --git a/src/span.rs b/src/span.rs
index 6f12fe0..40083f2 100644
--- a/src/span.rs
+++ b/src/span.rs
@@ -71,7 +71,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if ((line_no == start.line && col_no >= start.column) || line_no > start.line)
                 && (line_no < end.line || (line_no == end.line && col_no < end.column))
             {
@@ -83,7 +84,7 @@ impl Span {
                     break;
                 }
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
@@ -105,7 +106,8 @@ impl Span {
         let mut col_no = 1;
         let start = self.start;
         let end = self.end;
-        for c in s.chars() {
+        let mut chars = s.chars().peekable();
+        while let Some(c) = chars.next() {
             if line_no == start.line && col_no == start.column {
                 r.push_str(replacement);
             }
@@ -119,7 +121,7 @@ impl Span {
             if c == '\n' {
                 line_no += 1;
                 col_no = 1;
-            } else if c == '\r' {
+            } else if c == '\r' && chars.peek() == Some(&'\n') {
                 // counts as part of the last column, not a separate column
             } else {
                 col_no += 1;
-- 
2.43.0


From f5e5da8537b68841d76feefcc541adbe4e161fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:32 +0000
Subject: [PATCH 19/23] fix: replacement of a one-element tuple needs a
 trailing comma

`(x)` is only a parenthesised expression, so functions returning `(T,)` got only
unviable mutants.
---
 src/fnvalue.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fnvalue.rs b/src/fnvalue.rs
index 3e2d691..995c700 100644
--- a/src/fnvalue.rs
+++ b/src/fnvalue.rs
@@ -209,7 +209,9 @@ fn type_replacements(type_: &Type, error_exprs: &[Expr]) -> impl Iterator<Item =
                 .map(|elem| type_replacements(elem, error_exprs).collect_vec())
                 .multi_cartesian_product()
                 .map(|reps| {
-                    quote! { ( #( #reps ),* ) }
+                    // Without a comma, `(x)` would be just a parenthesised expression.
+                    let comma = (reps.len() == 1).then(|| quote! { , });
+                    quote! { ( #( #reps ),* #comma ) }
                 })
                 .collect_vec()
         }
-- 
2.43.0


From 599518d3d5e09bf4279fb587704431bcf734f059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 20/23] fix: refuse negative and non-finite timeouts and
 multipliers rather than panicking

---
 src/options.rs  | 41 +++++++++++++++++++++++++++++++++++------
 src/timeouts.rs |  8 +++++---
 2 files changed, 40 insertions(+), 9 deletions(-)

diff --git a/src/options.rs b/src/options.rs
index 87821f4..90dd9f3 100644
--- a/src/options.rs
+++ b/src/options.rs
@@ -15,6 +15,7 @@ use std::env;
 use std::ffi::OsString;
 use std::time::Duration;
 
+use anyhow::ensure;
 use camino::{Utf8Path, Utf8PathBuf};
 use globset::GlobSet;
 use regex::RegexSet;
@@ -184,6 +185,21 @@ pub enum TestTool {
     Nextest,
 }
 
+/// The duration of a timeout given in seconds by a command line argument or the config file.
+fn timeout_from_secs(name: &str, secs: f64) -> Result<Duration> {
+    Duration::try_from_secs_f64(secs)
+        .with_context(|| format!("Invalid number of seconds {secs} for {name}"))
+}
+
+/// Check that a timeout multiplier gives a meaningful timeout.
+fn check_multiplier(name: &str, multiplier: f64) -> Result<f64> {
+    ensure!(
+        multiplier.is_finite() && multiplier >= 0.0,
+        "Invalid multiplier {multiplier} for {name}"
+    );
+    Ok(multiplier)
+}
+
 /// Join two slices into a new vector.
 fn join_slices(a: &[String], b: &[String]) -> Vec<String> {
     a.iter().chain(b).cloned().collect()
@@ -235,11 +251,12 @@ impl Options {
             warn!("--no-copy-target is deprecated and has no effect; target/ is never copied");
         }
 
-        let minimum_test_timeout = Duration::from_secs_f64(
+        let minimum_test_timeout = timeout_from_secs(
+            "minimum_test_timeout",
             args.minimum_test_timeout
                 .or(config.minimum_test_timeout)
                 .unwrap_or(20f64),
-        );
+        )?;
 
         // If either command line argument is set, it overrides the config.
         let test_package = if args.test_workspace == Some(true) {
@@ -282,10 +299,15 @@ impl Options {
                 &config.additional_cargo_test_args,
             ),
             baseline: args.baseline,
-            build_timeout: args.build_timeout.map(Duration::from_secs_f64),
+            build_timeout: args
+                .build_timeout
+                .map(|secs| timeout_from_secs("build_timeout", secs))
+                .transpose()?,
             build_timeout_multiplier: args
                 .build_timeout_multiplier
-                .or(config.build_timeout_multiplier),
+                .or(config.build_timeout_multiplier)
+                .map(|m| check_multiplier("build_timeout_multiplier", m))
+                .transpose()?,
             cap_lints: args.cap_lints.unwrap_or(config.cap_lints),
             check_only: args.check,
             colors: args.colors,
@@ -317,8 +339,15 @@ impl Options {
             show_all_logs: args.all_logs,
             skip_calls,
             test_package,
-            test_timeout: args.timeout.map(Duration::from_secs_f64),
-            test_timeout_multiplier: args.timeout_multiplier.or(config.timeout_multiplier),
+            test_timeout: args
+                .timeout
+                .map(|secs| timeout_from_secs("timeout", secs))
+                .transpose()?,
+            test_timeout_multiplier: args
+                .timeout_multiplier
+                .or(config.timeout_multiplier)
+                .map(|m| check_multiplier("timeout_multiplier", m))
+                .transpose()?,
             test_tool: args.test_tool.or(config.test_tool).unwrap_or_default(),
         };
         if let Some(jobs) = options.jobs {
diff --git a/src/timeouts.rs b/src/timeouts.rs
index 2d19144..b34191f 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -57,10 +57,11 @@ fn test_timeout(baseline_duration: Option<Duration>, options: &Options) -> Durat
     } else if let Some(baseline_duration) = baseline_duration {
         let timeout = max(
             options.minimum_test_timeout,
-            Duration::from_secs_f64(
+            Duration::try_from_secs_f64(
                 (baseline_duration.as_secs_f64() * options.test_timeout_multiplier.unwrap_or(5.0))
                     .ceil(),
-            ),
+            )
+            .unwrap_or(Duration::MAX),
         );
         if options.show_times {
             info!(
@@ -83,7 +84,8 @@ fn build_timeout(baseline_duration: Option<Duration>, options: &Options) -> Opti
         Some(t)
     } else if let Some(baseline) = baseline_duration {
         if let Some(multiplier) = options.build_timeout_multiplier {
-            let timeout = Duration::from_secs_f64(baseline.as_secs_f64() * multiplier);
+            let timeout = Duration::try_from_secs_f64(baseline.as_secs_f64() * multiplier)
+                .unwrap_or(Duration::MAX);
             if options.show_times {
                 info!(
                     "Auto-set build timeout to {}",
-- 
2.43.0


From 022b8a2778e27d596ba57034545a6f4e58e72111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:26 +0000
Subject: [PATCH 21/23] fix: refuse malformed diffs, whose hunks are out of
 order or disagree with their headers

---
 src/in_diff.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/in_diff.rs b/src/in_diff.rs
index c6dd104..3dd2c29 100644
--- a/src/in_diff.rs
+++ b/src/in_diff.rs
@@ -61,6 +61,7 @@ pub fn diff_filter(mutants: Vec<Mutant>, diff_text: &str) -> Result<Vec<Mutant>>
 
     let patches =
         Patch::from_multiple(&fixed_diff).map_err(|err| anyhow!("Failed to parse diff: {err}"))?;
+    check_hunks_consistent(&patches)?;
     check_diff_new_text_matches(&patches, &mutants)?;
     let mut lines_changed_by_path: HashMap<&Utf8Path, Vec<usize>> = HashMap::new();
     for patch in &patches {
@@ -134,6 +135,36 @@ fn decode_octal_escapes(line: &str) -> Cow<'_, str> {
     String::from_utf8(decoded).map_or(line.into(), Cow::Owned)
 }
 
+/// Error if the hunks of a patch overlap, are out of order, or don't have as many lines as their
+/// header says.
+fn check_hunks_consistent(patches: &[Patch]) -> Result<()> {
+    for patch in patches {
+        let mut last_line = 0;
+        for hunk in &patch.hunks {
+            let range = &hunk.new_range;
+            let new_lines = hunk
+                .lines
+                .iter()
+                .filter(|line| !matches!(line, Line::Remove(_)))
+                .count();
+            // The start of an empty range is the line before it.
+            let is_empty = range.count == 0;
+            let in_order = range.start >= last_line + u64::from(!is_empty);
+            let end_line = range.start.checked_add(range.count);
+            match end_line {
+                Some(end_line) if in_order && range.count == new_lines as u64 => {
+                    last_line = end_line - u64::from(!is_empty);
+                }
+                _ => bail!(
+                    "Diff is malformed: unexpected hunk {range} in {path}",
+                    path = patch.new.path
+                ),
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Error if the new text from the diffs doesn't match the source files.
 fn check_diff_new_text_matches(patches: &[Patch], mutants: &[Mutant]) -> Result<()> {
     let mut source_by_name: HashMap<&Utf8Path, &SourceFile> = HashMap::new();
-- 
2.43.0


From ab0ea254a2bfb90cdd037d72cffdbc161c25beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:37 +0000
Subject: [PATCH 22/23] fix: report a failure to lock mutants.out rather than
 waiting forever

---
 src/output.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/output.rs b/src/output.rs
index 8cd74d4..5c3c099 100644
--- a/src/output.rs
+++ b/src/output.rs
@@ -10,7 +10,7 @@ use std::thread::sleep;
 use std::time::Duration;
 
 use camino::{Utf8Path, Utf8PathBuf};
-use fs2::FileExt;
+use fs2::{lock_contended_error, FileExt};
 use path_slash::PathExt;
 use serde::Serialize;
 use time::format_description::well_known::Rfc3339;
@@ -66,6 +66,10 @@ impl LockFile {
             .context("open or create lock.json in existing directory")?;
         let mut first = true;
         while let Err(err) = lock_file.try_lock_exclusive() {
+            if err.raw_os_error() != lock_contended_error().raw_os_error() {
+                // For example, the filesystem does not support locks: waiting won't help.
+                return Err(err).with_context(|| format!("lock {}", lock_path.to_slash_lossy()));
+            }
             if first {
                 info!(
                     "Waiting for lock on {} ...: {err}",
-- 
2.43.0


From c0414f4ed3c48fa1aacfc3b6a81b2ef7c18c4c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:08 +0000
Subject: [PATCH 23/23] fix: apply --build-timeout-multiplier to cargo check

With --check the baseline has no build phase, so the multiplier was silently
ignored and checks of mutants could run without limit.
---
 src/timeouts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/timeouts.rs b/src/timeouts.rs
index b34191f..84aa57b 100644
--- a/src/timeouts.rs
+++ b/src/timeouts.rs
@@ -28,7 +28,11 @@ impl Timeouts {
     pub fn from_baseline(baseline: &ScenarioOutcome, options: &Options) -> Timeouts {
         Timeouts {
             build: build_timeout(
-                baseline.phase_result(Phase::Build).map(|pr| pr.duration),
+                baseline
+                    .phase_result(Phase::Build)
+                    // With `--check` there is only a check phase.
+                    .or_else(|| baseline.phase_result(Phase::Check))
+                    .map(|pr| pr.duration),
                 options,
             ),
             test: Some(test_timeout(
-- 
2.43.0

