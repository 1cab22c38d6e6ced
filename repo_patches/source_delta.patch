From ab9f27aebdcba747047e0ecb901baf3228feee89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:42 +0000
Subject: [PATCH 01/19] fix: do not report a lazy document as absent when
 another thread loads it first

---
 plotline/src/document/lazy.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/plotline/src/document/lazy.rs b/plotline/src/document/lazy.rs
index e60a031..877c617 100644
--- a/plotline/src/document/lazy.rs
+++ b/plotline/src/document/lazy.rs
@@ -65,8 +65,7 @@ where
             .set(self.document_repo.find_by_id(&self.document_id)?)
             .is_err()
         {
-            tracing::error!(id = format!("{:?}", self.document_id), "document not found");
-            return None;
+            tracing::debug!(id = format!("{:?}", self.document_id), "document already loaded");
         }
 
         self.document.get()
-- 
2.43.0


From 1d1d384de38747ae01e0a3e11c3a034fb3c5da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:43 +0000
Subject: [PATCH 02/19] fix: match the extension of documents literally

---
 plotline-cli/src/repository.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index be8dd8e..1f74bba 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -54,7 +54,7 @@ impl LocalDocumentRepository {
                 entry.ok()
             })
             .filter({
-                let regex = Regex::new(&format!("\\.{}$", self.extension))
+                let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
 
                 move |entry| {
-- 
2.43.0


From 3188493bb5d767b42367d355afd7bc4906735ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 03/19] fix: do not list directories as documents

---
 plotline-cli/src/repository.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 1f74bba..eb7bbc9 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -53,6 +53,7 @@ impl LocalDocumentRepository {
 
                 entry.ok()
             })
+            .filter(|entry| entry.path().is_file())
             .filter({
                 let regex = Regex::new(&format!("\\.{}$", regex::escape(&self.extension)))
                     .expect("pattern should be a valid regular expression");
-- 
2.43.0


From c77af2a57666a01004ebe1aa356599dc27b90f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 04/19] fix: load documents whose name contains dots

---
 plotline-cli/src/repository.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index eb7bbc9..4795a2a 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -21,7 +21,11 @@ impl DocumentRepository for LocalDocumentRepository {
     type Document = Document;
 
     fn find_by_id(&self, id: &<Self::Document as Identify>::Id) -> Option<Self::Document> {
-        let path = self.context.join(id).with_extension(&self.extension);
+        // The extension is appended because the id itself may contain dots.
+        let mut path = self.context.join(id).into_os_string();
+        path.push(".");
+        path.push(&self.extension);
+        let path = PathBuf::from(path);
 
         fs::read(&path)
             .inspect_err(|err| {
@@ -66,9 +70,9 @@ impl LocalDocumentRepository {
                 }
             })
             .filter_map(move |entry| {
-                let path = entry
-                    .path()
-                    .with_extension("")
+                // The extension may consist of several parts.
+                let path = (0..=self.extension.matches('.').count())
+                    .fold(entry.path().to_owned(), |path, _| path.with_extension(""))
                     .strip_prefix(&self.context)
                     .map(ToOwned::to_owned);
 
-- 
2.43.0


From 3733b89c70ba7d0faf5019fe6acccd7bccec5e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:25 +0000
Subject: [PATCH 05/19] fix: identify loaded documents by the id they were
 requested with

---
 plotline-cli/src/repository.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index 4795a2a..d60446c 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -37,7 +37,10 @@ impl DocumentRepository for LocalDocumentRepository {
                     "finding document by id"
                 )
             })
-            .map(|bytes| Document { path, bytes })
+            .map(|bytes| Document {
+                path: id.clone(),
+                bytes,
+            })
             .ok()
     }
 }
-- 
2.43.0


From 0dc7b322da12526618ebf40854d82b34b8a3dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 06/19] fix: report an error instead of panicking when the
 listing cannot be written

---
 plotline-cli/src/document.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 33d71f4..25abf34 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -96,7 +96,7 @@ where
                 self.schema
                     .read()
                     .into_iter()
-                    .for_each(|node| writeln!(stdout, "{:?}", node.id()).unwrap());
+                    .try_for_each(|node| writeln!(stdout, "{:?}", node.id()))?;
             }
             DocumentSubCommand::Save(args) => {
                 let document_id = document_id()?;
-- 
2.43.0


From 05dd5db97f8ce4d27cd035777757bdecb5a7b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 07/19] fix: insert the remaining intervals when joining two
 subtrees

---
 plugins/interval/src/node.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1b430e4..1618eec 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -222,6 +222,7 @@ where
 
             let center = intervals.len() / 2;
             let left = intervals.drain(0..center).collect();
+            let root = root.insert(intervals.remove(0));
             immersion(immersion(root, left), intervals)
         }
 
-- 
2.43.0


From 10eeeb0de24f0acf496e7cdccd488edad453c046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 08/19] fix: delete intervals sharing their lower bound with
 another one

---
 plugins/interval/src/node.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index 1618eec..c1eb83f 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -89,7 +89,7 @@ where
 
         if interval.lo() < self.value.lo() {
             self.left = self.left.map(|left| left.delete(interval)).flatten();
-        } else if interval.lo() > self.value.lo() {
+        } else {
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
-- 
2.43.0


From 206d97f87fad7c59dc13f960252a1b0f858404c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:26 +0000
Subject: [PATCH 09/19] fix: update the maximum bound of a subtree after
 deleting from it

---
 plugins/interval/src/node.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/plugins/interval/src/node.rs b/plugins/interval/src/node.rs
index c1eb83f..aa18e5b 100644
--- a/plugins/interval/src/node.rs
+++ b/plugins/interval/src/node.rs
@@ -93,6 +93,11 @@ where
             self.right = self.right.map(|right| right.delete(interval)).flatten();
         }
 
+        self.max = Some(self.value.hi())
+            .max(self.left.as_ref().map(|left| left.max))
+            .max(self.right.as_ref().map(|right| right.max))
+            .expect("max with Some should never be None");
+
         Some(self)
     }
 }
-- 
2.43.0


From 84f577d29dc8491449dd64d20ac96cf3f64a79a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 10/19] fix: fail a save whose target became inaccessible
 instead of skipping it

---
 plotline/src/schema/ops/save.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/plotline/src/schema/ops/save.rs b/plotline/src/schema/ops/save.rs
index 426f052..6f3186e 100644
--- a/plotline/src/schema/ops/save.rs
+++ b/plotline/src/schema/ops/save.rs
@@ -4,7 +4,7 @@ use crate::{
     deref::With,
     id::Identify,
     prelude::Transaction,
-    schema::{trigger::Trigger, Result},
+    schema::{trigger::Trigger, Error, Result},
 };
 
 /// Schedules a trigger before a save is performed.
@@ -28,7 +28,9 @@ impl<T> Save<T> {
         tx.with(|ctx| {
             let ctx = ctx.with_target(self.node);
             ctx.triggers().select(BeforeSave).execute(&ctx)?;
-            ctx.target().with(|node| ctx.save(node.clone()));
+            ctx.target()
+                .with(|node| ctx.save(node.clone()))
+                .ok_or_else(|| Error::custom("target is not accessible"))?;
             ctx.triggers().select(AfterSave).execute(&ctx)?;
 
             Ok(())
-- 
2.43.0


From c9701382152fd4107caf111fff3ecf71c2b9e132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:02 +0000
Subject: [PATCH 11/19] verification hook: construct dates (cfg plotline_mc)

---
 plugins/interval/src/date.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/plugins/interval/src/date.rs b/plugins/interval/src/date.rs
index 22ec8ba..141fe40 100644
--- a/plugins/interval/src/date.rs
+++ b/plugins/interval/src/date.rs
@@ -27,6 +27,17 @@ pub struct Date<const N: usize, T, Endian> {
     endian: PhantomData<Endian>,
 }
 
+/// Lets the model checker construct dates.
+#[cfg(plotline_mc)]
+impl<const N: usize, T, Endian> From<[T; N]> for Date<N, T, Endian> {
+    fn from(components: [T; N]) -> Self {
+        Self {
+            components,
+            endian: PhantomData,
+        }
+    }
+}
+
 impl<const N: usize, T, Endian> Eq for Date<N, T, Endian> where T: Eq {}
 
 impl<const N: usize, T, Endian> PartialEq for Date<N, T, Endian>
-- 
2.43.0


From f787d8b661df2c9892acc281292eda52299bdeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:41 +0000
Subject: [PATCH 12/19] fix: register the interval index under the type its
 triggers look up

---
 plugins/interval/src/plugin.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 9a767c5..2681c1f 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -137,7 +137,7 @@ where
     {
         schema
             .with_resource(self.extractor)
-            .with_resource(SearchTree::<T, Extr::Target>::default())
+            .with_resource(SearchTree::<T::Id, Extr::Target>::default())
             .with_trigger(AfterSave, Self::on_save)
             .with_trigger(AfterDelete, Self::on_delete)
     }
-- 
2.43.0


From e308c4b883637bf7965b62f50cf11994d6f7b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:04 +0000
Subject: [PATCH 13/19] verification hook: construct the interval plugin and
 look into its index (cfg plotline_mc_plugin)

---
 plugins/interval/src/lib.rs    |  3 +++
 plugins/interval/src/plugin.rs | 34 ++++++++++++++++++++++++++++++++++
 2 files changed, 37 insertions(+)

diff --git a/plugins/interval/src/lib.rs b/plugins/interval/src/lib.rs
index a0b25c7..0782dce 100644
--- a/plugins/interval/src/lib.rs
+++ b/plugins/interval/src/lib.rs
@@ -7,6 +7,9 @@ mod plugin;
 mod tree;
 pub use tree::IntervalSearchTree;
 
+#[cfg(plotline_mc_plugin)]
+pub use plugin::{overlapping, IntervalPlugin};
+
 /// One of the limits in an [`Interval`].
 #[allow(dead_code)]
 pub trait Bound: Copy + Ord {}
diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 2681c1f..3b528a8 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -142,3 +142,37 @@ where
             .with_trigger(AfterDelete, Self::on_delete)
     }
 }
+
+/// Lets the model checker construct the plugin.
+#[cfg(plotline_mc_plugin)]
+impl<T, Extr> From<Extr> for IntervalPlugin<T, Extr> {
+    fn from(extractor: Extr) -> Self {
+        Self {
+            extractor,
+            node: PhantomData,
+        }
+    }
+}
+
+/// Lets the model checker look into the index: whether anything overlaps the given interval, and
+/// what does. None if there is no index.
+#[cfg(plotline_mc_plugin)]
+pub fn overlapping<Id, Intv>(
+    resources: &plotline::schema::resource::ResourceSet,
+    node_id: Id,
+    interval: Intv,
+) -> Option<(bool, Vec<(Id, Intv)>)>
+where
+    Id: 'static + Clone,
+    Intv: 'static + Clone + Interval,
+{
+    let query = NodeInterval { node_id, interval };
+    Res::<SearchTree<Id, Intv>>::from(resources).with(|search_tree| {
+        let mut found = Vec::new();
+        search_tree.for_each_intersection(&query, |node| {
+            found.push((node.node_id.clone(), node.interval.clone()));
+        });
+
+        (search_tree.intersects(&query), found)
+    })
+}
-- 
2.43.0


From 9ef7f497a7b40fa4ac12b27316b2358aeb8b2837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:03 +0000
Subject: [PATCH 14/19] fix: report pipes and other special files as absent
 instead of waiting for them

---
 plotline-cli/src/repository.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/plotline-cli/src/repository.rs b/plotline-cli/src/repository.rs
index d60446c..cc0caec 100644
--- a/plotline-cli/src/repository.rs
+++ b/plotline-cli/src/repository.rs
@@ -27,6 +27,12 @@ impl DocumentRepository for LocalDocumentRepository {
         path.push(&self.extension);
         let path = PathBuf::from(path);
 
+        // Reading from anything else, such as a named pipe, may block forever.
+        if fs::metadata(&path).is_ok_and(|metadata| !metadata.is_file()) {
+            tracing::error!(id = ?id, path = ?path, "document is not a regular file");
+            return None;
+        }
+
         fs::read(&path)
             .inspect_err(|err| {
                 tracing::error!(
-- 
2.43.0


From 00229a0ecc12cbc2d4f5712c2e0fa513761a9ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:45 +0000
Subject: [PATCH 15/19] fix: accept document ids that are not valid UTF-8

---
 plotline-cli/src/document.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/plotline-cli/src/document.rs b/plotline-cli/src/document.rs
index 25abf34..5d0b5f8 100644
--- a/plotline-cli/src/document.rs
+++ b/plotline-cli/src/document.rs
@@ -1,9 +1,8 @@
 use std::{
-    error::Error,
+    ffi::OsString,
     fmt::Debug,
     io::{self, Write},
     path::PathBuf,
-    str::FromStr,
     sync::Arc,
 };
 
@@ -55,7 +54,7 @@ enum DocumentSubCommand {
 #[derive(Args)]
 pub struct DocumentCommand {
     /// The id of the document.
-    id: Option<String>,
+    id: Option<OsString>,
     /// The action to perform.
     #[command(subcommand)]
     subcommand: DocumentSubCommand,
@@ -74,16 +73,13 @@ impl<DocumentRepo> DocumentCli<DocumentRepo>
 where
     DocumentRepo: 'static + DocumentRepository<Document = Document>,
     DocumentRepo::Document: Debug + Clone,
-    <DocumentRepo::Document as Identify>::Id: Ord + Clone + FromStr + Debug,
-    <<DocumentRepo::Document as Identify>::Id as FromStr>::Err: 'static + Error + Sync + Send,
+    <DocumentRepo::Document as Identify>::Id: Ord + Clone + From<OsString> + Debug,
 {
     pub fn execute(&self, command: DocumentCommand) -> Result<()> {
         let document_id = || {
             command
                 .id
-                .map(|id| <DocumentRepo::Document as Identify>::Id::from_str(&id))
-                .transpose()
-                .map_err(anyhow::Error::new)?
+                .map(<DocumentRepo::Document as Identify>::Id::from)
                 .ok_or(anyhow::Error::msg("node id must be set"))
         };
 
-- 
2.43.0


From a49e821a218f147de5ed533f6865f74316391bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:02 +0000
Subject: [PATCH 16/19] fix: do not crash when the current directory does not
 exist

---
 plotline-cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 64e44fa..80ee577 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -15,8 +15,8 @@ static DEFAULT_EXTENSION: &str = "md";
 
 static DEFAULT_CONTEXT: LazyLock<OsString> = LazyLock::new(|| {
     std::env::current_dir()
-        .expect("current working directory")
-        .into_os_string()
+        .map(PathBuf::into_os_string)
+        .unwrap_or_else(|_| OsString::from("."))
 });
 
 /// An astonishing graph-based docs manager.
-- 
2.43.0


From 47d552627b3e499425d75cff8a894af00a31f320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:10 +0000
Subject: [PATCH 17/19] fix: apply the changes of a transaction that has
 contexts yet alive

---
 plotline/src/schema/transaction.rs | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/plotline/src/schema/transaction.rs b/plotline/src/schema/transaction.rs
index be58ad7..443083b 100644
--- a/plotline/src/schema/transaction.rs
+++ b/plotline/src/schema/transaction.rs
@@ -72,13 +72,9 @@ where
             return;
         };
 
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        // There may be contexts yet alive, hence operations must be taken out of the lock.
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
@@ -138,13 +134,9 @@ where
     T: Identify,
 {
     fn commit(self) {
-        let Some(ops) = Arc::into_inner(self.operations) else {
-            tracing::error!("commiting transaction with contexts yet in use");
-            return;
-        };
-
-        let ops = match ops.into_inner() {
-            Ok(ops) => ops,
+        // There may be contexts yet alive, hence operations must be taken out of the lock.
+        let ops = match self.operations.write() {
+            Ok(mut ops) => std::mem::take(&mut *ops),
             Err(err) => {
                 tracing::error!(error = err.to_string(), "committing poisoned transaction");
                 return;
-- 
2.43.0


From 484db43f2b2adb2cdd22a8524148ff0c31dfcb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:28 +0000
Subject: [PATCH 18/19] fix: fail an operation whose intervals cannot be
 indexed

---
 plugins/interval/src/plugin.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/plugins/interval/src/plugin.rs b/plugins/interval/src/plugin.rs
index 3b528a8..d96e503 100644
--- a/plugins/interval/src/plugin.rs
+++ b/plugins/interval/src/plugin.rs
@@ -76,7 +76,7 @@ where
                 }
             })
         }) else {
-            return Ok(());
+            return Err(Error::custom("target is not accessible"));
         };
 
         search_tree.with_mut(|search_tree| {
@@ -111,7 +111,7 @@ where
                 }
             })
         }) else {
-            return Ok(());
+            return Err(Error::custom("target is not accessible"));
         };
 
         search_tree.with_mut(|search_tree| {
-- 
2.43.0


From 97855a3ecd33afb3df1dcc29735f3737e1ab9109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:45 +0000
Subject: [PATCH 19/19] fix: do not crash when a log message cannot be written

---
 plotline-cli/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/plotline-cli/src/main.rs b/plotline-cli/src/main.rs
index 80ee577..5e02c8b 100644
--- a/plotline-cli/src/main.rs
+++ b/plotline-cli/src/main.rs
@@ -60,6 +60,8 @@ fn main() -> Result<()> {
         .with_target(false)
         .with_max_level(Level::INFO)
         .with_writer(io::stderr)
+        // Otherwise a message that cannot be written is a panic.
+        .log_internal_errors(false)
         .init();
 
     let document_repo = Arc::new(LocalDocumentRepository {
-- 
2.43.0

