From d6fa360726ecbf098dac074f0e636a00febbafd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:40 +0000
Subject: [PATCH 01/41] fix: resolve the schema when the latest commit wrote no
 files

---
 crates/core/src/timeline/mod.rs | 42 +++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ac78903..9e1f47a 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -19,10 +19,13 @@
 pub mod instant;
 pub(crate) mod selector;
 
+use crate::avro_to_arrow::to_arrow_schema;
+use crate::config::table::HudiTableConfig;
 use crate::config::HudiConfigs;
 use crate::error::CoreError;
 use crate::file_group::builder::{build_file_groups, build_replaced_file_groups, FileGroupMerger};
 use crate::file_group::FileGroup;
+use crate::metadata::meta_field::MetaField;
 use crate::metadata::HUDI_METADATA_DIR;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
@@ -238,6 +241,10 @@ impl Timeline {
     /// Get the latest Avro schema string from the [Timeline].
     pub async fn get_latest_avro_schema(&self) -> Result<String> {
         let commit_metadata = self.get_latest_commit_metadata().await?;
+        Self::extract_avro_schema(&commit_metadata)
+    }
+
+    fn extract_avro_schema(commit_metadata: &Map<String, Value>) -> Result<String> {
         commit_metadata
             .get("extraMetadata")
             .and_then(|v| v.as_object())
@@ -253,6 +260,36 @@ impl Timeline {
             })
     }
 
+    fn get_schema_from_commit_extra_metadata(
+        &self,
+        commit_metadata: &Map<String, Value>,
+    ) -> Result<Schema> {
+        let avro_schema_str = Self::extract_avro_schema(commit_metadata)?;
+        let avro_schema = apache_avro::Schema::parse_str(&avro_schema_str).map_err(|e| {
+            CoreError::CommitMetadata(format!("Failed to resolve the latest schema: {}", e))
+        })?;
+        let schema = to_arrow_schema(&avro_schema)?;
+
+        let populates_meta_fields: bool = self
+            .hudi_configs
+            .get_or_default(HudiTableConfig::PopulatesMetaFields)
+            .to();
+        if !populates_meta_fields
+            || schema
+                .field_with_name(MetaField::CommitTime.as_ref())
+                .is_ok()
+        {
+            return Ok(schema);
+        }
+        let fields = MetaField::schema()
+            .fields()
+            .iter()
+            .chain(schema.fields().iter())
+            .cloned()
+            .collect::<Vec<_>>();
+        Ok(Schema::new(fields))
+    }
+
     /// Get the latest [arrow_schema::Schema] from the [Timeline].
     pub async fn get_latest_schema(&self) -> Result<Schema> {
         let commit_metadata = self.get_latest_commit_metadata().await?;
@@ -261,6 +298,11 @@ impl Timeline {
             .get("partitionToWriteStats")
             .and_then(|v| v.as_object());
 
+        if first_partition.map_or(true, |stats| stats.is_empty()) {
+            // The commit wrote no file to take the schema from, e.g., delete_partition.
+            return self.get_schema_from_commit_extra_metadata(&commit_metadata);
+        }
+
         let partition_path = first_partition
             .and_then(|obj| obj.keys().next())
             .ok_or_else(|| {
-- 
2.43.0


From 97d00e8a7f54e858b863e8c4681dd8aaaf8db6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 02/41] fix: order the partition schema by the configured
 partition fields

---
 crates/core/src/table/mod.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index e47ff9b..cd5f2ad 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -105,7 +105,7 @@ use crate::Result;
 use crate::config::read::HudiReadConfig;
 use arrow::record_batch::RecordBatch;
 use arrow_schema::{Field, Schema};
-use std::collections::{HashMap, HashSet};
+use std::collections::HashMap;
 use std::sync::Arc;
 use url::Url;
 
@@ -205,19 +205,17 @@ impl Table {
 
     /// Get the latest partition [arrow_schema::Schema] of the table.
     pub async fn get_partition_schema(&self) -> Result<Schema> {
-        let partition_fields: HashSet<String> = self
+        let partition_fields: Vec<String> = self
             .hudi_configs
             .get_or_default(PartitionFields)
-            .to::<Vec<String>>()
-            .into_iter()
-            .collect();
+            .to::<Vec<String>>();
 
+        // The partition path follows the order of the configured partition fields, which may
+        // differ from the order in the table schema.
         let schema = self.get_schema().await?;
-        let partition_fields: Vec<Arc<Field>> = schema
-            .fields()
+        let partition_fields: Vec<Arc<Field>> = partition_fields
             .iter()
-            .filter(|field| partition_fields.contains(field.name()))
-            .cloned()
+            .filter_map(|name| schema.fields().find(name).map(|(_, field)| field.clone()))
             .collect();
 
         Ok(Schema::new(partition_fields))
-- 
2.43.0


From 75a56c7a465e37fdc312a332ba91cd8436910917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 03/41] fix: split a URL-encoded partition path before decoding
 it

---
 crates/core/src/table/partition.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index 307b428..caed1f9 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -118,16 +118,25 @@ impl PartitionPruner {
         })
     }
 
-    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
-        let partition_path = if self.is_url_encoded {
-            percent_encoding::percent_decode(partition_path.as_bytes())
-                .decode_utf8()?
-                .into_owned()
-        } else {
-            partition_path.to_string()
-        };
+    fn url_decode(s: &str) -> Result<String> {
+        Ok(percent_encoding::percent_decode(s.as_bytes())
+            .decode_utf8()?
+            .into_owned())
+    }
 
-        let parts: Vec<&str> = partition_path.split('/').collect();
+    fn parse_segments(&self, partition_path: &str) -> Result<HashMap<String, Scalar<ArrayRef>>> {
+        let num_fields = self.schema.fields().len();
+        let mut parts: Vec<String> = partition_path.split('/').map(String::from).collect();
+        if self.is_url_encoded && parts.len() == num_fields {
+            // Decode after splitting, as an encoded value may contain the path separator.
+            parts = parts
+                .iter()
+                .map(|part| Self::url_decode(part))
+                .collect::<Result<Vec<String>>>()?;
+        } else if self.is_url_encoded {
+            let decoded_path = Self::url_decode(partition_path)?;
+            parts = decoded_path.split('/').map(String::from).collect();
+        }
 
         if parts.len() != self.schema.fields().len() {
             return Err(InvalidPartitionPath(format!(
@@ -155,7 +164,7 @@ impl PartitionPruner {
                     }
                     value
                 } else {
-                    part
+                    part.as_str()
                 };
                 let scalar = SchemableFilter::cast_value(&[value], field.data_type())?;
                 Ok((field.name().to_string(), scalar))
-- 
2.43.0


From cdf7d445b44df87b74e5e15967ee45dc7677af71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 04/41] fix: do not panic on tables without the partition style
 configs

---
 crates/core/src/table/partition.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/table/partition.rs b/crates/core/src/table/partition.rs
index caed1f9..197b9ae 100644
--- a/crates/core/src/table/partition.rs
+++ b/crates/core/src/table/partition.rs
@@ -70,11 +70,13 @@ impl PartitionPruner {
 
         let schema = Arc::new(partition_schema.clone());
         let is_hive_style: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsHiveStylePartitioning)
-            .to();
+            .try_get(HudiTableConfig::IsHiveStylePartitioning)
+            .map(|v| v.to())
+            .unwrap_or(false);
         let is_url_encoded: bool = hudi_configs
-            .get_or_default(HudiTableConfig::IsPartitionPathUrlencoded)
-            .to();
+            .try_get(HudiTableConfig::IsPartitionPathUrlencoded)
+            .map(|v| v.to())
+            .unwrap_or(false);
         Ok(PartitionPruner {
             schema,
             is_hive_style,
-- 
2.43.0


From 3a277c046b3331ac5ed59b5a866931f9dad95f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 05/41] fix: keep all write stats of a file group within one
 commit

---
 crates/core/src/file_group/builder.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/builder.rs b/crates/core/src/file_group/builder.rs
index 9f2d0c3..5335a9e 100644
--- a/crates/core/src/file_group/builder.rs
+++ b/crates/core/src/file_group/builder.rs
@@ -103,7 +103,8 @@ pub fn build_file_groups(commit_metadata: &Map<String, Value>) -> Result<HashSet
                 file_group.add_base_file_from_name(file_name)?;
             }
 
-            file_groups.insert(file_group);
+            // A file group may have more than one write stat in a commit.
+            file_groups.merge([file_group])?;
         }
     }
 
-- 
2.43.0


From 0bfd3440daa6dbf3c9fa4faf1ea6a53efe883987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:45 +0000
Subject: [PATCH 06/41] fix: order log files by numeric version

---
 crates/core/src/file_group/log_file/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index 30868c1..fbd08a7 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -171,6 +171,12 @@ impl Ord for LogFile {
         // TODO support `.cdc` suffix
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
+            .then_with(|| {
+                match (self.version.parse::<u64>(), other.version.parse::<u64>()) {
+                    (Ok(a), Ok(b)) => a.cmp(&b),
+                    _ => Ordering::Equal,
+                }
+            })
             .then(self.version.cmp(&other.version))
             .then(self.write_token.cmp(&other.write_token))
     }
-- 
2.43.0


From f6bd792a4ec4a93c4954bd3243699cb3faa7da7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 07/41] fix: return an error for malformed timestamps instead
 of panicking

---
 crates/core/src/timeline/instant.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index e3e191e..6474d73 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -135,7 +135,6 @@ impl Instant {
         let (timestamp, action_suffix) = file_name
             .split_once('.')
             .ok_or_else(|| CoreError::Timeline(format!("Invalid file name: {}", file_name)))?;
-        Self::validate_timestamp(timestamp)?;
         let dt = Self::parse_datetime(timestamp, timezone)?;
         let (action, state) = Self::parse_action_and_state(action_suffix)?;
 
@@ -148,7 +147,7 @@ impl Instant {
     }
 
     fn validate_timestamp(timestamp: &str) -> Result<()> {
-        if !matches!(timestamp.len(), 14 | 17) {
+        if !matches!(timestamp.len(), 14 | 17) || !timestamp.bytes().all(|b| b.is_ascii_digit()) {
             return Err(CoreError::Timeline(format!(
                 "Timestamp must be in format yyyyMMddHHmmss or yyyyMMddHHmmssSSS, but got: {}",
                 timestamp
@@ -163,6 +162,7 @@ impl Instant {
     }
 
     fn parse_naive_datetime(timestamp: &str) -> Result<NaiveDateTime> {
+        Self::validate_timestamp(timestamp)?;
         let naive_dt = NaiveDateTime::parse_from_str(&timestamp[..14], "%Y%m%d%H%M%S")
             .map_err(|e| CoreError::Timeline(format!("Failed to parse timestamp: {}", e)))?;
 
-- 
2.43.0


From db6918236a645a9193a6ce3fe78b2bff51db8638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 08/41] fix: accept timestamps in a repeated local hour

---
 crates/core/src/timeline/instant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 6474d73..28c2dfd 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -183,7 +183,8 @@ impl Instant {
             TimelineTimezoneValue::UTC => Ok(DateTime::from_naive_utc_and_offset(naive_dt, Utc)),
             TimelineTimezoneValue::Local => Ok(Local
                 .from_local_datetime(&naive_dt)
-                .single()
+                // an hour repeats when daylight saving time ends
+                .earliest()
                 .ok_or_else(|| CoreError::Timeline("Invalid local datetime".to_string()))?
                 .to_utc()),
         }
-- 
2.43.0


From 7a590a726a0f3becde4843b8db68be4653a0389b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:44 +0000
Subject: [PATCH 09/41] fix: hold no lock of the file system view while loading
 metadata

---
 crates/core/src/table/fs_view.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index d25389b..4ec67e7 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -75,21 +75,25 @@ impl FileSystemView {
         excluding_file_groups: &HashSet<FileGroup>,
     ) -> Result<Vec<FileSlice>> {
         let mut file_slices = Vec::new();
-        for mut partition_entry in self.partition_to_file_groups.iter_mut() {
+        for partition_entry in self.partition_to_file_groups.iter() {
             if !partition_pruner.should_include(partition_entry.key()) {
                 continue;
             }
-            let file_groups = partition_entry.value_mut();
-            for fg in file_groups.iter_mut() {
+            for fg in partition_entry.value() {
                 if excluding_file_groups.contains(fg) {
                     continue;
                 }
-                if let Some(fsl) = fg.get_file_slice_mut_as_of(timestamp) {
-                    fsl.load_metadata_if_needed(&self.storage).await?;
+                if let Some(fsl) = fg.get_file_slice_as_of(timestamp) {
                     file_slices.push(fsl.clone());
                 }
             }
         }
+
+        // Load metadata after releasing the map's locks: holding them across an await point
+        // deadlocks with another query that runs on the same thread.
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.storage).await?;
+        }
         Ok(file_slices)
     }
 
-- 
2.43.0


From e45b8b35430c7d825fbead03bf156f79e86462aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:21 +0000
Subject: [PATCH 10/41] fix: apply rollback blocks regardless of the instant
 range being read

---
 crates/core/src/file_group/log_file/reader.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index 901ebfe..da45545 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -236,7 +236,9 @@ impl<R: Read + Seek> LogFileReader<R> {
         let block_type = self.read_block_type(&format_version)?;
         let header = self.read_block_metadata(BlockMetadataType::Header, &format_version)?;
         let mut skipped = false;
-        if self.should_skip_block(&header, instant_range)? {
+        // A rollback takes effect regardless of the instants being read: the write that it rolls
+        // back never completed.
+        if block_type != BlockType::Command && self.should_skip_block(&header, instant_range)? {
             skipped = true;
             // TODO skip reading block
         }
-- 
2.43.0


From a319c5934ba09bd792f586fa1dbbc3bed05be429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 11/41] fix: ignore base files of pending and failed writes

---
 crates/core/src/file_group/log_file/mod.rs |  8 +--
 crates/core/src/table/builder.rs           |  5 +-
 crates/core/src/table/fs_view.rs           | 15 ++++-
 crates/core/src/table/listing.rs           | 22 +++++++
 crates/core/src/timeline/mod.rs            | 69 +++++++++++++++++++++-
 5 files changed, 109 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/file_group/log_file/mod.rs b/crates/core/src/file_group/log_file/mod.rs
index fbd08a7..5c1fd84 100644
--- a/crates/core/src/file_group/log_file/mod.rs
+++ b/crates/core/src/file_group/log_file/mod.rs
@@ -171,12 +171,12 @@ impl Ord for LogFile {
         // TODO support `.cdc` suffix
         self.base_commit_timestamp
             .cmp(&other.base_commit_timestamp)
-            .then_with(|| {
-                match (self.version.parse::<u64>(), other.version.parse::<u64>()) {
+            .then_with(
+                || match (self.version.parse::<u64>(), other.version.parse::<u64>()) {
                     (Ok(a), Ok(b)) => a.cmp(&b),
                     _ => Ordering::Equal,
-                }
-            })
+                },
+            )
             .then(self.version.cmp(&other.version))
             .then(self.write_token.cmp(&other.write_token))
     }
diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 35e805e..6487a9c 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -117,8 +117,9 @@ impl TableBuilder {
         let timeline =
             Timeline::new_from_storage(hudi_configs.clone(), storage_options.clone()).await?;
 
-        let file_system_view =
-            FileSystemView::new(hudi_configs.clone(), storage_options.clone()).await?;
+        let file_system_view = FileSystemView::new(hudi_configs.clone(), storage_options.clone())
+            .await?
+            .with_committed_instants(timeline.committed_instants());
 
         Ok(Table {
             hudi_configs,
diff --git a/crates/core/src/table/fs_view.rs b/crates/core/src/table/fs_view.rs
index 4ec67e7..e62cdd5 100644
--- a/crates/core/src/table/fs_view.rs
+++ b/crates/core/src/table/fs_view.rs
@@ -27,6 +27,7 @@ use crate::storage::Storage;
 use crate::file_group::file_slice::FileSlice;
 use crate::table::listing::FileLister;
 use crate::table::partition::PartitionPruner;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 
@@ -38,6 +39,7 @@ pub struct FileSystemView {
     pub(crate) hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     partition_to_file_groups: Arc<DashMap<String, Vec<FileGroup>>>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileSystemView {
@@ -51,15 +53,26 @@ impl FileSystemView {
             hudi_configs,
             storage,
             partition_to_file_groups,
+            committed_instants: None,
         })
     }
 
+    /// Leave out the base files written by any other than the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Arc<CommittedInstants>,
+    ) -> Self {
+        self.committed_instants = Some(committed_instants);
+        self
+    }
+
     async fn load_file_groups(&self, partition_pruner: &PartitionPruner) -> Result<()> {
         let lister = FileLister::new(
             self.hudi_configs.clone(),
             self.storage.clone(),
             partition_pruner.to_owned(),
-        );
+        )
+        .with_committed_instants(self.committed_instants.clone());
         let file_groups_map = lister.list_file_groups_for_relevant_partitions().await?;
         for (partition_path, file_groups) in file_groups_map {
             self.partition_to_file_groups
diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 08bcac5..04bcb77 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -28,6 +28,7 @@ use crate::storage::{get_leaf_dirs, Storage};
 use crate::table::partition::{
     is_table_partitioned, PartitionPruner, EMPTY_PARTITION_PATH, PARTITION_METAFIELD_PREFIX,
 };
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use dashmap::DashMap;
 use futures::{stream, StreamExt, TryStreamExt};
@@ -41,6 +42,7 @@ pub struct FileLister {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
     partition_pruner: PartitionPruner,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileLister {
@@ -53,9 +55,25 @@ impl FileLister {
             hudi_configs,
             storage,
             partition_pruner,
+            committed_instants: None,
         }
     }
 
+    /// Leave out the base files written by any other than the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = committed_instants;
+        self
+    }
+
+    fn is_committed(&self, instant_time: &str) -> bool {
+        self.committed_instants
+            .as_ref()
+            .map_or(true, |instants| instants.contains(instant_time))
+    }
+
     fn should_exclude_for_listing(file_name: &str) -> bool {
         file_name.starts_with(PARTITION_METAFIELD_PREFIX) || file_name.ends_with(".crc")
     }
@@ -81,6 +99,10 @@ impl FileLister {
                 // After excluding the unintended files,
                 // we expect a file that has the base file extension to be a valid base file.
                 let base_file = BaseFile::try_from(file_metadata)?;
+                if !self.is_committed(&base_file.commit_timestamp) {
+                    // The file belongs to a pending or failed write.
+                    continue;
+                }
                 let file_id = &base_file.file_id;
                 file_id_to_base_files
                     .entry(file_id.to_owned())
diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 9e1f47a..6b00b8b 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -27,6 +27,7 @@ use crate::file_group::builder::{build_file_groups, build_replaced_file_groups,
 use crate::file_group::FileGroup;
 use crate::metadata::meta_field::MetaField;
 use crate::metadata::HUDI_METADATA_DIR;
+use crate::storage::file_metadata::FileMetadata;
 use crate::storage::Storage;
 use crate::timeline::instant::Action;
 use crate::timeline::selector::TimelineSelector;
@@ -48,6 +49,46 @@ pub struct Timeline {
     hudi_configs: Arc<HudiConfigs>,
     pub(crate) storage: Arc<Storage>,
     pub completed_commits: Vec<Instant>,
+    committed_instants: Arc<CommittedInstants>,
+}
+
+/// Tells the instants whose writes are committed from the ones that are pending or failed,
+/// as of loading the [Timeline].
+#[derive(Clone, Debug, Default)]
+pub(crate) struct CommittedInstants {
+    completed: HashSet<String>,
+    pending: HashSet<String>,
+    earliest_completed: Option<String>,
+}
+
+impl CommittedInstants {
+    fn new(completed_commits: &[Instant], file_names: impl Iterator<Item = String>) -> Self {
+        let pending = file_names
+            .filter(|name| name.ends_with(".requested") || name.ends_with(".inflight"))
+            .filter_map(|name| name.split('.').next().map(|t| t.to_string()))
+            .collect();
+        Self {
+            completed: completed_commits
+                .iter()
+                .map(|i| i.timestamp.clone())
+                .collect(),
+            pending,
+            earliest_completed: completed_commits.first().map(|i| i.timestamp.clone()),
+        }
+    }
+
+    /// Whether the writes of the given instant are committed.
+    ///
+    /// Instants before the start of the timeline are taken as committed and archived, unless they
+    /// are pending.
+    pub(crate) fn contains(&self, timestamp: &str) -> bool {
+        self.completed.contains(timestamp)
+            || (!self.pending.contains(timestamp)
+                && self
+                    .earliest_completed
+                    .as_deref()
+                    .is_some_and(|earliest| timestamp < earliest))
+    }
 }
 
 pub const EARLIEST_START_TIMESTAMP: &str = "19700101000000000";
@@ -62,10 +103,15 @@ impl Timeline {
         completed_commits: Vec<Instant>,
     ) -> Result<Self> {
         let storage = Storage::new(storage_options.clone(), hudi_configs.clone())?;
+        let committed_instants = Arc::new(CommittedInstants::new(
+            &completed_commits,
+            std::iter::empty(),
+        ));
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants,
         })
     }
 
@@ -80,11 +126,17 @@ impl Timeline {
             None,
             None,
         )?;
-        let completed_commits = Self::load_instants(&selector, &storage, false).await?;
+        let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        let completed_commits = Self::create_instants(&selector, &files, false);
+        let committed_instants = Arc::new(CommittedInstants::new(
+            &completed_commits,
+            files.into_iter().map(|f| f.name),
+        ));
         Ok(Self {
             hudi_configs,
             storage,
             completed_commits,
+            committed_instants,
         })
     }
 
@@ -94,7 +146,14 @@ impl Timeline {
         desc: bool,
     ) -> Result<Vec<Instant>> {
         let files = storage.list_files(Some(HUDI_METADATA_DIR)).await?;
+        Ok(Self::create_instants(selector, &files, desc))
+    }
 
+    fn create_instants(
+        selector: &TimelineSelector,
+        files: &[FileMetadata],
+        desc: bool,
+    ) -> Vec<Instant> {
         // For most cases, we load completed instants, so we can pre-allocate the vector with a
         // capacity of 1/3 of the total number of listed files,
         // ignoring requested and inflight instants.
@@ -120,12 +179,16 @@ impl Timeline {
         instants.shrink_to_fit();
 
         if desc {
-            Ok(instants.into_iter().rev().collect())
+            instants.into_iter().rev().collect()
         } else {
-            Ok(instants)
+            instants
         }
     }
 
+    pub(crate) fn committed_instants(&self) -> Arc<CommittedInstants> {
+        self.committed_instants.clone()
+    }
+
     /// Get the completed commit [Instant]s in the timeline.
     ///
     /// * For Copy-on-write tables, this includes commit instants.
-- 
2.43.0


From 9dadb31b5df3b007eb612ed231970718db2b2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 12/41] fix: read tables with a pending compaction or a
 partially cleaned file slice

---
 crates/core/src/table/listing.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index 04bcb77..f865765 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -137,7 +137,16 @@ impl FileLister {
             file_group.add_base_files(base_files)?;
 
             let log_files = file_id_to_log_files.remove(&file_id).unwrap_or_default();
-            file_group.add_log_files(log_files)?;
+            for log_file in log_files {
+                // Writes that follow a pending compaction are logged against its instant, for
+                // which there is no base file yet, so they add to the preceding file slice.
+                // With no such slice either, the log file is a leftover of a cleaned one.
+                if let Some(file_slice) =
+                    file_group.get_file_slice_mut_as_of(&log_file.base_commit_timestamp)
+                {
+                    file_slice.log_files.insert(log_file);
+                }
+            }
 
             file_groups.push(file_group);
         }
-- 
2.43.0


From 5380fc6aa435e793cb09aa59ac9b6e368c0bbfc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 13/41] fix: ignore log blocks of pending and failed writes

---
 .../core/src/file_group/log_file/scanner.rs   | 21 ++++++++++++++++++-
 crates/core/src/file_group/reader.rs          | 13 ++++++++++++
 crates/core/src/table/mod.rs                  |  5 +++--
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/file_group/log_file/scanner.rs b/crates/core/src/file_group/log_file/scanner.rs
index d6ef227..0a6eb33 100644
--- a/crates/core/src/file_group/log_file/scanner.rs
+++ b/crates/core/src/file_group/log_file/scanner.rs
@@ -21,6 +21,7 @@ use crate::file_group::log_file::log_block::LogBlock;
 use crate::file_group::log_file::reader::LogFileReader;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use arrow_array::RecordBatch;
 use std::collections::HashSet;
@@ -30,6 +31,7 @@ use std::sync::Arc;
 pub struct LogFileScanner {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl LogFileScanner {
@@ -37,9 +39,25 @@ impl LogFileScanner {
         Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         }
     }
 
+    /// Leave out the log blocks written by any other than the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Option<Arc<CommittedInstants>>,
+    ) -> Self {
+        self.committed_instants = committed_instants;
+        self
+    }
+
+    fn is_committed(&self, instant_time: &str) -> bool {
+        self.committed_instants
+            .as_ref()
+            .map_or(true, |instants| instants.contains(instant_time))
+    }
+
     pub async fn scan(
         &self,
         relative_paths: Vec<String>,
@@ -70,7 +88,8 @@ impl LogFileScanner {
         let mut record_batches: Vec<Vec<RecordBatch>> = Vec::new();
         for blocks in all_blocks {
             for block in blocks {
-                if !rollback_targets.contains(block.instant_time()?) {
+                let instant_time = block.instant_time()?;
+                if !rollback_targets.contains(instant_time) && self.is_committed(instant_time) {
                     record_batches.push(block.record_batches);
                 }
             }
diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 69f9cf4..5e917bb 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -28,6 +28,7 @@ use crate::merge::record_merger::RecordMerger;
 use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
+use crate::timeline::CommittedInstants;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
@@ -41,6 +42,7 @@ use std::sync::Arc;
 pub struct FileGroupReader {
     hudi_configs: Arc<HudiConfigs>,
     storage: Arc<Storage>,
+    committed_instants: Option<Arc<CommittedInstants>>,
 }
 
 impl FileGroupReader {
@@ -63,9 +65,19 @@ impl FileGroupReader {
         Ok(Self {
             hudi_configs,
             storage,
+            committed_instants: None,
         })
     }
 
+    /// Leave out the log blocks written by any other than the given instants.
+    pub(crate) fn with_committed_instants(
+        mut self,
+        committed_instants: Arc<CommittedInstants>,
+    ) -> Self {
+        self.committed_instants = Some(committed_instants);
+        self
+    }
+
     /// Creates a new reader with the given base URI and options.
     ///
     /// # Arguments
@@ -215,6 +227,7 @@ impl FileGroupReader {
             let instant_range = self.create_instant_range_for_log_file_scan();
             let log_record_batches =
                 LogFileScanner::new(self.hudi_configs.clone(), self.storage.clone())
+                    .with_committed_instants(self.committed_instants.clone())
                     .scan(log_file_paths, &instant_range)
                     .await?;
             for log_record_batch in log_record_batches {
diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index cd5f2ad..2e59228 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -394,10 +394,11 @@ impl Table {
         for (k, v) in options {
             overwriting_options.insert(k.as_ref().to_string(), v.into());
         }
-        FileGroupReader::new_with_configs_and_options(
+        let reader = FileGroupReader::new_with_configs_and_options(
             self.hudi_configs.clone(),
             overwriting_options,
-        )
+        )?;
+        Ok(reader.with_committed_instants(self.timeline.committed_instants()))
     }
 
     /// Get all the latest records in the table.
-- 
2.43.0


From 3abbd547315309c0fe29fe0f33b6e170051b6d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:59 +0000
Subject: [PATCH 14/41] fix: resolve the schema from a delta commit without
 base file

---
 crates/core/src/timeline/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index 6b00b8b..ec3fc1d 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -393,6 +393,10 @@ impl Timeline {
                             "Failed to resolve the latest schema: no file path found".to_string(),
                         )
                     })?;
+                if base_file.is_empty() {
+                    // The file slice has no base file yet, e.g., its compaction is pending.
+                    return self.get_schema_from_commit_extra_metadata(&commit_metadata);
+                }
                 let parquet_file_path_buf = PathBuf::from_str(partition_path)
                     .map_err(|e| {
                         CoreError::CommitMetadata(format!(
-- 
2.43.0


From e0fd8fd1828264caf1f52d50e874741cbb870094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:19 +0000
Subject: [PATCH 15/41] fix: resolve meta fields as nullable when the latest
 commit wrote no files

---
 crates/core/src/timeline/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index ec3fc1d..e0c1774 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -344,11 +344,13 @@ impl Timeline {
         {
             return Ok(schema);
         }
-        let fields = MetaField::schema()
+        // Hudi writes the meta fields as nullable columns.
+        let meta_fields = MetaField::schema();
+        let fields = meta_fields
             .fields()
             .iter()
-            .chain(schema.fields().iter())
-            .cloned()
+            .map(|f| Arc::new(f.as_ref().clone().with_nullable(true)))
+            .chain(schema.fields().iter().cloned())
             .collect::<Vec<_>>();
         Ok(Schema::new(fields))
     }
-- 
2.43.0


From 59bc42e26d02ca8ddb909ec586fc63a8bead5904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:34 +0000
Subject: [PATCH 16/41] fix: merge record versions before filtering by commit
 time

---
 crates/core/src/file_group/reader.rs | 35 ++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index 5e917bb..d60c4b1 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -166,12 +166,18 @@ impl FileGroupReader {
         &self,
         relative_path: &str,
     ) -> Result<RecordBatch> {
-        let records: RecordBatch = self
-            .storage
+        let records = self.read_base_file(relative_path).await?;
+        self.filter_by_commit_time(records)
+    }
+
+    async fn read_base_file(&self, relative_path: &str) -> Result<RecordBatch> {
+        self.storage
             .get_parquet_file_data(relative_path)
             .map_err(|e| ReadFileSliceError(format!("Failed to read path {relative_path}: {e:?}")))
-            .await?;
+            .await
+    }
 
+    fn filter_by_commit_time(&self, records: RecordBatch) -> Result<RecordBatch> {
         if let Some(mask) = self.create_filtering_mask_for_base_file_records(&records)? {
             filter_record_batch(&records, &mask)
                 .map_err(|e| ReadFileSliceError(format!("Failed to filter records: {e:?}")))
@@ -185,10 +191,18 @@ impl FileGroupReader {
             .hudi_configs
             .get_or_default(HudiTableConfig::TimelineTimezone)
             .to::<String>();
-        let start_timestamp = self
+        let populates_meta_fields = self
             .hudi_configs
-            .try_get(HudiReadConfig::FileGroupStartTimestamp)
-            .map(|v| v.to::<String>());
+            .get_or_default(HudiTableConfig::PopulatesMetaFields)
+            .to::<bool>();
+        let start_timestamp = if populates_meta_fields {
+            // The records are filtered by commit time after merging.
+            None
+        } else {
+            self.hudi_configs
+                .try_get(HudiReadConfig::FileGroupStartTimestamp)
+                .map(|v| v.to::<String>())
+        };
         let end_timestamp = self
             .hudi_configs
             .try_get(HudiReadConfig::FileGroupEndTimestamp)
@@ -213,9 +227,9 @@ impl FileGroupReader {
         if base_file_only {
             self.read_file_slice_by_base_file_path(&relative_path).await
         } else {
-            let base_record_batch = self
-                .read_file_slice_by_base_file_path(&relative_path)
-                .await?;
+            // A record version from before the start timestamp may supersede a later one by its
+            // precombine value, hence filtering by commit time has to follow merging.
+            let base_record_batch = self.read_base_file(&relative_path).await?;
             let schema = base_record_batch.schema();
             let mut all_record_batches = vec![base_record_batch];
 
@@ -235,7 +249,8 @@ impl FileGroupReader {
             }
 
             let merger = RecordMerger::new(self.hudi_configs.clone());
-            merger.merge_record_batches(&schema, &all_record_batches)
+            let records = merger.merge_record_batches(&schema, &all_record_batches)?;
+            self.filter_by_commit_time(records)
         }
     }
 }
-- 
2.43.0


From 0114c3f6bb19bc1af1af6878db2d73100897bbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:32 +0000
Subject: [PATCH 17/41] fix: do not allocate ahead for corrupt log block
 metadata sizes

---
 crates/core/src/file_group/log_file/reader.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/log_file/reader.rs b/crates/core/src/file_group/log_file/reader.rs
index da45545..53243df 100644
--- a/crates/core/src/file_group/log_file/reader.rs
+++ b/crates/core/src/file_group/log_file/reader.rs
@@ -176,8 +176,8 @@ impl<R: Read + Seek> LogFileReader<R> {
         let mut num_entries_buf = [0u8; 4];
         self.reader.read_exact(&mut num_entries_buf)?;
         let num_entries = u32::from_be_bytes(num_entries_buf);
-        let mut metadata: HashMap<BlockMetadataKey, String> =
-            HashMap::with_capacity(num_entries as usize);
+        // The count and the lengths may be corrupt: do not allocate ahead for them.
+        let mut metadata: HashMap<BlockMetadataKey, String> = HashMap::new();
         for _ in 0..num_entries {
             let mut key_buf = [0u8; 4];
             self.reader.read_exact(&mut key_buf)?;
@@ -185,8 +185,16 @@ impl<R: Read + Seek> LogFileReader<R> {
             let mut value_len_buf = [0u8; 4];
             self.reader.read_exact(&mut value_len_buf)?;
             let value_len = u32::from_be_bytes(value_len_buf);
-            let mut value_buf = vec![0u8; value_len as usize];
-            self.reader.read_exact(&mut value_buf)?;
+            let mut value_buf = Vec::new();
+            self.reader
+                .by_ref()
+                .take(value_len as u64)
+                .read_to_end(&mut value_buf)?;
+            if value_buf.len() != value_len as usize {
+                return Err(CoreError::ReadLogFileError(
+                    io::ErrorKind::UnexpectedEof.into(),
+                ));
+            }
             let value =
                 String::from_utf8(value_buf).map_err(|e| CoreError::Utf8Error(e.utf8_error()))?;
             metadata.insert(key, value);
-- 
2.43.0


From bb959d27d2886a11d04b0d75c097aee9c2c46efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 18/41] fix: parse config lines with blanks around the
 separator

---
 crates/core/src/config/util.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/config/util.rs b/crates/core/src/config/util.rs
index 33921c6..a66118f 100644
--- a/crates/core/src/config/util.rs
+++ b/crates/core/src/config/util.rs
@@ -63,17 +63,16 @@ pub fn parse_data_for_options(data: &Bytes, split_chars: &str) -> Result<HashMap
         if trimmed_line.is_empty() || trimmed_line.starts_with('#') {
             continue;
         }
-        let mut parts = trimmed_line.splitn(2, |c| split_chars.contains(c));
-        let key = parts
-            .next()
-            .ok_or(ParseLine(format!(
-                "Missing key in config line: {}",
-                trimmed_line
-            )))?
-            .trim()
-            .to_owned();
-        let value = parts.next().unwrap_or("").trim().to_owned();
-        options.insert(key, value);
+        let key_end = trimmed_line
+            .find(|c| split_chars.contains(c))
+            .unwrap_or(trimmed_line.len());
+        let (key, rest) = trimmed_line.split_at(key_end);
+        // The separator may be surrounded by blanks, which may be separators themselves.
+        let rest = rest.trim_start();
+        let value = rest
+            .strip_prefix(|c| split_chars.contains(c))
+            .unwrap_or(rest);
+        options.insert(key.trim().to_owned(), value.trim().to_owned());
     }
 
     Ok(options)
-- 
2.43.0


From 21f503a3531e1c17b41dcfb47c16d5ecd527617f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 19/41] fix: read the global configs from the local file system

---
 crates/core/src/table/builder.rs | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 6487a9c..73aedeb 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -17,9 +17,11 @@
  * under the License.
  */
 
+use bytes::Bytes;
 use paste::paste;
 use std::collections::HashMap;
 use std::env;
+use std::fs;
 use std::hash::Hash;
 use std::path::PathBuf;
 use std::sync::Arc;
@@ -187,13 +189,13 @@ impl TableBuilder {
         )?;
 
         let hudi_options = &mut self.hudi_options;
-        Self::imbue_table_properties(hudi_options, storage.clone()).await?;
+        Self::imbue_table_properties(hudi_options, storage).await?;
 
         // TODO support imbuing Hudi options from env vars HOODIE_ENV.*
         // (see https://hudi.apache.org/docs/next/s3_hoodie)
         // before loading global configs
 
-        Self::imbue_global_hudi_configs_if_absent(hudi_options, storage.clone()).await
+        Self::imbue_global_hudi_configs_if_absent(hudi_options)
     }
 
     async fn imbue_table_properties(
@@ -212,20 +214,15 @@ impl TableBuilder {
         Ok(())
     }
 
-    async fn imbue_global_hudi_configs_if_absent(
-        options: &mut HashMap<String, String>,
-        storage: Arc<Storage>,
-    ) -> Result<()> {
+    fn imbue_global_hudi_configs_if_absent(options: &mut HashMap<String, String>) -> Result<()> {
         let global_config_path = env::var(HUDI_CONF_DIR)
             .map(PathBuf::from)
             .unwrap_or_else(|_| PathBuf::from("/etc/hudi/conf"))
             .join("hudi-defaults.conf");
 
-        if let Ok(bytes) = storage
-            .get_file_data_from_absolute_path(global_config_path.to_str().unwrap())
-            .await
-        {
-            if let Ok(global_configs) = parse_data_for_options(&bytes, " \t=") {
+        // The global configs reside on the local file system, wherever the table does.
+        if let Ok(bytes) = fs::read(global_config_path) {
+            if let Ok(global_configs) = parse_data_for_options(&Bytes::from(bytes), " \t=") {
                 for (key, value) in global_configs {
                     if key.starts_with("hoodie.") && !options.contains_key(&key) {
                         options.insert(key.to_string(), value.to_string());
-- 
2.43.0


From 3935193605707c24854a02e261367075decb9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:37 +0000
Subject: [PATCH 20/41] fix: prefer storage options to environment variables
 whatever their case

---
 crates/core/src/table/builder.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/builder.rs b/crates/core/src/table/builder.rs
index 73aedeb..37a4e5f 100644
--- a/crates/core/src/table/builder.rs
+++ b/crates/core/src/table/builder.rs
@@ -174,7 +174,10 @@ impl TableBuilder {
             if Storage::CLOUD_STORAGE_PREFIXES
                 .iter()
                 .any(|prefix| key.starts_with(prefix))
-                && !self.storage_options.contains_key(&key.to_ascii_lowercase())
+                && !self
+                    .storage_options
+                    .keys()
+                    .any(|k| k.eq_ignore_ascii_case(&key))
             {
                 self.storage_options.insert(key.to_ascii_lowercase(), value);
             }
-- 
2.43.0


From 3138345a7be1430e01f01c5e5ff1f7cc3c6f48fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:36:30 +0000
Subject: [PATCH 21/41] fix: reject base file names with missing, empty or
 extra parts

---
 crates/core/src/file_group/base_file.rs | 28 ++++++++++++-------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/file_group/base_file.rs b/crates/core/src/file_group/base_file.rs
index 4f35b87..388fc38 100644
--- a/crates/core/src/file_group/base_file.rs
+++ b/crates/core/src/file_group/base_file.rs
@@ -57,22 +57,20 @@ impl BaseFile {
             .rsplit_once('.')
             .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?;
         let parts: Vec<&str> = stem.split('_').collect();
-        let file_id = parts
-            .first()
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let write_token = parts
-            .get(1)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
-        let commit_timestamp = parts
-            .get(2)
-            .ok_or_else(|| CoreError::FileGroup(err_msg.clone()))?
-            .to_string();
+        let [file_id, write_token, commit_timestamp] = parts[..] else {
+            return Err(CoreError::FileGroup(err_msg));
+        };
+        if file_id.is_empty()
+            || write_token.is_empty()
+            || commit_timestamp.is_empty()
+            || extension.is_empty()
+        {
+            return Err(CoreError::FileGroup(err_msg));
+        }
         Ok((
-            file_id,
-            write_token,
-            commit_timestamp,
+            file_id.to_string(),
+            write_token.to_string(),
+            commit_timestamp.to_string(),
             extension.to_string(),
         ))
     }
-- 
2.43.0


From 4c503a569efea0ee027b13a6ce35449c1e6f4403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 22/41] fix: a completed instant's file name does not end in a
 separator

---
 crates/core/src/timeline/instant.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/timeline/instant.rs b/crates/core/src/timeline/instant.rs
index 28c2dfd..54d079d 100644
--- a/crates/core/src/timeline/instant.rs
+++ b/crates/core/src/timeline/instant.rs
@@ -192,6 +192,10 @@ impl Instant {
 
     pub fn parse_action_and_state(action_suffix: &str) -> Result<(Action, State)> {
         match action_suffix.split_once('.') {
+            // only a completed instant has no state suffix, and no separator before it
+            Some((_, "")) => Err(CoreError::Timeline(format!(
+                "Invalid action suffix: {action_suffix}"
+            ))),
             Some((action_str, state_str)) => {
                 Ok((Action::from_str(action_str)?, State::from_str(state_str)?))
             }
-- 
2.43.0


From 35c74920f45c93f6f7cd22976e39dd3491080e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 23/41] fix: read nullable lists of booleans and nullable
 booleans in lists from Avro

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 4ada3ad..e69c336 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -457,11 +457,11 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 let mut bool_nulls = MutableBuffer::new(num_bytes).with_bitset(num_bytes, true);
                 let mut curr_index = 0;
                 rows.iter().for_each(|v| {
-                    if let Value::Array(vs) = v {
+                    if let Value::Array(vs) = maybe_resolve_union(v) {
                         vs.iter().for_each(|value| {
-                            if let Value::Boolean(child) = value {
+                            if let Some(child) = resolve_boolean(value) {
                                 // if valid boolean, append value
-                                if *child {
+                                if child {
                                     bit_util::set_bit(&mut bool_values, curr_index);
                                 }
                             } else {
-- 
2.43.0


From 697ec9ef7f75a243e7361d9b87f33daf54651bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 24/41] fix: a null list contributes no values to a nested Avro
 list

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index e69c336..85db43f 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -817,6 +817,9 @@ fn flatten_values<'a>(values: &[&'a Value]) -> Vec<&'a Value> {
             let v = maybe_resolve_union(row);
             if let Value::Array(values) = v {
                 values.iter().collect()
+            } else if let Value::Null = v {
+                // a null list has no values
+                vec![]
             } else {
                 // we interpret a scalar as a single-value list to minimise data loss
                 vec![v]
-- 
2.43.0


From 9a0cb7f1e308c69b4d8298c11b769ad81b31f3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 25/41] fix: a null list contributes no records to an Avro list
 of records

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 85db43f..bb02510 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -529,6 +529,7 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     .iter()
                     .map(|row| match maybe_resolve_union(row) {
                         Value::Array(values) => values.len(),
+                        Value::Null => 0,
                         _ => 1,
                     })
                     .sum();
@@ -557,6 +558,9 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                                     other => panic!("expected Record, got {other:?}"),
                                 })
                                 .collect::<Vec<&Vec<(String, Value)>>>()
+                        } else if let Value::Null = row {
+                            // a null list has no values
+                            vec![]
                         } else {
                             struct_index += 1;
                             vec![&null_struct_array]
-- 
2.43.0


From 05d38e6986548ccd0a3b5480426fb8d15924aa03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 26/41] fix: find the fields of records in nested Avro lists

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index bb02510..2bda7c1 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -508,16 +508,18 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                 .collect::<LargeStringArray>()
                 .into_data(),
             DataType::List(field) => {
+                let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let child = self.build_nested_list_array::<i32>(
-                    parent_field_name,
+                    &sub_parent_field_name,
                     &flatten_values(rows),
                     field,
                 )?;
                 child.to_data()
             }
             DataType::LargeList(field) => {
+                let sub_parent_field_name = format!("{}.{}", parent_field_name, list_field.name());
                 let child = self.build_nested_list_array::<i64>(
-                    parent_field_name,
+                    &sub_parent_field_name,
                     &flatten_values(rows),
                     field,
                 )?;
-- 
2.43.0


From 725225b9af0211dfe8700b698a1af121c1a96e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 27/41] fix: read Avro UUID values instead of nulls

---
 crates/core/src/avro_to_arrow/arrow_array_reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index 2bda7c1..eab17f1 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -920,6 +920,7 @@ fn resolve_fixed(v: &Value, size: usize) -> Option<Vec<u8>> {
                 None
             }
         }
+        Value::Uuid(uuid) if size == 16 => Some(uuid.as_bytes().to_vec()),
         _ => None,
     }
 }
-- 
2.43.0


From ea61c8046dca99350bb160eb8463cab2c6e30c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:44 +0000
Subject: [PATCH 28/41] fix: report unsupported Avro schemas as errors instead
 of panicking

---
 crates/core/src/avro_to_arrow/schema.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index afb0773..f296d12 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -61,7 +61,7 @@ fn schema_to_field_with_props(
 ) -> Result<Field> {
     let mut nullable = nullable;
     let field_type: DataType = match schema {
-        AvroSchema::Ref { .. } => todo!("Add support for AvroSchema::Ref"),
+        AvroSchema::Ref { name } => return Err(unsupported(&format!("reference to {name}"))),
         AvroSchema::Null => DataType::Null,
         AvroSchema::Boolean => DataType::Boolean,
         AvroSchema::Int => DataType::Int32,
@@ -140,9 +140,9 @@ fn schema_to_field_with_props(
         AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
         AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
         AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
-        AvroSchema::LocalTimestampMillis => todo!(),
-        AvroSchema::LocalTimestampMicros => todo!(),
-        AvroSchema::LocalTimestampNanos => todo!(),
+        AvroSchema::LocalTimestampMillis => return Err(unsupported("local-timestamp-millis")),
+        AvroSchema::LocalTimestampMicros => return Err(unsupported("local-timestamp-micros")),
+        AvroSchema::LocalTimestampNanos => return Err(unsupported("local-timestamp-nanos")),
         AvroSchema::Duration => DataType::Duration(TimeUnit::Millisecond),
     };
 
@@ -154,6 +154,10 @@ fn schema_to_field_with_props(
     Ok(field)
 }
 
+fn unsupported(what: &str) -> CoreError {
+    CoreError::Unsupported(format!("Avro schema is not supported: {what}"))
+}
+
 fn default_field_name(dt: &DataType) -> &str {
     match dt {
         DataType::Null => "null",
-- 
2.43.0


From 7c3474cf751a82d09f823c34f6ce49b824acd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 29/41] fix: a listing parallelism of 0 does not hang every
 query

---
 crates/core/src/table/listing.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/listing.rs b/crates/core/src/table/listing.rs
index f865765..f53ace7 100644
--- a/crates/core/src/table/listing.rs
+++ b/crates/core/src/table/listing.rs
@@ -198,7 +198,8 @@ impl FileLister {
         let parallelism = self
             .hudi_configs
             .get_or_default(ListingParallelism)
-            .to::<usize>();
+            .to::<usize>()
+            .max(1);
         stream::iter(pruned_partition_paths)
             .map(|p| async move {
                 let file_groups = self.list_file_groups_for_partition(&p).await?;
-- 
2.43.0


From f588499a71332e777f1e0c00f9c9ed781a6cbade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:01 +0000
Subject: [PATCH 30/41] fix: let DataFusion scan files whose path has special
 characters

The percent-encoded path of the file's URL was taken as the object's location, and encoded once more.
---
 crates/datafusion/src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 9beb612..0fdf8a9 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -28,7 +28,7 @@ use std::thread;
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
 use datafusion::catalog::{Session, TableProviderFactory};
-use datafusion::datasource::listing::PartitionedFile;
+use datafusion::datasource::listing::{ListingTableUrl, PartitionedFile};
 use datafusion::datasource::object_store::ObjectStoreUrl;
 use datafusion::datasource::physical_plan::parquet::ParquetExecBuilder;
 use datafusion::datasource::physical_plan::FileScanConfig;
@@ -195,7 +195,10 @@ impl TableProvider for HudiDataSource {
                 let url = join_url_segments(&base_url, &[relative_path.as_str()])
                     .map_err(|e| Execution(format!("Failed to join URL segments: {e:?}")))?;
                 let size = f.base_file.file_metadata.as_ref().map_or(0, |m| m.size);
-                let partitioned_file = PartitionedFile::new(url.path(), size as u64);
+                let mut partitioned_file = PartitionedFile::new("", size as u64);
+                // The URL's path is percent-encoded, the object's location is not.
+                partitioned_file.object_meta.location =
+                    ListingTableUrl::parse(url.as_str())?.prefix().clone();
                 parquet_file_group_vec.push(partitioned_file);
             }
             parquet_file_groups.push(parquet_file_group_vec)
-- 
2.43.0


From 5acb817bd903b11e90367e8d294b5c57209e8d1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 31/41] fix: translate a comparison with the literal on the
 left with its sides swapped

`5 < col` was pushed down as `col < 5`, which prunes the wrong partitions.
---
 crates/datafusion/src/util/expr.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index 7eb0eed..bb2c349 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -49,16 +49,17 @@ pub fn exprs_to_filters(exprs: &[Expr]) -> Vec<(String, String, String)> {
 /// Converts a binary expression [`Expr::BinaryExpr`] into a [`HudiFilter`].
 fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     // extract the column and literal from the binary expression
-    let (column, literal) = match (&*binary_expr.left, &*binary_expr.right) {
-        (Expr::Column(col), Expr::Literal(lit)) => (col, lit),
-        (Expr::Literal(lit), Expr::Column(col)) => (col, lit),
+    let (column, op, literal) = match (&*binary_expr.left, &*binary_expr.right) {
+        (Expr::Column(col), Expr::Literal(lit)) => (col, binary_expr.op, lit),
+        // `5 < col` is `col > 5`
+        (Expr::Literal(lit), Expr::Column(col)) => (col, binary_expr.op.swap()?, lit),
         _ => return None,
     };
 
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-    let filter = match binary_expr.op {
+    let filter = match op {
         Operator::Eq => field.eq(lit_str),
         Operator::NotEq => field.ne(lit_str),
         Operator::Lt => field.lt(lit_str),
-- 
2.43.0


From dd3316c6de64b4f862f9b19a62b2dc7a5e5cd321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 32/41] fix: do not push comparisons with a null literal down
 to partitions

The literal was compared as the text NULL, which fails for columns that are not strings.
---
 crates/datafusion/src/util/expr.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index bb2c349..a8a0e94 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -56,6 +56,10 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
         _ => return None,
     };
 
+    if literal.is_null() {
+        return None;
+    }
+
     let field = col(column.name());
     let lit_str = literal.to_string();
 
-- 
2.43.0


From 03e170a82077856b2aa66a97e67c6972f43a624b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 33/41] fix: push literals of decimal columns down in a form
 that parses

---
 crates/datafusion/src/util/expr.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/util/expr.rs b/crates/datafusion/src/util/expr.rs
index a8a0e94..45b51fc 100644
--- a/crates/datafusion/src/util/expr.rs
+++ b/crates/datafusion/src/util/expr.rs
@@ -17,7 +17,9 @@
  * under the License.
  */
 
+use arrow_schema::DataType;
 use datafusion::logical_expr::Operator;
+use datafusion_common::ScalarValue;
 use datafusion_expr::{BinaryExpr, Expr};
 use hudi_core::expr::filter::{col, Filter as HudiFilter};
 
@@ -61,7 +63,11 @@ fn binary_expr_to_filter(binary_expr: &BinaryExpr) -> Option<HudiFilter> {
     }
 
     let field = col(column.name());
-    let lit_str = literal.to_string();
+    // `to_string()` shows some values, such as decimals, in a form that does not parse
+    let lit_str = match literal.cast_to(&DataType::Utf8) {
+        Ok(ScalarValue::Utf8(Some(s))) => s,
+        _ => return None,
+    };
 
     let filter = match op {
         Operator::Eq => field.eq(lit_str),
-- 
2.43.0


From a09fadc42bde0f04dbbd5e4a753e3113b9fed9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:33 +0000
Subject: [PATCH 34/41] fix: SQL filters on columns that are not partition
 fields do not fail the query

The filters were handed to partition pruning, which rejects other fields.
---
 crates/datafusion/src/lib.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index 0fdf8a9..bd7e4b8 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -176,7 +176,15 @@ impl TableProvider for HudiDataSource {
         self.table.register_storage(state.runtime_env().clone());
 
         // Convert Datafusion `Expr` to `Filter`
-        let pushdown_filters = exprs_to_filters(filters);
+        let mut pushdown_filters = exprs_to_filters(filters);
+        if !pushdown_filters.is_empty() {
+            // File slices are pruned by partition, so only filters on partition fields apply.
+            let partition_schema = self.table.get_partition_schema().await.map_err(|e| {
+                Execution(format!("Failed to get partition schema from Hudi table: {}", e))
+            })?;
+            pushdown_filters
+                .retain(|(field, _, _)| partition_schema.column_with_name(field).is_some());
+        }
         let file_slices = self
             .table
             .get_file_slices_splits(self.get_input_partitions(), &pushdown_filters.as_strs())
-- 
2.43.0


From 43dcd470f0972549658cb4ca3a03f7784fe12123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:09 +0000
Subject: [PATCH 35/41] fix: a SQL table whose schema cannot be read fails to
 open instead of having no columns

The error was turned into an empty schema each time the schema was asked for; scans then panicked
or returned rows without columns.
---
 crates/datafusion/src/lib.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/crates/datafusion/src/lib.rs b/crates/datafusion/src/lib.rs
index bd7e4b8..52a5c68 100644
--- a/crates/datafusion/src/lib.rs
+++ b/crates/datafusion/src/lib.rs
@@ -23,7 +23,6 @@ use std::any::Any;
 use std::collections::HashMap;
 use std::fmt::Debug;
 use std::sync::Arc;
-use std::thread;
 
 use arrow_schema::{Schema, SchemaRef};
 use async_trait::async_trait;
@@ -78,6 +77,7 @@ use hudi_core::util::StrTupleRef;
 #[derive(Clone, Debug)]
 pub struct HudiDataSource {
     table: Arc<HudiTable>,
+    schema: SchemaRef,
 }
 
 impl HudiDataSource {
@@ -91,10 +91,19 @@ impl HudiDataSource {
         K: AsRef<str>,
         V: Into<String>,
     {
-        match HudiTable::new_with_options(base_uri, options).await {
-            Ok(t) => Ok(Self { table: Arc::new(t) }),
-            Err(e) => Err(Execution(format!("Failed to create Hudi table: {}", e))),
-        }
+        let table = HudiTable::new_with_options(base_uri, options)
+            .await
+            .map_err(|e| Execution(format!("Failed to create Hudi table: {}", e)))?;
+        // `TableProvider::schema()` cannot fail, so a failure to read the schema has to surface here.
+        let schema = match table.get_schema().await {
+            Ok(schema) => schema,
+            Err(_) if table.get_timeline().completed_commits.is_empty() => Schema::empty(),
+            Err(e) => return Err(Execution(format!("Failed to get table schema: {}", e))),
+        };
+        Ok(Self {
+            table: Arc::new(table),
+            schema: SchemaRef::from(schema),
+        })
     }
 
     fn get_input_partitions(&self) -> usize {
@@ -153,13 +162,7 @@ impl TableProvider for HudiDataSource {
     }
 
     fn schema(&self) -> SchemaRef {
-        let table = self.table.clone();
-        let handle = thread::spawn(move || {
-            let rt = tokio::runtime::Runtime::new().unwrap();
-            rt.block_on(async { table.get_schema().await })
-        });
-        let result = handle.join().unwrap().unwrap_or_else(|_| Schema::empty());
-        SchemaRef::from(result)
+        self.schema.clone()
     }
 
     fn table_type(&self) -> TableType {
-- 
2.43.0


From 69b16f96f50af7dc30657c2a43b1a6e064a0ab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:26 +0000
Subject: [PATCH 36/41] fix: time travel in a table without commits returns no
 rows instead of failing

---
 crates/core/src/table/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 2e59228..0f1cb83 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -324,6 +324,10 @@ impl Table {
             .timeline
             .get_replaced_file_groups_as_of(timestamp)
             .await?;
+        if self.timeline.completed_commits.is_empty() {
+            // Without any commit there is no schema to resolve the partition fields with.
+            return Ok(Vec::new());
+        }
         let partition_schema = self.get_partition_schema().await?;
         let partition_pruner =
             PartitionPruner::new(filters, &partition_schema, self.hudi_configs.as_ref())?;
-- 
2.43.0


From e589f9504cbe6bf42e74cc404f4c199113cef3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:14 +0000
Subject: [PATCH 37/41] fix: file slices listed for an interval carry the size
 and number of rows of their base files

---
 crates/core/src/table/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/table/mod.rs b/crates/core/src/table/mod.rs
index 0f1cb83..66d4663 100644
--- a/crates/core/src/table/mod.rs
+++ b/crates/core/src/table/mod.rs
@@ -359,7 +359,12 @@ impl Table {
 
         let start = start_timestamp.unwrap_or(EARLIEST_START_TIMESTAMP);
 
-        self.get_file_slices_between_internal(start, end).await
+        let mut file_slices = self.get_file_slices_between_internal(start, end).await?;
+        for fsl in file_slices.iter_mut() {
+            fsl.load_metadata_if_needed(&self.file_system_view.storage)
+                .await?;
+        }
+        Ok(file_slices)
     }
 
     async fn get_file_slices_between_internal(
-- 
2.43.0


From 6d3717e88299bb7999fbbc4eeb11aa8a5a70a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 38/41] fix: Avro timestamps are read as UTC, so that log
 records can be merged with base files

Base files store timestamps adjusted to UTC. Reading a slice of a table with a timestamp column
failed as soon as it had Avro log files.
---
 .../src/avro_to_arrow/arrow_array_reader.rs   | 43 +++++++++++++------
 crates/core/src/avro_to_arrow/schema.rs       | 11 +++--
 2 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/crates/core/src/avro_to_arrow/arrow_array_reader.rs b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
index eab17f1..feabcce 100644
--- a/crates/core/src/avro_to_arrow/arrow_array_reader.rs
+++ b/crates/core/src/avro_to_arrow/arrow_array_reader.rs
@@ -639,18 +639,37 @@ impl<I: Iterator<Item = AvroResult<Value>>> AvroArrowArrayReader<I> {
                     DataType::UInt16 => self.build_primitive_array::<UInt16Type>(rows, &field_path),
                     DataType::UInt8 => self.build_primitive_array::<UInt8Type>(rows, &field_path),
                     // TODO: this is incomplete
-                    DataType::Timestamp(unit, _) => match unit {
-                        TimeUnit::Second => {
-                            self.build_primitive_array::<TimestampSecondType>(rows, &field_path)
-                        }
-                        TimeUnit::Microsecond => self
-                            .build_primitive_array::<TimestampMicrosecondType>(rows, &field_path),
-                        TimeUnit::Millisecond => self
-                            .build_primitive_array::<TimestampMillisecondType>(rows, &field_path),
-                        TimeUnit::Nanosecond => {
-                            self.build_primitive_array::<TimestampNanosecondType>(rows, &field_path)
-                        }
-                    },
+                    DataType::Timestamp(unit, _) => {
+                        let array = match unit {
+                            TimeUnit::Second => {
+                                self.build_primitive_array::<TimestampSecondType>(rows, &field_path)
+                            }
+                            TimeUnit::Microsecond => self
+                                .build_primitive_array::<TimestampMicrosecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                            TimeUnit::Millisecond => self
+                                .build_primitive_array::<TimestampMillisecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                            TimeUnit::Nanosecond => self
+                                .build_primitive_array::<TimestampNanosecondType>(
+                                    rows,
+                                    &field_path,
+                                ),
+                        };
+                        // set the time zone
+                        let data_type = field.data_type().clone();
+                        make_array(
+                            array
+                                .to_data()
+                                .into_builder()
+                                .data_type(data_type)
+                                .build()?,
+                        )
+                    }
                     DataType::Date64 => self.build_primitive_array::<Date64Type>(rows, &field_path),
                     DataType::Date32 => self.build_primitive_array::<Date32Type>(rows, &field_path),
                     DataType::Time64(unit) => {
diff --git a/crates/core/src/avro_to_arrow/schema.rs b/crates/core/src/avro_to_arrow/schema.rs
index f296d12..9abf479 100644
--- a/crates/core/src/avro_to_arrow/schema.rs
+++ b/crates/core/src/avro_to_arrow/schema.rs
@@ -137,9 +137,9 @@ fn schema_to_field_with_props(
         AvroSchema::Date => DataType::Date32,
         AvroSchema::TimeMillis => DataType::Time32(TimeUnit::Millisecond),
         AvroSchema::TimeMicros => DataType::Time64(TimeUnit::Microsecond),
-        AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, None),
-        AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, None),
-        AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, None),
+        AvroSchema::TimestampMillis => DataType::Timestamp(TimeUnit::Millisecond, utc()),
+        AvroSchema::TimestampMicros => DataType::Timestamp(TimeUnit::Microsecond, utc()),
+        AvroSchema::TimestampNanos => DataType::Timestamp(TimeUnit::Nanosecond, utc()),
         AvroSchema::LocalTimestampMillis => return Err(unsupported("local-timestamp-millis")),
         AvroSchema::LocalTimestampMicros => return Err(unsupported("local-timestamp-micros")),
         AvroSchema::LocalTimestampNanos => return Err(unsupported("local-timestamp-nanos")),
@@ -154,6 +154,11 @@ fn schema_to_field_with_props(
     Ok(field)
 }
 
+/// Avro's timestamps are instants on the global timeline, written as UTC-adjusted to Parquet files.
+fn utc() -> Option<Arc<str>> {
+    Some("UTC".into())
+}
+
 fn unsupported(what: &str) -> CoreError {
     CoreError::Unsupported(format!("Avro schema is not supported: {what}"))
 }
-- 
2.43.0


From 478d6673670d59f391a38bf9a9e28f7294dfbcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 39/41] fix: merge records by the names of their columns when
 the schema has evolved

Log records written with other columns than the base file's, or with columns in another order, made
the read fail or had their values put into the wrong column.
---
 crates/core/src/file_group/reader.rs   | 27 +++++++++++++++-
 crates/core/src/merge/record_merger.rs | 43 ++++++++++++++++++++++++--
 2 files changed, 66 insertions(+), 4 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index d60c4b1..b911d1d 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -33,6 +33,7 @@ use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
 use arrow_array::{BooleanArray, RecordBatch};
+use arrow_schema::{Field, FieldRef, Schema, SchemaRef};
 use futures::TryFutureExt;
 use std::convert::TryFrom;
 use std::sync::Arc;
@@ -210,6 +211,27 @@ impl FileGroupReader {
         InstantRange::new(timezone, start_timestamp, end_timestamp, false, true)
     }
 
+    /// Adds the columns that the records were written with after the schema was evolved.
+    fn add_missing_fields(schema: SchemaRef, records: &RecordBatch) -> SchemaRef {
+        let missing: Vec<Field> = records
+            .schema_ref()
+            .fields()
+            .iter()
+            .filter(|field| schema.field_with_name(field.name()).is_err())
+            .map(|field| field.as_ref().clone().with_nullable(true))
+            .collect();
+        if missing.is_empty() {
+            return schema;
+        }
+        let fields: Vec<FieldRef> = schema
+            .fields()
+            .iter()
+            .cloned()
+            .chain(missing.into_iter().map(Arc::new))
+            .collect();
+        Arc::new(Schema::new_with_metadata(fields, schema.metadata().clone()))
+    }
+
     /// Reads the data from the given file slice.
     ///
     /// # Arguments
@@ -230,7 +252,7 @@ impl FileGroupReader {
             // A record version from before the start timestamp may supersede a later one by its
             // precombine value, hence filtering by commit time has to follow merging.
             let base_record_batch = self.read_base_file(&relative_path).await?;
-            let schema = base_record_batch.schema();
+            let mut schema = base_record_batch.schema();
             let mut all_record_batches = vec![base_record_batch];
 
             let log_file_paths = file_slice
@@ -247,6 +269,9 @@ impl FileGroupReader {
             for log_record_batch in log_record_batches {
                 all_record_batches.extend(log_record_batch);
             }
+            for record_batch in &all_record_batches {
+                schema = Self::add_missing_fields(schema, record_batch);
+            }
 
             let merger = RecordMerger::new(self.hudi_configs.clone());
             let records = merger.merge_record_batches(&schema, &all_record_batches)?;
diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 74fc568..847a100 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -27,9 +27,9 @@ use crate::metadata::meta_field::MetaField;
 use crate::util::arrow::lexsort_to_indices;
 use crate::util::arrow::ColumnAsArray;
 use crate::Result;
-use arrow::compute::take_record_batch;
-use arrow_array::{Array, RecordBatch, UInt32Array};
-use arrow_schema::SchemaRef;
+use arrow::compute::{cast, take_record_batch};
+use arrow_array::{new_null_array, Array, ArrayRef, RecordBatch, UInt32Array};
+use arrow_schema::{ArrowError, DataType, SchemaRef};
 use arrow_select::concat::concat_batches;
 use std::collections::HashMap;
 use std::str::FromStr;
@@ -79,6 +79,39 @@ impl RecordMerger {
         Self { hudi_configs }
     }
 
+    /// Arranges the columns of the batch in the order of the schema's fields. Nullable fields
+    /// that the batch doesn't have are filled with nulls.
+    fn align_with_schema(schema: &SchemaRef, batch: &RecordBatch) -> Result<RecordBatch> {
+        if batch.schema_ref().fields() == schema.fields() {
+            return Ok(batch.clone());
+        }
+        let columns = schema
+            .fields()
+            .iter()
+            .map(|field| match batch.column_by_name(field.name()) {
+                Some(column) => {
+                    let same_values = match (column.data_type(), field.data_type()) {
+                        (DataType::Timestamp(a, _), DataType::Timestamp(b, _)) => a == b,
+                        (a, b) => a.equals_datatype(b),
+                    };
+                    if same_values && column.data_type() != field.data_type() {
+                        cast(column, field.data_type())
+                    } else {
+                        Ok(column.clone())
+                    }
+                }
+                None if field.is_nullable() => {
+                    Ok(new_null_array(field.data_type(), batch.num_rows()))
+                }
+                None => Err(ArrowError::SchemaError(format!(
+                    "Column {} not found in the records to merge.",
+                    field.name()
+                ))),
+            })
+            .collect::<std::result::Result<Vec<ArrayRef>, ArrowError>>()?;
+        Ok(RecordBatch::try_new(schema.clone(), columns)?)
+    }
+
     pub fn merge_record_batches(
         &self,
         schema: &SchemaRef,
@@ -87,6 +120,10 @@ impl RecordMerger {
         if batches.is_empty() {
             return Ok(RecordBatch::new_empty(schema.clone()));
         }
+        let batches = &batches
+            .iter()
+            .map(|batch| Self::align_with_schema(schema, batch))
+            .collect::<Result<Vec<RecordBatch>>>()?;
 
         let merge_strategy = self
             .hudi_configs
-- 
2.43.0


From 706594b4ae8306e1c247417f0798cd7981c0b16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:29 +0000
Subject: [PATCH 40/41] fix: the schema after a commit of log files is that of
 the commit, not of an older base file

---
 crates/core/src/timeline/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/crates/core/src/timeline/mod.rs b/crates/core/src/timeline/mod.rs
index e0c1774..6c4fcc2 100644
--- a/crates/core/src/timeline/mod.rs
+++ b/crates/core/src/timeline/mod.rs
@@ -387,7 +387,11 @@ impl Timeline {
                 Ok(self.storage.get_parquet_file_schema(path).await?)
             }
             Some(_) => {
-                // TODO: properly handle deltacommit
+                // The log file was written with the schema of the commit, which the base file
+                // may be older than.
+                if let Ok(schema) = self.get_schema_from_commit_extra_metadata(&commit_metadata) {
+                    return Ok(schema);
+                }
                 let base_file = first_value
                     .and_then(|v| v["baseFile"].as_str())
                     .ok_or_else(|| {
-- 
2.43.0


From 9b94e46a717ff32275031c0ace84f6baa49a9f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:21 +0000
Subject: [PATCH 41/41] fix: merge records whose column type was promoted after
 a schema evolution

---
 crates/core/src/file_group/reader.rs   | 34 ++++++++++++--------------
 crates/core/src/merge/record_merger.rs |  5 +++-
 crates/core/src/util/arrow.rs          | 15 +++++++++++-
 3 files changed, 33 insertions(+), 21 deletions(-)

diff --git a/crates/core/src/file_group/reader.rs b/crates/core/src/file_group/reader.rs
index b911d1d..187ad79 100644
--- a/crates/core/src/file_group/reader.rs
+++ b/crates/core/src/file_group/reader.rs
@@ -29,11 +29,12 @@ use crate::metadata::meta_field::MetaField;
 use crate::storage::Storage;
 use crate::timeline::selector::InstantRange;
 use crate::timeline::CommittedInstants;
+use crate::util::arrow::is_promotable;
 use crate::Result;
 use arrow::compute::and;
 use arrow::compute::filter_record_batch;
 use arrow_array::{BooleanArray, RecordBatch};
-use arrow_schema::{Field, FieldRef, Schema, SchemaRef};
+use arrow_schema::{FieldRef, Schema, SchemaRef};
 use futures::TryFutureExt;
 use std::convert::TryFrom;
 use std::sync::Arc;
@@ -211,24 +212,19 @@ impl FileGroupReader {
         InstantRange::new(timezone, start_timestamp, end_timestamp, false, true)
     }
 
-    /// Adds the columns that the records were written with after the schema was evolved.
-    fn add_missing_fields(schema: SchemaRef, records: &RecordBatch) -> SchemaRef {
-        let missing: Vec<Field> = records
-            .schema_ref()
-            .fields()
-            .iter()
-            .filter(|field| schema.field_with_name(field.name()).is_err())
-            .map(|field| field.as_ref().clone().with_nullable(true))
-            .collect();
-        if missing.is_empty() {
-            return schema;
+    /// Adds the columns that the records were written with after the schema was evolved, and
+    /// promotes the types of those that were promoted.
+    fn evolve_schema(schema: SchemaRef, records: &RecordBatch) -> SchemaRef {
+        let mut fields: Vec<FieldRef> = schema.fields().iter().cloned().collect();
+        for field in records.schema_ref().fields() {
+            match fields.iter_mut().find(|f| f.name() == field.name()) {
+                None => fields.push(Arc::new(field.as_ref().clone().with_nullable(true))),
+                Some(f) if is_promotable(f.data_type(), field.data_type()) => {
+                    *f = Arc::new(f.as_ref().clone().with_data_type(field.data_type().clone()))
+                }
+                Some(_) => {}
+            }
         }
-        let fields: Vec<FieldRef> = schema
-            .fields()
-            .iter()
-            .cloned()
-            .chain(missing.into_iter().map(Arc::new))
-            .collect();
         Arc::new(Schema::new_with_metadata(fields, schema.metadata().clone()))
     }
 
@@ -270,7 +266,7 @@ impl FileGroupReader {
                 all_record_batches.extend(log_record_batch);
             }
             for record_batch in &all_record_batches {
-                schema = Self::add_missing_fields(schema, record_batch);
+                schema = Self::evolve_schema(schema, record_batch);
             }
 
             let merger = RecordMerger::new(self.hudi_configs.clone());
diff --git a/crates/core/src/merge/record_merger.rs b/crates/core/src/merge/record_merger.rs
index 847a100..fe3f9fc 100644
--- a/crates/core/src/merge/record_merger.rs
+++ b/crates/core/src/merge/record_merger.rs
@@ -24,6 +24,7 @@ use crate::config::table::HudiTableConfig::{
 use crate::config::HudiConfigs;
 use crate::merge::RecordMergeStrategyValue;
 use crate::metadata::meta_field::MetaField;
+use crate::util::arrow::is_promotable;
 use crate::util::arrow::lexsort_to_indices;
 use crate::util::arrow::ColumnAsArray;
 use crate::Result;
@@ -94,7 +95,9 @@ impl RecordMerger {
                         (DataType::Timestamp(a, _), DataType::Timestamp(b, _)) => a == b,
                         (a, b) => a.equals_datatype(b),
                     };
-                    if same_values && column.data_type() != field.data_type() {
+                    let castable =
+                        same_values || is_promotable(column.data_type(), field.data_type());
+                    if castable && column.data_type() != field.data_type() {
                         cast(column, field.data_type())
                     } else {
                         Ok(column.clone())
diff --git a/crates/core/src/util/arrow.rs b/crates/core/src/util/arrow.rs
index fd8c1f4..2a63a73 100644
--- a/crates/core/src/util/arrow.rs
+++ b/crates/core/src/util/arrow.rs
@@ -23,7 +23,20 @@ use arrow::array::RecordBatch;
 use arrow::array::StringArray;
 use arrow_array::{Array, UInt32Array};
 use arrow_row::{RowConverter, SortField};
-use arrow_schema::ArrowError;
+use arrow_schema::{ArrowError, DataType};
+
+/// Whether values of a type can be read as another one after the schema has evolved, according to
+/// the schema resolution of Avro for numeric types.
+pub(crate) fn is_promotable(from: &DataType, to: &DataType) -> bool {
+    matches!(
+        (from, to),
+        (
+            DataType::Int32,
+            DataType::Int64 | DataType::Float32 | DataType::Float64
+        ) | (DataType::Int64, DataType::Float32 | DataType::Float64)
+            | (DataType::Float32, DataType::Float64)
+    )
+}
 
 pub trait ColumnAsArray {
     fn get_array(&self, column_name: &str) -> Result<ArrayRef>;
-- 
2.43.0

