From ddf359f882611786a6ccbb5f8a5e11d9715bce87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 1/8] fix: fill leaves mapblocks that are not generated alone

---
 src/commands/fill.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index e838b2a..1504485 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -3,7 +3,7 @@ use super::Command;
 use crate::unwrap_or;
 use crate::spatial::{Vec3, Area, InverseBlockIterator};
 use crate::instance::{ArgType, InstBundle};
-use crate::map_block::MapBlock;
+use crate::map_block::{MapBlock, is_valid_generated};
 use crate::block_utils::clean_name_id_map;
 use crate::utils::{query_keys, to_bytes, fmt_big_num};
 
@@ -44,6 +44,9 @@ fn fill(inst: &mut InstBundle) {
 		let data = inst.db.get_block(key).unwrap();
 		let mut block = unwrap_or!(MapBlock::deserialize(&data),
 			{ inst.status.inc_failed(); continue; });
+		if !is_valid_generated(&data) {
+			continue;
+		}
 
 		if area.contains_block(pos) != area.touches_block(pos) {
 			// Fill part of block
-- 
2.43.0


From 8d7bb7ad919c73cfcb6109acedb303bd0d48c4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:46 +0000
Subject: [PATCH 2/8] fix: fill --invert reports the number of nodes actually
 filled

---
 src/commands/fill.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/commands/fill.rs b/src/commands/fill.rs
index 1504485..0b6045d 100644
--- a/src/commands/fill.rs
+++ b/src/commands/fill.rs
@@ -58,7 +58,11 @@ fn fill(inst: &mut InstBundle) {
 			});
 			fill_area(&mut block, fill_id, block_part, inst.args.invert);
 			clean_name_id_map(&mut block);
-			count += block_part.volume();
+			count += if inst.args.invert {
+				block.node_data.nodes.len() as u64 - block_part.volume()
+			} else {
+				block_part.volume()
+			};
 		} else { // Fill entire block
 			block.node_data.nodes.fill(0);
 			block.nimap.0.clear();
-- 
2.43.0


From 6f8fd536f52c58484791bfc9852f33c16e97a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 3/8] fix: write long strings completely

Compressing writers may take only part of the data in one write call, so
names, metadata values and object data could be cut short and the mapblock
could no longer be read.
---
 src/map_block/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/map_block/mod.rs b/src/map_block/mod.rs
index df128c1..fedbf68 100644
--- a/src/map_block/mod.rs
+++ b/src/map_block/mod.rs
@@ -79,14 +79,14 @@ fn read_string32(src: &mut Cursor<&[u8]>) -> Result<Vec<u8>, MapBlockError> {
 fn write_string16<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u16::try_from(data.len()).unwrap();
 	dst.write_u16::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
 fn write_string32<T: Write>(dst: &mut T, data: &[u8]) {
 	let len = u32::try_from(data.len()).unwrap();
 	dst.write_u32::<BigEndian>(len).unwrap();
-	dst.write(data).unwrap();
+	dst.write_all(data).unwrap();
 }
 
 
-- 
2.43.0


From ed232ea229fe7db874d0150d9bc0f348c09bacfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:16 +0000
Subject: [PATCH 4/8] fix: skip mapblocks that contradict themselves

Mapblocks with node IDs that have no name, no names at all, name IDs beyond
the number of nodes, or metadata or node timers outside the block made
commands panic, so that one such block stopped a whole run. They are now
reported as bad data and skipped like other invalid mapblocks.
---
 src/map_block/map_block.rs | 26 ++++++++++++++++++++++++--
 src/map_block/node_data.rs |  2 +-
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/map_block/map_block.rs b/src/map_block/map_block.rs
index a146a5f..d937f44 100644
--- a/src/map_block/map_block.rs
+++ b/src/map_block/map_block.rs
@@ -1,4 +1,5 @@
 use super::*;
+use super::node_data::NODE_COUNT;
 use zstd;
 
 /*
@@ -115,7 +116,7 @@ impl MapBlock {
 
 		let node_timers = deserialize_timers(&mut crs)?;
 
-		Ok(Self {
+		let block = Self {
 			version,
 			flags,
 			lighting_complete,
@@ -127,7 +128,28 @@ impl MapBlock {
 			timestamp,
 			nimap: nimap.unwrap(),
 			node_timers
-		})
+		};
+		if !block.is_consistent() {
+			return Err(MapBlockError::BadData);
+		}
+		Ok(block)
+	}
+
+	/// Return `true` if all node IDs have a name and all metadata and node
+	/// timers belong to a node of the block.
+	fn is_consistent(&self) -> bool {
+		let mut has_name = [false; NODE_COUNT];
+		for &id in self.nimap.0.keys() {
+			match has_name.get_mut(id as usize) {
+				Some(has) => *has = true,
+				None => return false // Minetest never saves such large IDs.
+			}
+		}
+
+		self.node_data.nodes.iter()
+			.all(|&id| has_name.get(id as usize) == Some(&true))
+		&& self.metadata.keys().all(|&pos| (pos as usize) < NODE_COUNT)
+		&& self.node_timers.iter().all(|t| (t.pos as usize) < NODE_COUNT)
 	}
 
 	pub fn serialize(&self) -> Vec<u8> {
diff --git a/src/map_block/node_data.rs b/src/map_block/node_data.rs
index 00de807..e86414d 100644
--- a/src/map_block/node_data.rs
+++ b/src/map_block/node_data.rs
@@ -6,7 +6,7 @@ use flate2::Compression;
 
 
 const BLOCK_SIZE: usize = 16;
-const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
+pub const NODE_COUNT: usize = BLOCK_SIZE * BLOCK_SIZE * BLOCK_SIZE;
 
 
 #[derive(Clone, Debug)]
-- 
2.43.0


From 593ce6cf00c11f11297c30eaa929d18e483ee396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:16 +0000
Subject: [PATCH 5/8] fix: overlay does not copy from input mapblocks that are
 not generated

When an area covers a mapblock in part, overlay merged whatever the input
mapblock contained, including placeholders of mapblocks that were never
generated. Whole mapblocks, and overlays with an offset, are only copied from
generated mapblocks, and the same now holds in this case.
---
 src/commands/overlay.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index ce9e14d..cd49b8f 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -69,6 +69,9 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
+					if !is_valid_generated(&src_data) {
+						return Ok(());
+					}
 
 					let mut src_block = MapBlock::deserialize(&src_data)?;
 					let mut dst_block = MapBlock::deserialize(&dst_data)?;
-- 
2.43.0


From 880614ddee25f5eb76b2bcf55ce0d6937f39acb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:34 +0000
Subject: [PATCH 6/8] fix: clone and overlay stop at database errors instead of
 skipping mapblocks

---
 src/commands/clone.rs   |  2 +-
 src/commands/overlay.rs |  7 ++++---
 src/map_database.rs     | 11 +++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/commands/clone.rs b/src/commands/clone.rs
index 5fdb0b3..36f772a 100644
--- a/src/commands/clone.rs
+++ b/src/commands/clone.rs
@@ -35,7 +35,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.try_get_block(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.map(|d| MapBlock::deserialize(&d));
 			cache.insert(key, block.clone());
diff --git a/src/commands/overlay.rs b/src/commands/overlay.rs
index cd49b8f..2a2f4dd 100644
--- a/src/commands/overlay.rs
+++ b/src/commands/overlay.rs
@@ -65,7 +65,7 @@ fn overlay_no_offset(inst: &mut InstBundle) {
 			} else { // Copy part of mapblock
 				let res = || -> Result<(), MapBlockError> {
 					let dst_data = opt_unwrap_or!(
-						db.get_block(key).ok()
+						db.try_get_block(key).unwrap()
 							.filter(|d| is_valid_generated(&d)),
 						return Ok(()));
 					let src_data = idb.get_block(key).unwrap();
@@ -122,7 +122,7 @@ fn get_cached(
 	match cache.get(&key) {
 		Some(data) => data.clone(),
 		None => {
-			let block = db.get_block(key).ok()
+			let block = db.try_get_block(key).unwrap()
 				.filter(|d| is_valid_generated(d))
 				.and_then(|d| MapBlock::deserialize(&d).ok());
 			cache.insert(key, block.clone());
@@ -152,7 +152,8 @@ fn overlay_with_offset(inst: &mut InstBundle) {
 
 		let dst_pos = Vec3::from_block_key(dst_key);
 		let dst_data = opt_unwrap_or!(
-			inst.db.get_block(dst_key).ok().filter(|d| is_valid_generated(d)),
+			inst.db.try_get_block(dst_key).unwrap()
+				.filter(|d| is_valid_generated(d)),
 			continue
 		);
 		let mut dst_block = unwrap_or!(
diff --git a/src/map_database.rs b/src/map_database.rs
index e9b4242..0749fef 100644
--- a/src/map_database.rs
+++ b/src/map_database.rs
@@ -119,6 +119,17 @@ impl<'a> MapDatabase<'a> {
 		value
 	}
 
+	/// Get a block that may be missing. Any other error is returned as such.
+	pub fn try_get_block(&mut self, map_key: i64)
+		-> Result<Option<Vec<u8>>, DBError>
+	{
+		match self.get_block(map_key) {
+			Ok(data) => Ok(Some(data)),
+			Err(DBError::MissingData) => Ok(None),
+			Err(e) => Err(e)
+		}
+	}
+
 	pub fn set_block(&mut self, map_key: i64, data: &[u8])
 		-> Result<(), DBError>
 	{
-- 
2.43.0


From e8c48e856450d133df57e22253ddfce9c8a480af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:57 +0000
Subject: [PATCH 7/8] fix: setparam2 uses the value given on the command line

---
 src/cmd_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cmd_line.rs b/src/cmd_line.rs
index f024712..155adf6 100644
--- a/src/cmd_line.rs
+++ b/src/cmd_line.rs
@@ -187,7 +187,7 @@ fn parse_cmd_line_args() -> anyhow::Result<InstArgs> {
 		delete_meta: sub_matches.is_present("delete_meta"),
 		key: sub_matches.value_of("key").map(str::to_string),
 		value: sub_matches.value_of("value").map(str::to_string),
-		param2: sub_matches.value_of("param2_val").map(|val| val.parse())
+		param2: sub_matches.value_of("param2").map(|val| val.parse())
 			.transpose().context("Invalid param2 value.")?,
 	})
 }
-- 
2.43.0


From 236b3cd718de85c74291290ac5cc8d8631b71137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:23 +0000
Subject: [PATCH 8/8] fix: replacenodes: keep name-ID map IDs below 4096 when
 the map has gaps

---
 src/commands/replace_nodes.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/commands/replace_nodes.rs b/src/commands/replace_nodes.rs
index 48653eb..c73b47b 100644
--- a/src/commands/replace_nodes.rs
+++ b/src/commands/replace_nodes.rs
@@ -4,6 +4,7 @@ use crate::unwrap_or;
 use crate::spatial::{Vec3, Area, InverseBlockIterator};
 use crate::instance::{ArgType, InstArgs, InstBundle};
 use crate::map_block::MapBlock;
+use crate::block_utils::clean_name_id_map;
 use crate::utils::{query_keys, to_bytes, fmt_big_num};
 
 
@@ -61,6 +62,9 @@ fn do_replace(
 			}
 			block.nimap.remove_shift(old_id);
 		}
+
+		// The new ID may be too large if there were gaps in the name-ID map.
+		clean_name_id_map(block);
 	}
 	// Replace nodes in whole mapblock.
 	else {
-- 
2.43.0

