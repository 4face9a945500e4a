From 55e55ebcda5ac34a106545a6905e1c4d869ca095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:44 +0000
Subject: [PATCH 01/29] fix: write the project creation date zero-padded

---
 src/parser/serde_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index d129182..b10e4a2 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -24,7 +24,7 @@ pub(crate) mod date_to_timestamp {
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
         let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
         let date_str = format!(
-            "{}{}{}{}{}{}",
+            "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
             date.month(),
             date.day(),
-- 
2.43.0


From 3105830332c7af2857f9669f2d30cc92761a1333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:09 +0000
Subject: [PATCH 02/29] fix: report malformed dates and out-of-range timestamps
 as errors instead of panicking

---
 src/parser/serde_util.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/parser/serde_util.rs b/src/parser/serde_util.rs
index b10e4a2..b816b91 100644
--- a/src/parser/serde_util.rs
+++ b/src/parser/serde_util.rs
@@ -2,27 +2,33 @@
 pub(crate) mod date_to_timestamp {
     use chrono::{Datelike, NaiveDate, NaiveDateTime, Timelike};
     use serde::{de, Deserialize, Serializer};
-    use serde::de::Error;
+    use serde::de::Error as _;
+    use serde::ser::Error as _;
 
     pub fn deserialize<'de, D>(deserializer: D) -> Result<u64, D::Error> where D: de::Deserializer<'de> {
         let v = String::deserialize(deserializer)?;
 
-        let year = v[0..4].parse::<i32>().map_err(D::Error::custom)?;
-        let month = v[4..6].parse::<u32>().map_err(D::Error::custom)?;
-        let day = v[6..8].parse::<u32>().map_err(D::Error::custom)?;
-        let hour = v[8..10].parse::<u32>().map_err(D::Error::custom)?;
-        let minute = v[10..12].parse::<u32>().map_err(D::Error::custom)?;
-        let second = v[12..14].parse::<u32>().map_err(D::Error::custom)?;
+        let part = |range: std::ops::Range<usize>| v.get(range)
+            .ok_or_else(|| D::Error::custom("a date in the format of yyyyMMddHHmmss"));
+
+        let year = part(0..4)?.parse::<i32>().map_err(D::Error::custom)?;
+        let month = part(4..6)?.parse::<u32>().map_err(D::Error::custom)?;
+        let day = part(6..8)?.parse::<u32>().map_err(D::Error::custom)?;
+        let hour = part(8..10)?.parse::<u32>().map_err(D::Error::custom)?;
+        let minute = part(10..12)?.parse::<u32>().map_err(D::Error::custom)?;
+        let second = part(12..14)?.parse::<u32>().map_err(D::Error::custom)?;
 
         Ok(
-            NaiveDate::from_ymd(year, month, day)
-                .and_hms(hour, minute, second)
+            NaiveDate::from_ymd_opt(year, month, day)
+                .and_then(|date| date.and_hms_opt(hour, minute, second))
+                .ok_or_else(|| D::Error::custom("a valid date"))?
                 .timestamp() as u64
         )
     }
 
     pub fn serialize<S>(timestamp: &u64, serializer: S) -> Result<S::Ok, S::Error> where S: Serializer {
-        let date = NaiveDateTime::from_timestamp(*timestamp as i64, 0);
+        let date = NaiveDateTime::from_timestamp_opt(*timestamp as i64, 0)
+            .ok_or_else(|| S::Error::custom("the timestamp is out of range"))?;
         let date_str = format!(
             "{:04}{:02}{:02}{:02}{:02}{:02}",
             date.year(),
-- 
2.43.0


From 3fca208abca4b9110c5b0fe177f2698052222a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:11 +0000
Subject: [PATCH 03/29] fix: do not write a blank line for an empty activity
 section of the file data

---
 src/parser/file.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser/file.rs b/src/parser/file.rs
index 182c267..46bd785 100644
--- a/src/parser/file.rs
+++ b/src/parser/file.rs
@@ -65,17 +65,16 @@ impl Parsable for File {
 
     fn reconstruct(&self) -> Result<String, Self::ReconstructionError> {
         Ok(format!(
-            "@activity\n{}\n@customview\n{}",
+            "@activity\n{}@customview\n{}",
             self.activities
                 .iter()
                 .try_fold(String::new(), |acc, i| {
-                    Ok(format!("{}\n{}", acc, i.reconstruct()
+                    Ok(format!("{}{}\n", acc, i.reconstruct()
                         .map_err(|err| FileReconstructionError::FileItemReconstructionError {
                             source: err,
                             item: i.to_owned()
                         })?))
-                })?
-                .trim(),
+                })?,
 
             self.custom_views
                 .iter()
-- 
2.43.0


From f32068bbc224781d2e91a1d0b1a1113e3961995c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:13 +0000
Subject: [PATCH 04/29] fix: write drawers back as drawers instead of custom
 views

---
 src/api/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 20d8268..ea54202 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -539,7 +539,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .iter()
                     .map(|custom_view| FileItem {
                         filename: custom_view.res_name.to_owned(),
-                        file_type: FileType::CustomView,
+                        // sketchware names the drawer of a screen `_drawer_{screen name}`
+                        file_type: if custom_view.res_name.starts_with("_drawer_") {
+                            FileType::Drawer
+                        } else {
+                            FileType::CustomView
+                        },
                         keyboard_setting: KeyboardSetting::Unspecified,
                         options: ActivityOptions {
                             toolbar_enabled: false,
-- 
2.43.0


From 399350cde130e86a76802100b11172fd68fcee6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:14 +0000
Subject: [PATCH 05/29] fix: keep the resource files on save unless they are
 automatically assigned

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index ea54202..d8bb5f7 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -768,7 +768,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                 fabs
             },
             logic: parser::logic::Logic { screens: logic_screens },
-            resource_files: val.automatic_res_file_ids.then(|| ResourceFiles {
+            resource_files: (!val.automatic_res_file_ids).then(|| ResourceFiles {
                 custom_icon: val.custom_icon,
                 images: image_resource_files,
                 sounds: sound_resource_files,
-- 
2.43.0


From d8d064031c10d0765a3adaba59e93e9331768fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:16 +0000
Subject: [PATCH 06/29] fix: keep the custom icon of a project opened without
 resource files

---
 src/api/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index d8bb5f7..df6a478 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -403,6 +403,9 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
             // to own Option<>
             custom_icon: if let Some(rf) = &val.resource_files {
                 rf.custom_icon.clone()
+            } else if val.project.custom_icon {
+                // same as the other resources, give it a random id
+                Some(ResourceFileWrapper::make_random_id("icon.png".to_string(), ResourceType::CustomIcon))
             } else { None },
             metadata: Metadata {
                 local_id: val.project.id,
-- 
2.43.0


From 63d23e80b99fd26607c14467eec9b73fbc71c1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:17 +0000
Subject: [PATCH 07/29] fix: refuse a resource id that is taken by a sound or a
 font

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index df6a478..6d71379 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -205,7 +205,7 @@ impl Resources {
         }
 
         // check if there is already a resource file with this id
-        if self.images.contains_key(&id) {
+        if self.get_resource(&id).is_some() {
             return Err(ResourceAdditionError::IdTaken { id });
         }
 
-- 
2.43.0


From 3284cd0c61164f0e6170b696a6a3c0edd1747d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:36 +0000
Subject: [PATCH 08/29] fix: separate the layouts of a view file with blank
 lines

---
 src/parser/view.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 57ee884..e675d5c 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -75,6 +75,9 @@ impl Parsable for View {
                 Ok(reconstructed_layout) => {
                     result.push_str(format!("@{}.xml\n", name).as_str());
                     result.push_str(reconstructed_layout.as_str());
+
+                    // a blank line ends a layout
+                    if !reconstructed_layout.is_empty() { result.push('\n'); }
                     result.push('\n');
                 }
 
@@ -88,9 +91,6 @@ impl Parsable for View {
             }
         }
 
-        // separate between the fabs and layouts
-        result.push('\n');
-
         for (name, view) in &self.fabs {
             match view.reconstruct() {
                 Ok(reconstructed_view) => {
-- 
2.43.0


From c9774795666122c0a295514d09c59ef909cb76af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:38 +0000
Subject: [PATCH 09/29] fix: do not stop parsing a view file at the blank line
 after a fab

---
 src/parser/view.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index e675d5c..331fca9 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -25,6 +25,8 @@ impl Parsable for View {
         let mut fabs = LinkedHashMap::<String, AndroidView>::new();
 
         while let Some(line) = lines.next() {
+            // sections are separated by blank lines
+            if line.is_empty() { continue; }
             if !line.starts_with("@") { break; }
 
             let (screen_name, container_type) =
-- 
2.43.0


From 4ff092b6f59405bf65705e3cd4aa00583c99478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:40 +0000
Subject: [PATCH 10/29] fix: do not panic on malformed logic section headers

---
 src/parser/logic.rs | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 6eb01ac..cdac136 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -26,6 +26,11 @@ impl Parsable for Logic {
         let mut screens = LinkedHashMap::<String, ScreenLogic>::new();
         let mut line_counter = 0u32;
 
+        /// Retrieves the screen name of a section header that has the given suffix
+        fn section_screen_name<'a>(header: &'a str, suffix: &str) -> Option<&'a str> {
+            header.strip_prefix('@')?.strip_suffix(suffix)
+        }
+
         loop {
             let line = lines.next();
             if line.is_none() { break; }
@@ -36,10 +41,10 @@ impl Parsable for Logic {
                 break;
             }
 
-            if line.ends_with("java_var") {
+            if let Some(screen_name) = section_screen_name(line, ".java_var") {
                 // variable pool
                 // read the screen name
-                let screen_name = (&line[1..line.len() - 9]).to_string(); // 8 (length of "java_var") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // parse variables
                 let variable_pool = variable::VariablePool::parse_iter(&mut lines)
@@ -54,10 +59,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .variables = Some(variable_pool);
 
-            } else if line.ends_with("java_list") {
+            } else if let Some(screen_name) = section_screen_name(line, ".java_list") {
                 // list variable pool
                 // get the screen name
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 -> length of "java_list" + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let list_variable_pool = list_variable::ListVariablePool::parse_iter(&mut lines)
@@ -73,10 +78,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .list_variables = Some(list_variable_pool);
 
-            } else if line.ends_with("java_components") {
+            } else if let Some(screen_name) = section_screen_name(line, ".java_components") {
                 // component pool
                 // get screen name
-                let screen_name = (&line[1..line.len() - 16]).to_string(); // 15 (length of "java_components") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let component_pool = component::ComponentPool::parse_iter(&mut lines)
@@ -92,10 +97,10 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .components = Some(component_pool);
 
-            } else if line.ends_with("java_events") {
+            } else if let Some(screen_name) = section_screen_name(line, ".java_events") {
                 // event pool
                 // get the screen name from the header
-                let screen_name = (&line[1..line.len() - 12]).to_string(); // 11 (length of "java_events") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let event_pool = event::EventPool::parse_iter(&mut lines)
@@ -111,9 +116,9 @@ impl Parsable for Logic {
                     .or_insert_with(||ScreenLogic::new_empty(screen_name.to_owned()))
                     .events = Some(event_pool);
 
-            } else if line.ends_with("java_func") {
+            } else if let Some(screen_name) = section_screen_name(line, ".java_func") {
                 // moreblocks pool
-                let screen_name = (&line[1..line.len() - 10]).to_string(); // 9 (length of "java_func") + 1 (the dot)
+                let screen_name = screen_name.to_string();
 
                 // then parse it
                 let more_block_pool = more_block::MoreBlockPool::parse_iter(&mut lines)
-- 
2.43.0


From 3461c7f8fe05494539ac6e7b1e1c92e6b769868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:42 +0000
Subject: [PATCH 11/29] fix: do not write blank lines for a screen without
 block containers

---
 src/parser/logic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index cdac136..bc8f608 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -238,7 +238,7 @@ impl Parsable for Logic {
                 result.push('\n');
             }
 
-            block_containers.push(result);
+            if !result.is_empty() { block_containers.push(result); }
         }
 
         // stitch them together and boom!
-- 
2.43.0


From 821b2dbdc6e37ab240b3736bb20b969d2e2afe65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:13 +0000
Subject: [PATCH 12/29] fix: write the target id of activity events

---
 src/api/screen.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/api/screen.rs b/src/api/screen.rs
index f40a854..053faf1 100644
--- a/src/api/screen.rs
+++ b/src/api/screen.rs
@@ -166,7 +166,12 @@ impl EventType {
                 event.target_type = component_type;
             }
 
-            EventType::ActivityEvent => event.event_type = 3
+            EventType::ActivityEvent => {
+                event.event_type = 3;
+
+                // the target of an activity event is the event itself
+                event.target_id = event.event_name.to_owned();
+            }
         }
     }
 }
-- 
2.43.0


From 1d85d5bfb6309657d0fdcae9115f42c95abd528c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:15 +0000
Subject: [PATCH 13/29] fix: make the type id of a view type the one it is read
 from

---
 src/api/view.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 1b26de5..af35ca1 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -324,6 +324,7 @@ impl ViewType {
     pub fn get_type_id(&self) -> u8 {
         match self {
             ViewType::LinearLayout { .. }   => 0,
+            ViewType::ScrollView { orientation: Orientation::Vertical, .. } => 12,
             ViewType::ScrollView { .. }     => 2,
             ViewType::Button { .. }         => 3,
             ViewType::TextView { .. }       => 4,
@@ -334,12 +335,12 @@ impl ViewType {
             ViewType::ListView { .. }       => 9,
             ViewType::Spinner { .. }        => 10,
             ViewType::CheckBox { .. }       => 11,
-            ViewType::Switch { .. }         => 12,
-            ViewType::SeekBar { .. }        => 13,
-            ViewType::CalendarView { .. }   => 14,
-            ViewType::Fab { .. }            => 15,
-            ViewType::AdView { .. }         => 16,
-            ViewType::MapView               => 17,
+            ViewType::Switch { .. }         => 13,
+            ViewType::SeekBar { .. }        => 14,
+            ViewType::CalendarView { .. }   => 15,
+            ViewType::Fab { .. }            => 16,
+            ViewType::AdView { .. }         => 17,
+            ViewType::MapView               => 18,
         }
     }
 
-- 
2.43.0


From 9d2d1ef1a73b4dc72e039fb6f127d55271e2f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:17 +0000
Subject: [PATCH 14/29] fix: write the type of a view as documented, depending
 on its view field

---
 src/api/view.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/view.rs b/src/api/view.rs
index af35ca1..6872931 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -538,6 +538,7 @@ pub fn flatten_views(views: Vec<View>, parent_id: Option<String>, parent_type: O
         let view_type_id = if let Ok(view_type) = view.view {
             // set the type id to the one from view
             let type_id = view_type.get_type_id();
+            result_view.r#type = type_id;
 
             view_type.apply_values_to_view(&mut result_view);
 
-- 
2.43.0


From ddeb8fa125b5312edc36ee935489da7cb9f97cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:18 +0000
Subject: [PATCH 15/29] fix: do not overwrite the layout orientation of scroll
 views

---
 src/api/view.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/api/view.rs b/src/api/view.rs
index 6872931..0cbe3ae 100644
--- a/src/api/view.rs
+++ b/src/api/view.rs
@@ -352,8 +352,8 @@ impl ViewType {
                 view.layout.gravity = gravity;
             }
 
-            ViewType::ScrollView { orientation, gravity } => {
-                view.layout.orientation = orientation;
+            ViewType::ScrollView { gravity, .. } => {
+                // the orientation of a scroll view is stored in its type id
                 view.layout.gravity = gravity;
             }
 
-- 
2.43.0


From ecdc93360875dd7805ab84f52a950f689afd1ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:20 +0000
Subject: [PATCH 16/29] fix: give a screen without logic its java name

---
 src/api/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index 6d71379..d46d566 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -353,7 +353,7 @@ impl TryFrom<ParsedSketchwareProject> for SketchwareProject {
                 // if it can't find any logic then create an empty ScreenLogic
                 let logic = val.logic.screens
                     .remove(view_name_to_logic(name.as_str()).as_str())
-                    .unwrap_or_else(||ScreenLogic::new_empty(file_entry.filename.clone()));
+                    .unwrap_or_else(||ScreenLogic::new_empty(view_name_to_logic(name.as_str())));
 
                 // get our fab (if we have one)
                 let fab = val.view.fabs
-- 
2.43.0


From 47421c82663d715e93fb264becb0d64401e3e24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:21 +0000
Subject: [PATCH 17/29] fix: point sub stacks to their first block

---
 src/api/block.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 3f7089a..67b118b 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -181,6 +181,10 @@ impl Blocks {
             let sub_stack1_id = block.sub_stack1
                 .map(|ss1| {
                     let mut ss1_blocks = ss1.to_block_container(*id_counter + 1);
+                    let ss1_first_id = ss1_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss1_last_id = ss1_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -189,12 +193,16 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss1_blocks.0);
 
                     if ss1_last_id != -1 { *id_counter = ss1_last_id as u32; }
-                    ss1_last_id
+                    ss1_first_id
                 }).unwrap_or_else(|| -1);
 
             let sub_stack2_id = block.sub_stack2
                 .map(|ss2| {
                     let mut ss2_blocks = ss2.to_block_container(*id_counter + 1);
+                    let ss2_first_id = ss2_blocks.0
+                        .first()
+                        .map(|b| b.id.parse::<i32>().unwrap())
+                        .unwrap_or_else(|| -1);
                     let ss2_last_id = ss2_blocks.0
                         .last()
                         .map(|b| b.id.parse::<i32>().unwrap())
@@ -203,7 +211,7 @@ impl Blocks {
                     sub_stack_blocks.append(&mut ss2_blocks.0);
 
                     if ss2_last_id != -1 { *id_counter = ss2_last_id as u32; }
-                    ss2_last_id
+                    ss2_first_id
                 }).unwrap_or_else(|| -1);
 
             /////////
-- 
2.43.0


From adcfeba9edb67be4d89fb025a8b87744e1c4580b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:23 +0000
Subject: [PATCH 18/29] fix: reference argument blocks by their own id

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 67b118b..1822ab8 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -257,8 +257,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val,
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -270,8 +270,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -291,12 +291,12 @@ impl Blocks {
                                     BlockType::Argument(ArgumentBlockReturnType::Boolean)
                                 );
 
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             },
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
@@ -308,8 +308,8 @@ impl Blocks {
                         match value {
                             ArgValue::Value(val) => val.to_string(),
                             ArgValue::Block(block) => {
-                                convert_block(&mut block_args, block, &mut id_counter, true);
-                                format!("@{}", id_counter)
+                                let block_id = convert_block(&mut block_args, block, &mut id_counter, true);
+                                format!("@{}", block_id)
                             }
                             ArgValue::BlockPlaceholder { block_id } =>
                                 panic!("tries to convert argument to params but encountered an \
-- 
2.43.0


From 3f402b14700baa1f93c59345ecc67465c2d7d92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:25 +0000
Subject: [PATCH 19/29] fix: write the type name of list blocks

---
 src/api/block.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index 1822ab8..ec73903 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -513,6 +513,10 @@ impl BlockType {
                 Some(type_name.to_string()),
             BlockType::Argument(ArgumentBlockReturnType::Component { type_name }) =>
                 Some(type_name.to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::String }) =>
+                Some("List String".to_string()),
+            BlockType::Argument(ArgumentBlockReturnType::List { inner_type: ListItem::Number }) =>
+                Some("List Number".to_string()),
             _ => None
         }
     }
-- 
2.43.0


From a8963dd8281b5c4aa199413b4581c6a9f401776a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:50 +0000
Subject: [PATCH 20/29] fix: do not panic on a lone %, a nameless menu or a
 non-ascii parameter kind in specs

---
 src/api/block.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index ec73903..a418571 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -614,23 +614,23 @@ impl BlockContent {
     pub fn parse_wo_params(spec: &str) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // note: a lone `%` is just a text, like the one in the modulo block (`%d % %d`)
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
+            let has_name = s.as_bytes().get(2) == Some(&b'.') && s.len() > 3;
             let name = has_name.then(|| (&s[3..]).to_string());
 
             let arg = match &s.chars().nth(1).unwrap() {
                 's' => Argument::String { name, value: ArgValue::Empty },
                 'b' => Argument::Boolean { name, value: ArgValue::Empty },
                 'd' => Argument::Number { name, value: ArgValue::Empty },
-                'm' => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
+                // names are always present in menus
+                'm' if name.is_some() => Argument::Menu { name: name.unwrap(), value: ArgValue::Empty },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
                     name: s.chars().nth(1).unwrap().to_string(),
                     full: s.to_string()
@@ -647,16 +647,15 @@ impl BlockContent {
     pub fn parse(spec: String, mut args: Vec<String>) -> Result<Self, BlockContentParseError> {
         let mut items = Vec::new();
         for s in spec.split(" ") {
-            if !s.starts_with("%") {
+            // note: a lone `%` is just a text, like the one in the modulo block (`%d % %d`)
+            if !s.starts_with("%") || s == "%" {
                 items.push(SpecItem::Text(s.to_string()));
                 continue
             }
 
             // check if this thing has a name
             // example: %s.name
-            let has_name = s.chars().nth(2)
-                .map(|c| c == '.' && s.len() > 3)
-                .unwrap_or(false);
+            let has_name = s.as_bytes().get(2) == Some(&b'.') && s.len() > 3;
             let name = has_name.then(|| (&s[3..]).to_string());
 
             let arg = match &s.chars().nth(1).unwrap() {
@@ -722,7 +721,8 @@ impl BlockContent {
                         }
                     }
                 },
-                'm' => Argument::Menu {
+                // names are always present in menus
+                'm' if name.is_some() => Argument::Menu {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-- 
2.43.0


From f93c92bae500b1f01cbf6fd31b961e28a40795b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:52 +0000
Subject: [PATCH 21/29] fix: read an empty number or boolean parameter as an
 empty argument

---
 src/api/block.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/api/block.rs b/src/api/block.rs
index a418571..571775f 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -688,6 +688,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
@@ -711,6 +713,8 @@ impl BlockContent {
                                         value
                                     })?
                             }
+                        } else if value.is_empty() {
+                            ArgValue::Empty
                         } else {
                             let value = value.parse()
                                 .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -781,6 +785,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidNumberArgument {
@@ -806,6 +812,8 @@ impl BlockContent {
                                                 value
                                             })?
                                     }
+                                } else if value.is_empty() {
+                                    ArgValue::Empty
                                 } else {
                                     let value = value.parse()
                                         .map_err(|_| BlockContentParseError::InvalidBooleanArgument {
-- 
2.43.0


From 1f2d4b1214b9c02a58d5afc1d20656a5e1474fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:54 +0000
Subject: [PATCH 22/29] fix: resolve block references in menu parameters

---
 src/api/block.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/api/block.rs b/src/api/block.rs
index 571775f..6ced24f 100644
--- a/src/api/block.rs
+++ b/src/api/block.rs
@@ -730,9 +730,16 @@ impl BlockContent {
                     name: name.unwrap(),
                     value: {
                         if args.is_empty() { Err(BlockContentParseError::RanOutOfArgs)? }
-                        ArgValue::Value(
-                            args.remove(0)
-                        )
+                        let value = args.remove(0);
+
+                        if value.starts_with("@") {
+                            ArgValue::BlockPlaceholder {
+                                block_id: (&value[1..]).parse()
+                                    .map_err(|_| BlockContentParseError::InvalidBlockId {
+                                        value
+                                    })?
+                            }
+                        } else { ArgValue::Value(value) }
                     }
                 },
                 _ => Err(BlockContentParseError::UnknownSpecParam {
-- 
2.43.0


From 5527ea979081bb8f35d3e0b37514b007fb17f7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:30 +0000
Subject: [PATCH 23/29] fix: write the target type of view events

---
 src/api/mod.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/api/mod.rs b/src/api/mod.rs
index d46d566..9b49b1e 100644
--- a/src/api/mod.rs
+++ b/src/api/mod.rs
@@ -568,6 +568,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
             components: LinkedHashMap<String, ComponentKind>,
             more_blocks: LinkedHashMap<String, MoreBlock>,
             events: Vec<Event>,
+            view_types: HashMap<String, u8>,
         ) -> ScreenLogic {
             let mut block_containers = LinkedHashMap::new();
 
@@ -577,7 +578,12 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     .into_iter()
                     .filter_map(|event| {
                         let block_container_id = event.get_block_container_id();
-                        let (event, blocks) = event.into_parser_event();
+                        let (mut event, blocks) = event.into_parser_event();
+
+                        // the target type of a view event is the type of its view
+                        if event.event_type == 1 {
+                            event.target_type = view_types.get(&event.target_id).copied().unwrap_or(0);
+                        }
 
                         let block_container = blocks.into();
                         block_containers.insert(block_container_id, block_container);
@@ -626,6 +632,11 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
             let mut fabs = LinkedHashMap::new();
 
             for screen in val.screens {
+                let layout = view::flatten_views(screen.layout, None, None);
+                let mut view_types = layout.iter()
+                    .map(|view| (view.id.to_owned(), view.r#type))
+                    .collect::<HashMap<_, _>>();
+
                 if let Some(fab) = screen.fab {
                     let mut fab_view = flatten_views(vec![fab], None, None)
                         .remove(0);
@@ -634,6 +645,7 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     fab_view.parent = None;
                     fab_view.parent_type = -1;
 
+                    view_types.insert(fab_view.id.to_owned(), fab_view.r#type);
                     fabs.insert(screen.layout_name.to_owned(), fab_view);
                 }
 
@@ -644,12 +656,10 @@ impl From<SketchwareProject> for ParsedSketchwareProject {
                     screen.components,
                     screen.more_blocks,
                     screen.events,
+                    view_types,
                 ));
 
-                layouts.insert(
-                    screen.layout_name,
-                    Layout(view::flatten_views(screen.layout, None, None))
-                );
+                layouts.insert(screen.layout_name, Layout(layout));
             }
 
             // don't forget about the custom views
-- 
2.43.0


From 9180469f6d449b06f8103a86ef2350af6e1f1f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:05 +0000
Subject: [PATCH 24/29] fix: refuse ciphertexts whose padding is longer than a
 block

---
 src/lib.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8b07dc6..b60132d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -32,10 +32,15 @@ pub fn decrypt_sw_encrypted(data: &[u8]) -> Result<Vec<u8>, CryptoError> {
 
     let mut buffer: Vec<u8> = data.clone().to_vec();
 
-    Ok(Vec::from(
-        cipher.decrypt(&mut buffer)
-            .map_err(CryptoError::DecryptionError)?
-    ))
+    let plaintext = cipher.decrypt(&mut buffer)
+        .map_err(CryptoError::DecryptionError)?;
+
+    // the padding is never longer than a block
+    if data.len() - plaintext.len() > 16 {
+        return Err(CryptoError::DecryptionError(BlockModeError));
+    }
+
+    Ok(Vec::from(plaintext))
 }
 
 pub fn encrypt_sw_file_to_file(file: &Path, out: Option<&Path>) -> Result<(), CryptoError> {
-- 
2.43.0


From ab2021f6be5fa8f4bd03aae5fa2b1b19745d99cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:45:36 +0000
Subject: [PATCH 25/29] fix: extra blank lines between the sections of a logic
 file no longer drop the rest of it

---
 src/parser/logic.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index bc8f608..3218188 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -36,6 +36,9 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // sections may be separated by more than one blank line
+            if line.is_empty() { continue; }
+
             if !line.starts_with("@") {
                 // todo: warning: skipping line {} because it doesn't resemble a header
                 break;
-- 
2.43.0


From be131ce4160f23c8b96e92c7c1f49653d28b6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 26/29] fix: count the item lines in the line number of a
 library item error

---
 src/parser/library.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser/library.rs b/src/parser/library.rs
index 3583285..ec50fe2 100644
--- a/src/parser/library.rs
+++ b/src/parser/library.rs
@@ -27,6 +27,9 @@ impl Parsable for Library {
         macro_rules! library_item_set {
             ($variable:ident, $header:expr) => {
                 {
+                    // the item is on the line after its header
+                    line_count += 1;
+
                     $variable = Some(LibraryItem::parse(
                         newline_iter.next()
                             .ok_or_else(|| LibraryParseError::EOFAfterHeader {
-- 
2.43.0


From c7eba455de589dab1a16b61808ab8552914974e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:00 +0000
Subject: [PATCH 27/29] fix: report the line that failed as the content of a
 fab error, not its header

---
 src/parser/view.rs | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/parser/view.rs b/src/parser/view.rs
index 331fca9..70a900a 100644
--- a/src/parser/view.rs
+++ b/src/parser/view.rs
@@ -48,19 +48,21 @@ impl Parsable for View {
                 layouts.insert(screen_name.to_string(), screen);
 
             } else if *container_type == "xml_fab" {
+                let fab_line =
+                    lines.next()
+                        .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count()
+                        })?;
+
                 let fab_view =
-                    AndroidView::parse(
-                        lines.next()
-                            .ok_or_else(|| ViewParseError::EOFAfterFabHeader {
-                                screen_name: screen_name.to_string(),
-                                line: lines.get_count()
-                            })?
-                    ).map_err(|err| ViewParseError::FabParseError {
-                        screen_name: screen_name.to_string(),
-                        line: lines.get_count(),
-                        content: line.to_string(),
-                        source: err
-                    })?;
+                    AndroidView::parse(fab_line)
+                        .map_err(|err| ViewParseError::FabParseError {
+                            screen_name: screen_name.to_string(),
+                            line: lines.get_count(),
+                            content: fab_line.to_string(),
+                            source: err
+                        })?;
 
                 fabs.insert(screen_name.to_string(), fab_view);
             }
-- 
2.43.0


From a499a65bd05dea80e3afdf5e1e53e3f74a7fbf67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:00:43 +0000
Subject: [PATCH 28/29] fix: report the line of the section in logic errors,
 not the number of sections before it

---
 src/parser/logic.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 3218188..73369f5 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -3,6 +3,7 @@ use serde::{Serialize, Deserialize};
 use crate::color::Color;
 use crate::parser::Parsable;
 use thiserror::Error;
+use crate::util::CountingIterator;
 use crate::parser::logic::component::{ComponentPoolParseError, ComponentPoolReconstructionError};
 use crate::parser::logic::event::EventPoolParseError;
 use crate::parser::logic::list_variable::ListVariablePoolParseError;
@@ -22,9 +23,8 @@ impl Parsable for Logic {
     type ReconstructionError = LogicReconstructionError;
 
     fn parse(logic: &str) -> Result<Logic, Self::ParseError> {
-        let mut lines = logic.split("\n");
+        let mut lines = CountingIterator::new(logic.split("\n"));
         let mut screens = LinkedHashMap::<String, ScreenLogic>::new();
-        let mut line_counter = 0u32;
 
         /// Retrieves the screen name of a section header that has the given suffix
         fn section_screen_name<'a>(header: &'a str, suffix: &str) -> Option<&'a str> {
@@ -36,6 +36,9 @@ impl Parsable for Logic {
             if line.is_none() { break; }
             let line = line.unwrap();
 
+            // the line this section starts at, counted from 0
+            let line_counter = lines.get_count() - 1;
+
             // sections may be separated by more than one blank line
             if line.is_empty() { continue; }
 
@@ -163,8 +166,6 @@ impl Parsable for Logic {
                     .block_containers
                     .insert(container_name.to_owned(), blocks);
             }
-
-            line_counter += 1;
         }
 
         Ok(Logic { screens })
-- 
2.43.0


From 4ac372d23ec3dc257a8da6ecf7d38ea57f71a8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:34 +0000
Subject: [PATCH 29/29] fix: keep the white space at the end of the last entry
 of a logic section

---
 src/parser/logic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser/logic.rs b/src/parser/logic.rs
index 73369f5..02e392f 100644
--- a/src/parser/logic.rs
+++ b/src/parser/logic.rs
@@ -253,8 +253,8 @@ impl Parsable for Logic {
             .chain(event_containers)
             .chain(more_block_containers)
             .chain(block_containers)
-            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim()))
-            .trim()
+            .fold(String::new(), |acc, i| format!("{}\n\n{}", acc, i.trim_matches('\n')))
+            .trim_matches('\n')
             .to_string()
         )
     }
@@ -401,7 +401,7 @@ pub mod variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -558,7 +558,7 @@ pub mod list_variable {
                 .fold(String::new(), |acc, i|
                     format!("{}\n{}", acc, i.reconstruct().unwrap() /* this never fails */ )
                 )
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
@@ -824,7 +824,7 @@ pub mod more_block {
                 .try_fold(String::new(), |ac, i| {
                     Ok(format!("{}\n{}", ac, i.reconstruct().unwrap() /* this will never error */))
                 })?
-                .trim()
+                .trim_matches('\n')
                 .to_string())
         }
     }
-- 
2.43.0

