From b62b42e3089ebeba84200a2999bb49be1c4d0d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 01/23] fix: reject messages with fewer than three fields
 instead of panicking

---
 src/message.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 3c4059a..778ca31 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -483,7 +483,8 @@ fn parse_group(
 fn parse_header(
     v: &mut VecDeque<StringField>, header: &mut FieldMap, dd: &DataDictionary,
 ) -> SessResult<()> {
-    if v[0].tag() != BeginString::field()
+    if v.len() < 3
+        || v[0].tag() != BeginString::field()
         || v[1].tag() != BodyLength::field()
         || v[2].tag() != MsgType::field()
     {
-- 
2.43.0


From 985e6e4032ae2cfa6e39ed062ce1e53f414669ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 02/23] fix: reject repeating group counts larger than the
 remaining fields

---
 src/message.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 778ca31..5931dbc 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -426,6 +426,10 @@ fn parse_group(
         Ok(c) => c,
         Err(e) => return Err(SessionRejectError::incorrect_data_format_err()),
     };
+    if declared_count as usize > v.len() {
+        // every instance needs at least one field, do not allocate for an impossible count
+        return Err(SessionRejectError::incorrect_num_in_grp_count());
+    }
     let delimiter = rg.delimiter();
     let group = fmap.set_group(fld.tag(), declared_count, delimiter);
     let mut actual_count: i32 = -1;
-- 
2.43.0


From 31891eba724a7e46254525c8c0b0e0b12f7ec12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:43 +0000
Subject: [PATCH 03/23] fix: reject a tag repeated in a section instead of
 losing one of its values

---
 src/message.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 5931dbc..ee76cba 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -499,7 +499,11 @@ fn parse_header(
             // start of body
             v.push_front(fld);
             return Ok(());
-        } else if dd.is_msg_group(HEADER_ID, fld.tag()) {
+        }
+        if header.fields.contains_key(&fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
+        if dd.is_msg_group(HEADER_ID, fld.tag()) {
             parse_group(v, HEADER_ID, &fld, header, dd)?;
         } else {
             header.set_field(fld);
@@ -523,6 +527,9 @@ fn parse_body(
             v.push_front(fld);
             return Ok(());
         }
+        if msg.body.fields.contains_key(&fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
         if dd.is_msg_group(msg_type.as_str(), fld.tag()) {
             parse_group(v, &msg_type, &fld, &mut msg.body, dd)?;
         } else {
@@ -539,6 +546,9 @@ fn parse_trailer(
         if !dd.is_trailer_field(fld.tag()) {
             return Err(SessionRejectError::tag_specified_out_of_order());
         }
+        if trailer.fields.contains_key(&fld.tag()) {
+            return Err(SessionRejectError::tag_appear_more_than_once());
+        }
         trailer.set_field(fld);
     }
     Ok(())
-- 
2.43.0


From b19a70457103fe104797e02aed46e17caaebb301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 04/23] fix: enforce dictionary order of nested groups and
 reject repeated group members

---
 src/message.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index ee76cba..6bd3c45 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -455,6 +455,15 @@ fn parse_group(
                 // delimiter not found but other tag is encountered
                 return Err(SessionRejectError::required_tag_missing_err());
             }
+            // verify the order of nested groups
+            let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset == previous_offset {
+                return Err(SessionRejectError::tag_appear_more_than_once());
+            }
+            if offset < previous_offset {
+                return Err(SessionRejectError::repeating_grp_out_of_order());
+            }
+            previous_offset = offset;
             let group_instance = &mut group[actual_count as usize];
             parse_group(v, msg_type, &next_field, group_instance, rg_dd)?;
         } else if rg_dd.is_msg_field(msg_type, next_field.tag()) {
@@ -464,6 +473,9 @@ fn parse_group(
             }
             // verify the order of fields
             let offset = field_order.iter().position(|f| *f == next_field.tag()).unwrap() as i32;
+            if offset == previous_offset {
+                return Err(SessionRejectError::tag_appear_more_than_once());
+            }
             if offset < previous_offset {
                 // means the field is out of order
                 return Err(SessionRejectError::repeating_grp_out_of_order());
-- 
2.43.0


From 0d45ddd10f2547b64c04ceaeec8ce39ffeb406a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 05/23] fix: serialise the CheckSum field last in the trailer

---
 src/message.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/message.rs b/src/message.rs
index 6bd3c45..8e574ef 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -258,6 +258,7 @@ impl Message {
     pub fn new() -> Self {
         Self {
             header: FieldMap::with_field_order(&[8, 9, 35]),
+            trailer: FieldMap::with_field_order(&[93, 89, 10]),
             ..Default::default()
         }
     }
-- 
2.43.0


From dc478b0bd929613599b2a1f3383b8fc12d2848ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:19 +0000
Subject: [PATCH 06/23] fix: set_group replaces an earlier group and serialises
 delimiters first

---
 src/message.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 8e574ef..08134cd 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -114,11 +114,12 @@ impl FieldMap {
     pub fn set_group(&mut self, tag: Tag, value: u32, rep_grp_delimiter: Tag) -> &mut Group {
         let grp_field = StringField::new(tag, value.to_string().as_str());
         self.set_field(grp_field);
-        let group =
-            self.group.entry(tag).or_insert_with(|| Group::new(rep_grp_delimiter, tag, value));
+        // a group set again replaces the earlier one, as its count field does
+        self.group.insert(tag, Group::new(rep_grp_delimiter, tag, value));
+        let group = self.group.get_mut(&tag).unwrap();
         // create group instances and insert into group
         for i in 0..value {
-            group.add_group(FieldMap::new());
+            group.add_group(FieldMap::with_field_order(&[rep_grp_delimiter]));
         }
         group
     }
-- 
2.43.0


From d0369b6183957efa2b1c8b2284d0cac2e62c67c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 07/23] fix: read session id fields as whole fields, without
 panicking on truncated text

---
 src/message.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/message.rs b/src/message.rs
index 08134cd..9560fa9 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -391,17 +391,12 @@ impl Display for Message {
 }
 
 fn extract_field_value<'a>(tag: &str, s: &'a str) -> &'a str {
-    let pat_prefix = match tag {
-        "8" => "",
-        _ => std::str::from_utf8(&[SOH as u8]).unwrap(),
-    };
-    let pat = format!("{}{}=", pat_prefix, tag);
-    if let Some(indx) = s.find(pat.as_str()) {
-        let field_start_pos = indx + pat_prefix.len();
-        // ignore the first SOH prefix, if any, and start from tag
-        let end_pos = s[field_start_pos..].find(SOH).unwrap();
-        let start_pos = s[field_start_pos..].find('=').unwrap();
-        return &s[field_start_pos + start_pos + 1..field_start_pos + end_pos];
+    for field in s.split_terminator(SOH) {
+        if let Some((t, v)) = field.split_once('=') {
+            if t == tag {
+                return v;
+            }
+        }
     }
     ""
 }
-- 
2.43.0


From 3f29c0974b0076a44b293de4e8560e11e44ecc9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 08/23] fix: checksum of very large messages must not overflow

---
 src/message.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/message.rs b/src/message.rs
index 9560fa9..5f6a783 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -291,7 +291,7 @@ impl Message {
         {
             if sfield.tag() != 10 {
                 for byt in sfield.to_string().as_bytes() {
-                    byte_sum = byte_sum + *byt as u32;
+                    byte_sum = byte_sum.wrapping_add(*byt as u32);
                 }
             }
         }
-- 
2.43.0


From 2b8bbabee781268778d1c20d4218c9092ef9c1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 09/23] fix: stop reading a closed or failed connection instead
 of spinning on empty messages

---
 src/io/acceptor.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/io/acceptor.rs b/src/io/acceptor.rs
index d76be60..91a09bb 100644
--- a/src/io/acceptor.rs
+++ b/src/io/acceptor.rs
@@ -71,7 +71,10 @@ fn start_socket_listener_task(read_half: OwnedReadHalf, to_app: TioSender<String
         let mut buf: Vec<u8> = Vec::with_capacity(1024);
         let mut buf_reader = BufReader::new(read_half);
         loop {
-            read_message(&mut buf_reader, &mut buf).await;
+            if !read_message(&mut buf_reader, &mut buf).await {
+                // connection closed or failed, an incomplete message is not handed on
+                break;
+            }
             let raw_msg = String::from_utf8_lossy(&buf[..buf.len()]).to_string();
             to_app.send(raw_msg).await.unwrap();
             buf.clear();
@@ -93,18 +96,26 @@ fn start_app_listner_task(
     });
 }
 
-async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) {
+// returns false if the stream ended or failed before a complete message was read
+async fn read_message<R: AsyncBufReadExt + Unpin>(reader: &mut R, buf: &mut Vec<u8>) -> bool {
     loop {
-        let bytes_read = reader.read_until(SOH as u8, buf).await.unwrap();
+        let bytes_read = match reader.read_until(SOH as u8, buf).await {
+            Ok(n) => n,
+            Err(_) => return false,
+        };
         // println!("bytes received: {:?}", &buf);
         let slice_start = buf.len() - bytes_read;
         let slice_end = buf.len();
         // last read data
         let byte_slice = &buf[slice_start..slice_end];
+        if !byte_slice.ends_with(&[SOH as u8]) {
+            // end of stream
+            return false;
+        }
         if byte_slice.starts_with(&[49, 48, 61]) {
             // b"10="
             // checksum tag found, break
-            break;
+            return true;
         }
     }
 }
-- 
2.43.0


From fdbe808606d3e2971def436a1d6d7fa0b42b4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 10/23] fix: a message for an unknown session must not end the
 receiver thread

---
 src/network.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/network.rs b/src/network.rs
index a57f93f..7fe323b 100644
--- a/src/network.rs
+++ b/src/network.rs
@@ -250,10 +250,14 @@ fn start_receiver_task<A: Application + Send + Sync + 'static>(
             println!("received: {}", s);
             let session_id: SessionId = Message::get_reverse_session_id(&s);
 
-            let dd = sessions
+            let dd = match sessions
                 .get_session(&session_id)
                 .map(|sess| Arc::clone(sess.data_dictionary()))
-                .unwrap();
+            {
+                Some(dd) => dd,
+                // message for a session that is not configured
+                None => continue,
+            };
             if let Ok(message) = Message::from_str(&s, &dd) {
                 println!("msg parsed");
                 if let Ok(_) = Session::verify(&message, &sessions) {
-- 
2.43.0


From 86c444863b0be62fae4c3d9f58d4cc43d1b19b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:48 +0000
Subject: [PATCH 11/23] fix: sending to a session without connection must not
 panic

---
 src/session/session_and_state.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/session/session_and_state.rs b/src/session/session_and_state.rs
index 4214ebd..7a26c0d 100644
--- a/src/session/session_and_state.rs
+++ b/src/session/session_and_state.rs
@@ -99,9 +99,14 @@ impl Session {
     // }
     pub fn sync_send_to_target(session_id: &SessionId, sessions: &SessionMap, msg: Message) {
         // let synchronous_send = true;
-        let sess_ref = sessions.get_session(session_id).unwrap();
-        let responder = sess_ref.responder.as_ref().unwrap().clone();
-        responder.send(msg.to_string()).unwrap();
+        let responder = match sessions.get_session(session_id) {
+            Some(sess_ref) => sess_ref.responder.clone(),
+            None => None,
+        };
+        if let Some(responder) = responder {
+            // sending fails when no connection is listening, the message is dropped then
+            let _ = responder.send(msg.to_string());
+        }
         // if !synchronous_send {
         //     tokio::spawn(async move {
         //         responder.send(msg.to_string()).await.unwrap();
-- 
2.43.0


From 6bd76e1f0e5d2bc3941901728d6d676845276eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 12/23] fix: session schedule must not panic on days of clock
 changes

---
 src/session/session_schedule.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 18b6b18..733f2c6 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -73,10 +73,12 @@ impl SessionSchedule {
             return true;
         }
 
-        let now_datetime = self.time_zone.from_utc_datetime(&Utc::now().naive_utc());
+        // compare wall clock times, a time may not exist or exist twice on days of clock changes
+        let now_datetime =
+            self.time_zone.from_utc_datetime(&Utc::now().naive_utc()).naive_local();
         // get today's session start and end datetime
-        let today_start_datetime = now_datetime.date().and_time(self.start_time).unwrap();
-        let today_end_datetime = now_datetime.date().and_time(self.end_time).unwrap();
+        let today_start_datetime = now_datetime.date().and_time(self.start_time);
+        let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
             // now should be between today's session start and end datetimes
@@ -102,7 +104,7 @@ impl SessionSchedule {
         // weekly start_date is on correct weekday for sesssion
         // update the date with time of self.start_time
         let weekly_start_datetime =
-            weekly_start_date.and_time(today_start_datetime.time()).unwrap();
+            weekly_start_date.and_time(today_start_datetime.time());
 
         while weekly_end_date.weekday() != session_end_weekday {
             // go forward one day
@@ -113,7 +115,7 @@ impl SessionSchedule {
                 return false;
             }
         }
-        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time()).unwrap();
+        let weekly_end_datetime = weekly_end_date.and_time(today_end_datetime.time());
         weekly_start_datetime <= now_datetime && now_datetime <= weekly_end_datetime
     }
 
-- 
2.43.0


From 5517602a37e76172ed06fdac6d4f735e10b729ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:27 +0000
Subject: [PATCH 13/23] fix: a daily session starting later than its end spans
 midnight

---
 src/session/session_schedule.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index 733f2c6..f4eed87 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -81,6 +81,10 @@ impl SessionSchedule {
         let today_end_datetime = now_datetime.date().and_time(self.end_time);
         if self.start_day.is_none() && self.end_day.is_none() {
             // daily session start and end
+            if self.end_time < self.start_time {
+                // overnight session, it ends on the next day
+                return today_start_datetime <= now_datetime || now_datetime <= today_end_datetime;
+            }
             // now should be between today's session start and end datetimes
             return today_start_datetime <= now_datetime && now_datetime <= today_end_datetime;
         }
-- 
2.43.0


From dfcd158fe59ffa3030046e066db5aa0044bb93bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:28 +0000
Subject: [PATCH 14/23] fix: a schedule without times is non stop, one with
 only one of the days is refused

---
 src/session/session_schedule.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/session/session_schedule.rs b/src/session/session_schedule.rs
index f4eed87..8e4939a 100644
--- a/src/session/session_schedule.rs
+++ b/src/session/session_schedule.rs
@@ -55,13 +55,16 @@ impl SessionSchedule {
         if is_non_stop && (start_day.is_some() || end_day.is_some()) {
             panic!("start or end day specified without start time or end time");
         }
+        if start_day.is_some() != end_day.is_some() {
+            panic!("start_day and end_day both are mandatory for a weekly session");
+        }
 
         let time_zone: chrono_tz::Tz =
             settings.get_optional_config(session_id, TIMEZONE_SETTING).unwrap_or(chrono_tz::UTC);
         SessionSchedule::new(
-            start_time.unwrap(),
+            start_time.unwrap_or_default(),
             start_day,
-            end_time.unwrap(),
+            end_time.unwrap_or_default(),
             end_day,
             time_zone,
             is_non_stop,
-- 
2.43.0


From f962051e9476d947fbf03139af568ae32a61688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 15/23] fix: refuse session sections before the default section
 instead of dropping them

---
 src/session/session_settings.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index 642b4e5..a43dbb6 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -108,10 +108,10 @@ impl Properties {
                 default_found = true;
                 default_session_id = Some(SessionId::default());
                 setting_map.insert(default_session_id.clone().unwrap(), default_section);
-            } else if line.starts_with('[') && line.ends_with(']') && default_found {
+            } else if line.starts_with('[') && line.ends_with(']') {
                 // some other section in config file
                 if !default_found {
-                    panic!("default section should be first section. not found");
+                    panic!("default section not found before the first session section");
                 }
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
-- 
2.43.0


From 41498b4f9294c34af6e30a53c467ba61469e2b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:49 +0000
Subject: [PATCH 16/23] fix: refuse two session sections with the same session
 id

---
 src/session/session_settings.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/session/session_settings.rs b/src/session/session_settings.rs
index a43dbb6..eb526a5 100644
--- a/src/session/session_settings.rs
+++ b/src/session/session_settings.rs
@@ -116,6 +116,9 @@ impl Properties {
                 let section = parse_table(&mut lines);
                 let defaults = setting_map.get(default_session_id.as_ref().unwrap()).unwrap();
                 let session_id = SessionId::from_map(&section, defaults);
+                if setting_map.contains_key(&session_id) {
+                    panic!("duplicate session section found");
+                }
                 setting_map.insert(session_id, section);
             }
         }
-- 
2.43.0


From ba5cf723838f9d698bbfabe2a07a4180eb95808f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:15 +0000
Subject: [PATCH 17/23] fix: an undefined component is an error instead of a
 panic

---
 src/data_dictionary.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 7aa75a3..1ac9e6d 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -289,7 +289,7 @@ impl DataDictionary {
                     // required attrib for processing componend does not depend on outer node
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msg: {}, comp: {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     group_dd.add_xml_component(
                         msg_type,
                         comp_node,
@@ -353,7 +353,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     // "required" attribute of each comp inside comp is treated independently
                     // it does no depend on outer component.
                     self.add_xml_component(msg_type, comp_node, is_comp_required, components, doc)?
@@ -417,7 +417,7 @@ impl DataDictionary {
                     let comp_name = get_name_attr(&child)?;
                     let comp_node = components
                         .get(comp_name)
-                        .unwrap_or_else(|| panic!("msgtype {}, component {}", msg_type, comp_name));
+                        .ok_or_else(|| XmlError::XmlNodeNotFound(comp_name.to_string()))?;
                     self.add_xml_component(msg_type, comp_node, comp_required, components, doc)?;
                 }
                 "group" => {
-- 
2.43.0


From 4052bc0ebafdc838e64783c3daa13b0ad35d35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:19 +0000
Subject: [PATCH 18/23] fix: a component that contains itself is an error
 instead of endless recursion

---
 src/data_dictionary.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 1ac9e6d..b29591f 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -335,6 +335,10 @@ impl DataDictionary {
     ) -> DResult<u32> {
         // first_field is the first field encountered in processing the node
         // it only useful for groups where this serves as the delimiter.
+        // a component can not be part of itself, directly or through others
+        let mut components = components.clone();
+        components.remove(get_name_attr(comp_node)?);
+        let components = &components;
         let mut first_field = 0u32;
         for child in comp_node.children().filter(|n| n.is_element()) {
             let child_name = child.tag_name().name();
-- 
2.43.0


From 02a8b1097e759f4f7d0442c5c62031c3306d5cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:01 +0000
Subject: [PATCH 19/23] fix: keep the count field of a parsed group as received

---
 src/message.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/message.rs b/src/message.rs
index 5f6a783..32bcf3b 100644
--- a/src/message.rs
+++ b/src/message.rs
@@ -490,6 +490,8 @@ fn parse_group(
         // means actual repeating groups are less then declared count
         return Err(SessionRejectError::incorrect_num_in_grp_count());
     }
+    // keep the count field as received, i.e. 02 is not rewritten to 2
+    fmap.set_field(fld.clone());
     Ok(())
 }
 
-- 
2.43.0


From 7832cae2ec12130ebc08c1c0de292d4f068c39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:18 +0000
Subject: [PATCH 20/23] fix: refuse a message type that names the header or
 trailer section

---
 src/data_dictionary.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index b29591f..3fbe7d5 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -201,7 +201,9 @@ impl DataDictionary {
     }
 
     fn set_msg_name_type_cat(&mut self, msg_name: &str, msg_type: &str, cat: &str) -> DResult<()> {
-        if self.category.contains_key(msg_type) || self.types.contains_key(msg_name) {
+        // the section names are keys of the same maps as the message types
+        let reserved = msg_type == HEADER_ID || msg_type == TRAILER_ID;
+        if reserved || self.category.contains_key(msg_type) || self.types.contains_key(msg_name) {
             return Err(XmlError::DuplicateMessage(msg_name.to_string()));
         }
         self.types.insert(msg_name.to_string(), msg_type.to_string());
-- 
2.43.0


From a834f50a036266ac12bd68a6f1bcdbb29b6af75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 21/23] fix: only field elements of the fields section define
 field numbers

---
 src/data_dictionary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 3fbe7d5..31f8ba7 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -553,7 +553,7 @@ fn get_component_nodes_by_name<'a, 'i>(components: Node<'a, 'i>) -> DResult<Node
 
 fn lookup_field_num_with_name(field_name: &str, doc: &Document) -> DResult<u32> {
     let fields = lookup_node("fields", doc)?;
-    for node in fields.children().filter(|n| n.has_attribute("number") && n.has_attribute("name")) {
+    for node in fields.children().filter(|n| n.is_element() && n.has_tag_name("field")) {
         let name = get_name_attr(&node)?;
         if name == field_name {
             let number = get_number_attr(&node)?;
-- 
2.43.0


From bd59aae607df948e75bbbdc760c978e11ad33807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 22/23] fix: the first member of a group is its delimiter also
 when its number is 0

---
 src/data_dictionary.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 31f8ba7..354b59e 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -272,17 +272,17 @@ impl DataDictionary {
         // process the group node and add fields, components, subgroup
         // for the message name and message type
         let mut group_dd = DataDictionary::default();
-        let mut delimiter = 0u32;
+        let mut delimiter = None;
         for grp_child in group_node.children().filter(|&n| n.is_element()) {
             let child_name = grp_child.tag_name().name();
-            let first_field: u32 = match child_name {
+            let first_field: Option<u32> = match child_name {
                 "field" => {
                     let fname = get_name_attr(&grp_child)?;
                     let required = get_required_attr(&grp_child)?;
                     // add this field to group_dd for the msg_name
                     // this field is required if group is required and field is required
                     let required = required && is_required;
-                    group_dd.add_fields_to(msg_type, fname, required, doc)?
+                    Some(group_dd.add_fields_to(msg_type, fname, required, doc)?)
                 }
                 "component" => {
                     // this component fields are also added in group_dd for msg_name
@@ -313,16 +313,16 @@ impl DataDictionary {
                     // and add it to group dd. Mapping should be with msg_type
                     // "required" for subgroup is processed independently of parent
                     group_dd.add_xml_group(msg_type, &grp_child, sub_group_req, components, doc)?;
-                    field
+                    Some(field)
                 }
                 _ => return Err(XmlError::UnknownXmlTag(child_name.to_string())),
             };
-            if delimiter == 0 {
+            if delimiter.is_none() {
                 delimiter = first_field;
             }
         }
         let group_info = GroupInfo {
-            delimiter,
+            delimiter: delimiter.unwrap_or_default(),
             data_dictionary: group_dd,
         };
         let group_name = get_name_attr(group_node)?;
@@ -334,14 +334,14 @@ impl DataDictionary {
     fn add_xml_component(
         &mut self, msg_type: &str, comp_node: &Node, is_required: bool, components: &NodeMap,
         doc: &Document,
-    ) -> DResult<u32> {
+    ) -> DResult<Option<u32>> {
         // first_field is the first field encountered in processing the node
         // it only useful for groups where this serves as the delimiter.
         // a component can not be part of itself, directly or through others
         let mut components = components.clone();
         components.remove(get_name_attr(comp_node)?);
         let components = &components;
-        let mut first_field = 0u32;
+        let mut first_field = None;
         for child in comp_node.children().filter(|n| n.is_element()) {
             let child_name = child.tag_name().name();
             let num = match child_name {
@@ -350,7 +350,7 @@ impl DataDictionary {
                     // if component is required and component's field is required
                     // then field is required for message
                     let required = get_required_attr(&child)? && is_required;
-                    self.add_fields_to(msg_type, fname, required, doc)?
+                    Some(self.add_fields_to(msg_type, fname, required, doc)?)
                 }
                 "component" => {
                     // most likely components do not contain components but
@@ -376,11 +376,11 @@ impl DataDictionary {
                     // and add it to dd for the message. NOTE: while processing group, only group's
                     // "required" attrib is considered. it does not depend on outer node's required
                     self.add_xml_group(msg_type, &child, group_required, components, doc)?;
-                    field
+                    Some(field)
                 }
                 _ => return Err(XmlError::UnknownXmlTag(child_name.to_string())),
             };
-            if first_field == 0 {
+            if first_field.is_none() {
                 first_field = num;
             }
         }
-- 
2.43.0


From 1954775f17695e48675c79a008307c45d996dea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 23/23] fix: refuse a group without members, it has no
 delimiter

---
 src/data_dictionary.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/data_dictionary.rs b/src/data_dictionary.rs
index 354b59e..d1e1312 100644
--- a/src/data_dictionary.rs
+++ b/src/data_dictionary.rs
@@ -321,12 +321,14 @@ impl DataDictionary {
                 delimiter = first_field;
             }
         }
+        let group_name = get_name_attr(group_node)?;
+        let group_tag = lookup_field_num_with_name(group_name, doc)?;
+        // a group without members has no delimiter, its instances could not be told apart
         let group_info = GroupInfo {
-            delimiter: delimiter.unwrap_or_default(),
+            delimiter: delimiter
+                .ok_or_else(|| XmlError::XmlNodeNotFound(format!("members of {}", group_name)))?,
             data_dictionary: group_dd,
         };
-        let group_name = get_name_attr(group_node)?;
-        let group_tag = lookup_field_num_with_name(group_name, doc)?;
         self.set_group_info(msg_type, group_tag, group_info);
         Ok(())
     }
-- 
2.43.0

