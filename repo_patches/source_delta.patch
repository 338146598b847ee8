From 0c14d1f76bfa1dc60b351f0c778288b68059745c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:02 +0000
Subject: [PATCH 01/14] fix: refuse truncated signature capsules instead of
 panicking

---
 src/crypto/asymmetric/public_key.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..2b15196 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,11 +53,21 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("Signature capsule is too short".into()));
+        }
+
         let mut sign_len_bytes = [0_u8; 8];
 
         sign_len_bytes.copy_from_slice(&capsule[..8]);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        let sign_len = u64::from_be_bytes(sign_len_bytes);
+
+        if sign_len > (capsule.len() - 8) as u64 {
+            return Err(CryptographyError::Decoding("Signature capsule is too short".into()));
+        }
+
+        let sign_len = sign_len as usize;
 
         let signature = &capsule[8..sign_len + 8];
         let message = &capsule[sign_len + 8..];
-- 
2.43.0


From 61add7999b80c7252c27fe2e61daa28031ee6f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:08 +0000
Subject: [PATCH 02/14] fix: read secret keys back from their serde form

---
 src/crypto/asymmetric/secret_key.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 1a41250..8b8b8da 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -142,6 +142,29 @@ impl<'de> serde::Deserialize<'de> for SecretKey {
             where E: serde::de::Error {
                 Ok(v.to_vec())
             }
+
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where A: serde::de::SeqAccess<'de> {
+                seq.next_element()?
+                    .ok_or_else(|| A::Error::missing_field("0"))
+            }
+
+            fn visit_map<A>(self, mut map: A) -> Result<Self::Value, A::Error>
+            where A: serde::de::MapAccess<'de> {
+                let mut secret_key = None;
+
+                while let Some(key) = map.next_key::<String>()? {
+                    if key == "0" {
+                        secret_key = Some(map.next_value()?);
+                    }
+
+                    else {
+                        map.next_value::<serde::de::IgnoredAny>()?;
+                    }
+                }
+
+                secret_key.ok_or_else(|| A::Error::missing_field("0"))
+            }
         }
 
         let secret_key = deserializer.deserialize_struct("SecretKey", &["0"], Visitor)?;
-- 
2.43.0


From ccd45c8f2fa9148494fd1e6f5bc1e9613b24cd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:08 +0000
Subject: [PATCH 03/14] fix: refuse truncated connection tokens instead of
 panicking

---
 src/rest_api/types/connection_token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..335a9d3 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("Connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0


From cea2fc93faf98e4ed31b49f97a7472323e08fe56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:04 +0000
Subject: [PATCH 04/14] fix: look up the requested client instead of the
 requesting one

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From aa0248dc7b36eb633088769d299ddb92b19b2ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 05/14] fix: keep routing table records whole for concurrent
 readers, crashes and I/O errors

---
 src/drivers/server/router/global_table.rs | 85 +++++++++++++++++------
 1 file changed, 64 insertions(+), 21 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..edfed63 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,4 +1,5 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
+use std::sync::{Mutex, PoisonError};
 
 use serde_json::{json, Value as Json};
 
@@ -21,6 +22,9 @@ pub enum Error {
     Serialize(#[from] serde_json::Error)
 }
 
+/// Orders changes of the stored records.
+static CHANGES: Mutex<()> = Mutex::new(());
+
 #[derive(Debug, Clone)]
 /// Global Table Router stores all the record in a separate
 /// files within the given folder.
@@ -44,6 +48,40 @@ impl GlobalTableRouter {
             storage_folder
         })
     }
+
+    /// Store the record so that neither readers nor a crash
+    /// can ever see a part of it.
+    async fn store_record(&self, path: PathBuf, record: Vec<u8>) -> Result<bool, Error> {
+        let temp = self.storage_folder.join("record.tmp");
+
+        change(move || {
+            std::fs::write(&temp, record)?;
+            std::fs::rename(temp, path)?;
+
+            Ok(true)
+        }).await
+    }
+}
+
+/// Run given change of the stored records to its end,
+/// even if the caller is not interested in it anymore.
+async fn change<T: Send + 'static>(callback: impl FnOnce() -> Result<T, Error> + Send + 'static) -> Result<T, Error> {
+    let result = tokio::task::spawn_blocking(move || {
+        let _guard = CHANGES.lock().unwrap_or_else(PoisonError::into_inner);
+
+        callback()
+    });
+
+    result.await.map_err(std::io::Error::other)?
+}
+
+/// Read stored record if it (still) exists.
+async fn read_record(path: impl AsRef<Path>) -> Result<Option<Json>, Error> {
+    match tokio::fs::read(path).await {
+        Ok(record) => Ok(Some(serde_json::from_slice(&record)?)),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err.into())
+    }
 }
 
 #[async_trait::async_trait]
@@ -60,9 +98,7 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;
-
-        Ok(true)
+        self.store_record(path, serde_json::to_vec(&client)?).await
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
@@ -76,9 +112,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
-
-        Ok(true)
+        self.store_record(path, serde_json::to_vec(&record)?).await
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
@@ -91,9 +125,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&server)?).await?;
-
-        Ok(true)
+        self.store_record(path, serde_json::to_vec(&server)?).await
     }
 
     async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Self::Error> {
@@ -104,11 +136,19 @@ impl Router for GlobalTableRouter {
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
-
-        Ok(())
+        let paths = ["local", "remote", "servers"]
+            .map(|table| self.storage_folder.join(table).join(&public_key));
+
+        change(move || {
+            for path in paths {
+                match std::fs::remove_file(path) {
+                    Err(err) if err.kind() != std::io::ErrorKind::NotFound => return Err(err.into()),
+                    _ => ()
+                }
+            }
+
+            Ok(())
+        }).await
     }
 
     async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> {
@@ -120,8 +160,9 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
+            let Some(record) = read_record(entry.path()).await? else {
+                continue;
+            };
 
             let client = Client::from_json(&record["client"])?;
 
@@ -140,8 +181,9 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
+            let Some(record) = read_record(entry.path()).await? else {
+                continue;
+            };
 
             let client = Client::from_json(&record["client"])?;
             let server = Server::from_json(&record["server"])?;
@@ -161,8 +203,9 @@ impl Router for GlobalTableRouter {
         let mut entries = tokio::fs::read_dir(folder).await?;
 
         while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
+            let Some(record) = read_record(entry.path()).await? else {
+                continue;
+            };
 
             let server = Server::from_json(&record["server"])?;
 
-- 
2.43.0


From f9d884266018654d28cf1066b935a553041ff530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 06/14] fix: never replace or hide a client's newer
 registration with an older one

---
 src/drivers/server/router/global_table.rs | 34 +++++++++++++++---
 src/rest_api/middleware/server.rs         | 42 +++++++++++++----------
 2 files changed, 53 insertions(+), 23 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index edfed63..eea73cd 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -51,10 +51,17 @@ impl GlobalTableRouter {
 
     /// Store the record so that neither readers nor a crash
     /// can ever see a part of it.
-    async fn store_record(&self, path: PathBuf, record: Vec<u8>) -> Result<bool, Error> {
+    /// 
+    /// Client records are not replaced by ones with an older
+    /// connection certificate.
+    async fn store_record(&self, path: PathBuf, record: Vec<u8>, auth_date: Option<u64>) -> Result<bool, Error> {
         let temp = self.storage_folder.join("record.tmp");
 
         change(move || {
+            if auth_date.is_some() && stored_auth_date(&path)? > auth_date {
+                return Ok(false);
+            }
+
             std::fs::write(&temp, record)?;
             std::fs::rename(temp, path)?;
 
@@ -75,6 +82,21 @@ async fn change<T: Send + 'static>(callback: impl FnOnce() -> Result<T, Error> +
     result.await.map_err(std::io::Error::other)?
 }
 
+/// Get connection certificate date of the stored client
+/// record if there is one.
+fn stored_auth_date(path: &Path) -> Result<Option<u64>, Error> {
+    let record = match std::fs::read(path) {
+        Ok(record) => record,
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => return Ok(None),
+        Err(err) => return Err(err.into())
+    };
+
+    let client = serde_json::from_slice::<Json>(&record).ok()
+        .and_then(|record| Client::from_json(&record["client"]).ok());
+
+    Ok(client.map(|client| client.certificate.token.auth_date))
+}
+
 /// Read stored record if it (still) exists.
 async fn read_record(path: impl AsRef<Path>) -> Result<Option<Json>, Error> {
     match tokio::fs::read(path).await {
@@ -93,12 +115,14 @@ impl Router for GlobalTableRouter {
             .join("local")
             .join(client.public_key.to_base64());
 
+        let auth_date = client.certificate.token.auth_date;
+
         let client = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?
         });
 
-        self.store_record(path, serde_json::to_vec(&client)?).await
+        self.store_record(path, serde_json::to_vec(&client)?, Some(auth_date)).await
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
@@ -106,13 +130,15 @@ impl Router for GlobalTableRouter {
             .join("remote")
             .join(client.public_key.to_base64());
 
+        let auth_date = client.certificate.token.auth_date;
+
         let record = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?,
             "server": server.to_json()?
         });
 
-        self.store_record(path, serde_json::to_vec(&record)?).await
+        self.store_record(path, serde_json::to_vec(&record)?, Some(auth_date)).await
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
@@ -125,7 +151,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.store_record(path, serde_json::to_vec(&server)?).await
+        self.store_record(path, serde_json::to_vec(&server)?, None).await
     }
 
     async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Self::Error> {
diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 4fcb816..123eb79 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -273,9 +273,23 @@ where
                     );
                 }
 
+                // Try to find the client in the remote index
+                let remote = match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
+                    Ok(remote) => remote,
+
+                    Err(err) => return LookupResponse::error(
+                        ResponseStatus::ServerError,
+                        format!("Failed to lookup remote client: {err}")
+                    )
+                };
+
+                let remote_date = remote.as_ref()
+                    .map(|(client, _, _)| client.certificate.token.auth_date);
+
                 // Try to find the client in the local index
+                // if it didn't connect to another server later
                 match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, available))) => {
+                    Ok(Some((client, available))) if Some(client.certificate.token.auth_date) >= remote_date => {
                         let body = LookupResponseBody::local(client, available);
 
                         return LookupResponse::success(
@@ -294,25 +308,15 @@ where
                     _ => ()
                 }
 
-                // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
-                    Ok(Some((client, server, available))) => {
-                        let body = LookupResponseBody::remote(client, server, available);
-
-                        return LookupResponse::success(
-                            ResponseStatus::Success,
-                            &driver.params().secret_key,
-                            request.0.proof_seed,
-                            body
-                        );
-                    }
-
-                    Err(err) => return LookupResponse::error(
-                        ResponseStatus::ServerError,
-                        format!("Failed to lookup remote client: {err}")
-                    ),
+                if let Some((client, server, available)) = remote {
+                    let body = LookupResponseBody::remote(client, server, available);
 
-                    _ => ()
+                    return LookupResponse::success(
+                        ResponseStatus::Success,
+                        &driver.params().secret_key,
+                        request.0.proof_seed,
+                        body
+                    );
                 }
 
                 // Return searching hint if neither local nor known remote record found
-- 
2.43.0


From 49dfd90589b98a29826dbd245efe25154b5cae91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 07/14] fix: keep inbox queues whole for concurrent changes,
 crashes and I/O errors

---
 .../server/messages_inbox/stored_queue.rs     | 130 ++++++++++++------
 1 file changed, 89 insertions(+), 41 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..acca634 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,4 +1,5 @@
-use std::path::PathBuf;
+use std::path::{Path, PathBuf};
+use std::sync::{Mutex, PoisonError};
 
 use serde_json::Value as Json;
 
@@ -21,6 +22,39 @@ pub enum Error {
     Serialize(#[from] serde_json::Error)
 }
 
+/// Orders changes of the stored queues.
+static CHANGES: Mutex<()> = Mutex::new(());
+
+/// Run given change of the stored queues to its end,
+/// even if the caller is not interested in it anymore.
+async fn change<T: Send + 'static>(callback: impl FnOnce() -> Result<T, Error> + Send + 'static) -> Result<T, Error> {
+    let result = tokio::task::spawn_blocking(move || {
+        let _guard = CHANGES.lock().unwrap_or_else(PoisonError::into_inner);
+
+        callback()
+    });
+
+    result.await.map_err(std::io::Error::other)?
+}
+
+/// Read the file if it exists.
+fn read_file(path: impl AsRef<Path>) -> Result<Option<Vec<u8>>, Error> {
+    match std::fs::read(path) {
+        Ok(content) => Ok(Some(content)),
+        Err(err) if err.kind() == std::io::ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err.into())
+    }
+}
+
+/// Replace the queue's index so that a crash cannot leave
+/// a part of it.
+fn write_index(folder: &Path, index: &[u8]) -> Result<(), Error> {
+    std::fs::write(folder.join("index.tmp"), index)?;
+    std::fs::rename(folder.join("index.tmp"), folder.join("index"))?;
+
+    Ok(())
+}
+
 #[derive(Debug, Clone)]
 pub struct StoredQueueMessagesInbox {
     /// Path to the messages inbox's folder.
@@ -65,15 +99,6 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             .join(receiver.to_base64())
             .join(&channel);
 
-        tokio::fs::create_dir_all(&folder).await?;
-
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
-
-        let message_id = safe_random_u64();
-
-        index.extend_from_slice(&message_id.to_be_bytes());
-
         let message_info = MessageInfo {
             sender,
             channel,
@@ -83,10 +108,25 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
-        tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+        change(move || {
+            std::fs::create_dir_all(&folder)?;
 
-        Ok(())
+            let mut index = read_file(folder.join("index"))?
+                .unwrap_or(vec![]);
+
+            // Ignore incomplete record
+            index.truncate(index.len() - index.len() % 8);
+
+            let message_id = safe_random_u64();
+
+            index.extend_from_slice(&message_id.to_be_bytes());
+
+            // Index should never list a message which is not stored
+            std::fs::write(folder.join(message_id.to_string()), message_info)?;
+            write_index(&folder, &index)?;
+
+            Ok(())
+        }).await
     }
 
     async fn poll_messages(
@@ -107,49 +147,57 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             .join(receiver.to_base64())
             .join(&channel);
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
-            assert!(index.len() % 8 == 0);
+        change(move || {
+            if let Some(index) = read_file(folder.join("index"))? {
+                let mut bytes = [0; 8];
+                let mut limit = limit.unwrap_or(u64::MAX);
+                let mut shift = 0;
 
-            let mut bytes = [0; 8];
-            let mut limit = limit.unwrap_or(u64::MAX);
-            let mut shift = 0;
+                let mut messages = Vec::new();
+                let mut read_messages = Vec::new();
 
-            let mut messages = Vec::new();
+                for message_id in index.chunks_exact(8) {
+                    if limit == 0 {
+                        break;
+                    }
 
-            for message_id in index.chunks(8) {
-                if limit == 0 {
-                    break;
-                }
+                    bytes.copy_from_slice(message_id);
 
-                bytes.copy_from_slice(message_id);
+                    let message_id = u64::from_be_bytes(bytes);
+                    let message_path = folder.join(message_id.to_string());
 
-                let message_id = u64::from_be_bytes(bytes);
-                let message_path = folder.join(message_id.to_string());
+                    if let Some(message_info) = read_file(&message_path)? {
+                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
-                    let message_info = serde_json::from_slice::<Json>(&message_info)?;
+                        messages.push(MessageInfo::from_json(&message_info)?);
 
-                    messages.push(MessageInfo::from_json(&message_info)?);
+                        limit -= 1;
 
-                    limit -= 1;
+                        read_messages.push(message_path);
+                    }
 
-                    tokio::fs::remove_file(message_path).await?;
+                    shift += 8;
                 }
 
-                shift += 8;
-            }
+                let index = &index[shift..];
 
-            let index = &index[shift..];
+                if shift > 0 {
+                    write_index(&folder, index)?;
+                }
 
-            tokio::fs::write(folder.join("index"), index).await?;
+                // They're not listed in the index anymore
+                for message_path in read_messages {
+                    let _ = std::fs::remove_file(message_path);
+                }
 
-            return Ok((
-                messages,
-                (index.len() / 8) as u64
-            ));
-        }
+                return Ok((
+                    messages,
+                    (index.len() / 8) as u64
+                ));
+            }
 
-        Ok((vec![], 0))
+            Ok((vec![], 0))
+        }).await
     }
 }
 
-- 
2.43.0


From ed5cf83a2d3fdc0ad96c00024c3c6255659a7be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:03 +0000
Subject: [PATCH 08/14] fix: store every inbox channel in its own folder of the
 receiver

---
 .../server/messages_inbox/stored_queue.rs     | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index acca634..47f0040 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -55,6 +55,30 @@ fn write_index(folder: &Path, index: &[u8]) -> Result<(), Error> {
     Ok(())
 }
 
+/// Get name of the channel's folder.
+/// 
+/// Different channels have different folders, and every
+/// channel is a single folder within the receiver's one.
+fn channel_folder(channel: &str) -> String {
+    let mut name = String::with_capacity(channel.len());
+
+    for (i, char) in channel.char_indices() {
+        match char {
+            '%' | '/' | '\\' | ':' | '*' | '?' | '"' | '<' | '>' | '|' => name += &format!("%{:02x}", char as u32),
+
+            _ if char.is_ascii_control() || (i == 0 && char == '.') => name += &format!("%{:02x}", char as u32),
+
+            _ => name.push(char)
+        }
+    }
+
+    if name.is_empty() {
+        name.push('%');
+    }
+
+    name
+}
+
 #[derive(Debug, Clone)]
 pub struct StoredQueueMessagesInbox {
     /// Path to the messages inbox's folder.
@@ -97,7 +121,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(channel_folder(&channel));
 
         let message_info = MessageInfo {
             sender,
@@ -145,7 +169,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.storage_folder
             .join(receiver.to_base64())
-            .join(&channel);
+            .join(channel_folder(&channel));
 
         change(move || {
             if let Some(index) = read_file(folder.join("index"))? {
-- 
2.43.0


From 6c0c47bd8899e7ef9f2ebe98ffa8b064d88b8e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:27 +0000
Subject: [PATCH 09/14] fix: ask every server once when traversing the network

---
 src/drivers/server/traversal/bfs_recursion.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..dcb9477 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,10 +21,15 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store used servers to prevent infinite traversal loops
+            let mut used_servers = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
-                if let Ok(mut response) = client.get_servers(&remote_server.address).await {
-                    for remote_server in response.drain(..) {
-                        remote_servers.push_back(remote_server);
+                if used_servers.insert(remote_server.address.clone()) {
+                    if let Ok(mut response) = client.get_servers(&remote_server.address).await {
+                        for remote_server in response.drain(..) {
+                            remote_servers.push_back(remote_server);
+                        }
                     }
                 }
 
-- 
2.43.0


From 4c377a7b2d5bef9de05790284a9876b21fd216bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:01 +0000
Subject: [PATCH 10/14] fix: skip faulty hinted servers when looking up a
 client

---
 src/rest_api/middleware/client.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..5711b1d 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -400,8 +400,12 @@ impl<T: HttpClient> ConnectedClient<T> {
         let mut used_servers = HashSet::new();
 
         while let Some(server_address) = queue.pop_front() {
+            // Only a failure of the connected server fails the lookup,
+            // servers from the hints can be skipped
+            let is_hint = !used_servers.is_empty();
+
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -413,12 +417,22 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
+
+            let response = match response {
+                Ok(response) => response,
+                Err(_) if is_hint => continue,
+                Err(err) => return Err(err.into())
+            };
 
             // Validate response
-            if !response.validate(proof_seed)? {
+            match response.validate(proof_seed) {
+                Ok(true) => (),
+
                 // Skip execution and go to the next server
-                continue;
+                Ok(false) => continue,
+                Err(_) if is_hint => continue,
+                Err(err) => return Err(err.into())
             }
 
             // Process successful response
@@ -441,8 +455,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From 2d04d3de68bfcc59de41b182ca8ba0e9dd11fedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:08 +0000
Subject: [PATCH 11/14] fix: accept replies of the connected server only under
 its own key

---
 src/rest_api/middleware/client.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index 5711b1d..432892c 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,6 +183,11 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
+            // The server proved some other identity than the expected one
+            Response::Success { public_key, .. } if public_key != server_public => {
+                Err(Error::InvalidProofSeedSignature)
+            }
+
             Response::Success { .. } => {
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
@@ -305,11 +310,20 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
+        match response.0 {
+            // The server proved some other identity than the expected one
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                return Err(Error::InvalidProofSeedSignature);
+            }
+
+            Response::Success { .. } => (),
+
+            Response::Error { status, reason, .. } => {
+                return Err(Error::RequestFailed {
+                    status,
+                    reason
+                });
+            }
         }
 
         Ok(Client {
@@ -567,6 +581,11 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
+            // The server proved some other identity than the expected one
+            Response::Success { public_key, .. } if public_key != self.connected_server.public_key => {
+                Err(Error::InvalidProofSeedSignature)
+            }
+
             Response::Success { response, .. } => {
                 Ok((response.messages, response.remaining))
             }
-- 
2.43.0


From c088651c470fcbb5cb9c50a744d85bd264a04573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:17 +0000
Subject: [PATCH 12/14] fix: do not write secret keys to the trace output

---
 src/rest_api/middleware/client.rs | 2 +-
 src/rest_api/middleware/server.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index 432892c..93ea34f 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -28,7 +28,7 @@ pub struct Client<T> {
 impl<T: HttpClient + Send + Sync> Client<T> {
     #[cfg_attr(feature = "tracing", tracing::instrument(skip_all, fields(
         http_client_type = std::any::type_name::<T>(),
-        client_secret = client_driver.secret_key().to_base64(),
+        client_public = client_driver.secret_key().public_key().to_base64(),
         client_info = ?client_driver.info()
     )))]
     pub fn new(http_client: T, client_driver: ClientDriver) -> Self {
diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 123eb79..86e9f40 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -41,7 +41,7 @@ where
             traversal_type = std::any::type_name::<TraversalExt>(),
             messages_inbox_type = std::any::type_name::<MessagesInboxExt>(),
             server_address = server_driver.params().address,
-            server_secret = server_driver.params().secret_key.to_base64(),
+            server_public = server_driver.params().secret_key.public_key().to_base64(),
             "Building server REST API middleware"
         );
 
-- 
2.43.0


From 626c809e2f19eec446a8548d27d3c04c7aa5e79a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:24 +0000
Subject: [PATCH 13/14] fix: keep the scheme of raw addresses

---
 src/address.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/address.rs b/src/address.rs
index 3cb9001..f7615f3 100644
--- a/src/address.rs
+++ b/src/address.rs
@@ -90,10 +90,10 @@ impl Address {
 impl FromStr for Address {
     type Err = CryptographyError;
 
-    fn from_str(address: &str) -> Result<Self, Self::Err> {
-        let (protocol, address) = address
+    fn from_str(uri: &str) -> Result<Self, Self::Err> {
+        let (protocol, address) = uri
             .split_once("://")
-            .unwrap_or(("", address));
+            .unwrap_or(("", uri));
 
         let address = address.to_owned();
 
@@ -158,7 +158,7 @@ impl FromStr for Address {
                 address
             }),
 
-            _ => Ok(Self::Raw(address))
+            _ => Ok(Self::Raw(uri.to_owned()))
         }
     }
 }
-- 
2.43.0


From 85f48d53c20a0ddec5bd1fed436395f5162fb6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:22 +0000
Subject: [PATCH 14/14] fix: close both protocols of a port and keep forwards
 until they are deleted

---
 src/port_forward/upnp.rs | 54 ++++++++++++++++++++++++++++++----------
 1 file changed, 41 insertions(+), 13 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..4d9ad2c 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -21,10 +21,21 @@ impl UpnpPortForwarder {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            // Zero means a permanent forward, so never round down to it
+            duration: duration.as_secs_f64().ceil() as u32,
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
+
+    fn delete_port(config: &UpnpConfig) -> Result<(), Error> {
+        delete_ports([UpnpConfig {
+            address: config.address,
+            port: config.port,
+            protocol: config.protocol,
+            duration: config.duration,
+            comment: config.comment.clone()
+        }]).next().unwrap()
+    }
 }
 
 #[async_trait::async_trait]
@@ -54,28 +65,45 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        if let Protocol::Both = protocol {
+            let tcp = self.close(port, Protocol::TCP).await;
+            let udp = self.close(port, Protocol::UDP).await;
+
+            return Ok(tcp? && udp?);
+        }
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
-                .next()
-                .unwrap()?;
+        // Forget the forward only once it's deleted
+        if let Some(config) = forwarded.get(&(port, protocol)) {
+            Self::delete_port(config)?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
-            .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
-            .collect::<Vec<_>>();
+        let mut forwarded = self.forwarded.lock()
+            .expect("Failed to get forwards table");
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+        let mut result = Ok(true);
 
-        Ok(true)
+        // Try to delete all the forwards, forget only the deleted ones
+        forwarded.retain(|_, config| {
+            if let Err(err) = Self::delete_port(config) {
+                if result.is_ok() {
+                    result = Err(err);
+                }
+
+                return true;
+            }
+
+            false
+        });
+
+        result
     }
 }
-- 
2.43.0

