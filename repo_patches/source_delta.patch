From 865b0460cb23e2cea030aa62db5891d773f6bdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:48 +0000
Subject: [PATCH 01/16] fix: replace the storage file atomically and durably
 when saving

A save truncated the storage file first and wrote the new contents
afterwards, so that a crash or a full disk in between destroyed the
database. Write a temporary file next to it, sync it and rename it.
---
 pfp/src/storage_io/file.rs | 86 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 84 insertions(+), 2 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index 597c734..be5320a 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -8,11 +8,15 @@ use crate::error::Error;
 use crate::json::{const_serializable, Deserialize, Serialize};
 use std::collections::HashMap;
 use std::fs;
+use std::io;
+use std::io::Write;
 use std::path;
 
 const_serializable!(ApplicationName: String = "pfp");
 const_serializable!(Format: u8 = 3);
 
+const MAX_LINKS: usize = 40;
+
 #[derive(Serialize, Deserialize, Debug)]
 #[serde(deny_unknown_fields)]
 /// File-based I/O implementation
@@ -49,6 +53,84 @@ impl FileIO {
     }
 }
 
+/// Makes sure changes to directory entries survive a power loss, as far as the platform supports it.
+fn sync_dir(dir: &path::Path) {
+    let dir = if dir.as_os_str().is_empty() {
+        path::Path::new(".")
+    } else {
+        dir
+    };
+    let _ = fs::File::open(dir).and_then(|handle| handle.sync_all());
+}
+
+/// Creates a directory and its parents if missing.
+fn create_dirs(dir: &path::Path) -> io::Result<()> {
+    let missing = dir
+        .ancestors()
+        .take_while(|dir| !dir.as_os_str().is_empty() && !dir.exists())
+        .collect::<Vec<_>>();
+    fs::create_dir_all(dir)?;
+    for parent in missing.iter().filter_map(|dir| dir.parent()) {
+        sync_dir(parent);
+    }
+    Ok(())
+}
+
+/// Creates a temporary file next to the file with the given path.
+fn create_temp_file(path: &path::Path) -> io::Result<(path::PathBuf, fs::File)> {
+    let mut counter = 0;
+    loop {
+        let mut name = path.file_name().unwrap_or_default().to_os_string();
+        name.push(format!(".{}-{}.tmp", std::process::id(), counter));
+        let temp_path = path.with_file_name(name);
+        match fs::OpenOptions::new()
+            .write(true)
+            .create_new(true)
+            .open(&temp_path)
+        {
+            Ok(file) => return Ok((temp_path, file)),
+            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => counter += 1,
+            Err(error) => return Err(error),
+        }
+    }
+}
+
+/// Replaces file contents atomically: whatever happens, the file will have either the old or the
+/// new contents. Once this function succeeds, the new contents are safe on disk.
+fn write_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
+    // Write the file that symbolic links point to, don't replace the link.
+    let mut path = path.to_path_buf();
+    for _ in 0..MAX_LINKS {
+        match fs::read_link(&path) {
+            Ok(target) => path = path.with_file_name(target),
+            Err(_) => break,
+        }
+    }
+
+    // Existing files have to be writable, and the file permissions shouldn't change.
+    let permissions = match fs::OpenOptions::new().write(true).open(&path) {
+        Ok(file) => Some(file.metadata()?.permissions()),
+        Err(error) if error.kind() == io::ErrorKind::NotFound => None,
+        Err(error) => return Err(error),
+    };
+
+    let (temp_path, mut file) = create_temp_file(&path)?;
+    permissions
+        .map_or(Ok(()), |permissions| file.set_permissions(permissions))
+        .and_then(|_| file.write_all(contents))
+        .and_then(|_| file.sync_all())
+        .and_then(|_| fs::rename(&temp_path, &path))
+        .map_err(|error| {
+            let _ = fs::remove_file(&temp_path);
+            error
+        })?;
+
+    if let Some(parent) = path.parent() {
+        sync_dir(parent);
+    }
+    Ok(())
+}
+
 impl super::StorageIO for FileIO {
     fn contains_key(&self, key: &str) -> bool {
         self.data.contains_key(key)
@@ -80,8 +162,8 @@ impl super::StorageIO for FileIO {
 
         let parent = self.path.parent();
         if let Some(parent) = parent {
-            fs::create_dir_all(parent).map_err(|error| Error::CreateDirFailure { error })?;
+            create_dirs(parent).map_err(|error| Error::CreateDirFailure { error })?;
         }
-        fs::write(&self.path, &contents).map_err(|error| Error::FileWriteFailure { error })
+        write_file(&self.path, contents.as_bytes()).map_err(|error| Error::FileWriteFailure { error })
     }
 }
-- 
2.43.0


From b9477dfd1e401f96435981ca1179002940721512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:44 +0000
Subject: [PATCH 02/16] fix: ignore missing site entries when removing empty
 sites

An alias can point to a site without an entry of its own. Listing such
sites failed with "No such value in storage" when cleaning up.
---
 pfp/src/passwords.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index dd5bc60..38b0062 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -211,7 +211,11 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
         for site in sites {
-            self.storage.remove_site(site, hmac_secret)?;
+            match self.storage.remove_site(site, hmac_secret) {
+                // Sites which are merely an alias target might not have an entry
+                Err(Error::KeyMissing) => {}
+                result => result?,
+            }
         }
         self.storage.flush()
     }
-- 
2.43.0


From a046514724babc0fda1a07d0439e12c060adf0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 03/16] fix: revert in-memory changes when saving them fails

Otherwise a change the user was told has failed is visible in a running
shell and gets written out along with the next successful change.
---
 pfp/src/storage_io/file.rs | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index be5320a..c2e75fd 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -26,6 +26,9 @@ pub struct FileIO {
     application: ApplicationName,
     format: Format,
     data: HashMap<String, String>,
+    // Last known state on disk
+    #[serde(skip)]
+    saved: HashMap<String, String>,
 }
 
 impl FileIO {
@@ -38,6 +41,7 @@ impl FileIO {
             application: ApplicationName,
             format: Format,
             data: HashMap::new(),
+            saved: HashMap::new(),
         }
     }
 
@@ -49,8 +53,21 @@ impl FileIO {
         let mut result = crate::json::from_str::<Self>(&contents)
             .map_err(|error| Error::InvalidJson { error })?;
         result.path = path.to_path_buf();
+        result.saved = result.data.clone();
         Ok(result)
     }
+
+    fn save(&self) -> Result<(), Error> {
+        let contents =
+            crate::json::to_string(self).map_err(|error| Error::InvalidJson { error })?;
+
+        let parent = self.path.parent();
+        if let Some(parent) = parent {
+            create_dirs(parent).map_err(|error| Error::CreateDirFailure { error })?;
+        }
+        write_file(&self.path, contents.as_bytes())
+            .map_err(|error| Error::FileWriteFailure { error })
+    }
 }
 
 /// Makes sure changes to directory entries survive a power loss, as far as the platform supports it.
@@ -157,13 +174,13 @@ impl super::StorageIO for FileIO {
     }
 
     fn flush(&mut self) -> Result<(), Error> {
-        let contents =
-            crate::json::to_string(self).map_err(|error| Error::InvalidJson { error })?;
-
-        let parent = self.path.parent();
-        if let Some(parent) = parent {
-            create_dirs(parent).map_err(|error| Error::CreateDirFailure { error })?;
+        let result = self.save();
+        if result.is_ok() {
+            self.saved = self.data.clone();
+        } else {
+            // A change reported as failed shouldn't be written out with the next one
+            self.data = self.saved.clone();
         }
-        write_file(&self.path, contents.as_bytes()).map_err(|error| Error::FileWriteFailure { error })
+        result
     }
 }
-- 
2.43.0


From 5ee53be906971ab0ba7fd90ff400efd8d50c636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 04/16] fix: report a corrupt nonce instead of crashing

Nonce of a wrong length caused a panic.
---
 pfp/src/crypto.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pfp/src/crypto.rs b/pfp/src/crypto.rs
index b28e5eb..3491612 100644
--- a/pfp/src/crypto.rs
+++ b/pfp/src/crypto.rs
@@ -127,6 +127,9 @@ pub fn decrypt_data(value: &str, encryption_key: &SecretVec<u8>) -> Result<Secre
         value.split_once('_').ok_or(Error::InvalidCiphertext)?;
     let nonce_data =
         base64::decode(nonce_base64).map_err(|error| Error::InvalidBase64 { error })?;
+    if nonce_data.len() != AES_NONCE_SIZE / 8 {
+        return Err(Error::InvalidCiphertext);
+    }
     let nonce = aes_gcm::Nonce::from_slice(&nonce_data);
     let ciphertext =
         base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;
-- 
2.43.0


From 24fe97c883d967b80c04ef80d5679ab1d4c178dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:05 +0000
Subject: [PATCH 05/16] fix: accept escape sequences in entry data field names

Keys containing escape sequences could not be read as borrowed strings,
valid JSON data was rejected.
---
 pfp/src/json/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pfp/src/json/macros.rs b/pfp/src/json/macros.rs
index 5629c21..433c212 100644
--- a/pfp/src/json/macros.rs
+++ b/pfp/src/json/macros.rs
@@ -72,7 +72,7 @@ macro_rules! enumset_serialization {
                     let mut result = Self::Value::empty();
 
                     loop {
-                        match map.next_key::<&str>()? {
+                        match map.next_key::<String>()?.as_deref() {
                             None => break,
                             $(
                                 Some($key) => {
-- 
2.43.0


From e3cac340e940413738c8f9fed2cb1d86d9d08486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 06/16] fix: update existing aliases when their target becomes
 an alias

With aliases resolved only one level deep, passwords added via the old
alias went to a site that no longer exists as far as the user can tell.
---
 pfp/src/passwords.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 38b0062..9d9eada 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -161,8 +161,9 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
     /// Marks `site` and an alias for `alias`.
     ///
     /// This will normalize `site` parameter (remove `www.` prefix). If `alias` is itself marked as
-    /// an alias for another site, `site` will become an alias for that site. Attempting to mark a
-    /// site as an alias which already has passwords will result in
+    /// an alias for another site, `site` will become an alias for that site. Existing aliases for
+    /// `site` will become aliases for the same site as well. Attempting to mark a site as an alias
+    /// which already has passwords will result in
     /// [Error::SiteHasPasswords](../error/enum.Error.html#variant.SiteHasPasswords).
     pub fn set_alias(&mut self, site: &str, alias: &str) -> Result<(), Error> {
         let hmac_secret = self.hmac_secret.as_ref().ok_or(Error::PasswordsLocked)?;
@@ -181,6 +182,19 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
 
         self.storage
             .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;
+
+        // Only one level is resolved, so existing aliases of this site have to follow
+        let aliases = self
+            .storage
+            .list_sites(key)
+            .filter(|other| other.alias() == Some(&site_normalized))
+            .map(|other| other.name().to_string())
+            .filter(|other| other != &alias_resolved)
+            .collect::<Vec<_>>();
+        for other in aliases {
+            self.storage
+                .set_alias(&other, &alias_resolved, hmac_secret, key)?;
+        }
         self.storage.flush()
     }
 
-- 
2.43.0


From 9f709fd8d4e5c9ff4cf8cb046a5cc25a83607f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:18 +0000
Subject: [PATCH 07/16] fix: handle end of input and input errors in prompts

Without more input, password prompts would repeat forever and editing
notes would remove them. Failures to read input and invalid UTF-8 caused
crashes, or were treated like the end of the line. Confirmations swallowed
input meant for the prompts following them.
---
 cli/src/main.rs                  |  12 ++--
 cli/src/processor/add.rs         |  12 ++--
 cli/src/processor/add_stored.rs  |  14 ++--
 cli/src/processor/notes.rs       |   2 +-
 cli/src/processor/set_primary.rs |   4 +-
 cli/src/processor/utils.rs       | 112 +++++++++++++++++++++++--------
 6 files changed, 102 insertions(+), 54 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 7177bf9..337732e 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -26,7 +26,7 @@ use args::{Args, Commands};
 use io_streams::StreamWriter;
 use pfp::passwords::Passwords;
 use pfp::storage_io::FileIO;
-use processor::utils::ConvertError;
+use processor::utils::{confirm, ConvertError};
 use std::io::Write;
 
 struct Shutdown {
@@ -75,13 +75,11 @@ fn main_inner(args: Args) -> Result<(), String> {
         match FileIO::load(&storage_path) {
             Ok(io) => {
                 if !assume_yes {
-                    let allow = question::Question::new(
+                    let allow = confirm(
                         "Changing primary password will remove all existing data. Continue?",
-                    )
-                    .default(question::Answer::NO)
-                    .show_defaults()
-                    .confirm();
-                    if allow == question::Answer::NO {
+                        false,
+                    )?;
+                    if !allow {
                         return Ok(());
                     }
                 }
diff --git a/cli/src/processor/add.rs b/cli/src/processor/add.rs
index bdc9e9a..9899cc0 100644
--- a/cli/src/processor/add.rs
+++ b/cli/src/processor/add.rs
@@ -4,7 +4,7 @@
  * http://mozilla.org/MPL/2.0/.
  */
 
-use super::utils::{ensure_unlocked_passwords, ConvertError};
+use super::utils::{confirm, ensure_unlocked_passwords, ConvertError};
 use crate::args::{Args, Commands};
 use pfp::passwords::Passwords;
 use pfp::storage_io;
@@ -46,13 +46,11 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {
-            let allow = question::Question::new(
+            let allow = confirm(
                 "A password with this domain/name/revision combination already exists. Overwrite?",
-            )
-            .default(question::Answer::NO)
-            .show_defaults()
-            .confirm();
-            if allow == question::Answer::NO {
+                false,
+            )?;
+            if !allow {
                 return Ok(());
             }
         }
diff --git a/cli/src/processor/add_stored.rs b/cli/src/processor/add_stored.rs
index ed94cc7..24133fa 100644
--- a/cli/src/processor/add_stored.rs
+++ b/cli/src/processor/add_stored.rs
@@ -5,7 +5,7 @@
  */
 
 use super::utils::{
-    ensure_unlocked_passwords, prompt_password, prompt_recovery_code, ConvertError,
+    confirm, ensure_unlocked_passwords, prompt_password, prompt_recovery_code, ConvertError,
 };
 use crate::args::{Args, Commands};
 use pfp::passwords::Passwords;
@@ -26,13 +26,11 @@ pub fn processor<IO: storage_io::StorageIO>(
         ensure_unlocked_passwords(passwords, args.stdin_passwords)?;
 
         if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {
-            let allow = question::Question::new(
+            let allow = confirm(
                 "A password with this domain/name/revision combination already exists. Overwrite?",
-            )
-            .default(question::Answer::NO)
-            .show_defaults()
-            .confirm();
-            if allow == question::Answer::NO {
+                false,
+            )?;
+            if !allow {
                 return Ok(());
             }
         }
@@ -40,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         let password = if *recovery {
             prompt_recovery_code(passwords)?
         } else {
-            prompt_password("Password to be stored: ", args.stdin_passwords)
+            prompt_password("Password to be stored: ", args.stdin_passwords)?
         };
         passwords
             .set_stored(domain, name, revision, password)
diff --git a/cli/src/processor/notes.rs b/cli/src/processor/notes.rs
index 82d6b62..55489fb 100644
--- a/cli/src/processor/notes.rs
+++ b/cli/src/processor/notes.rs
@@ -38,7 +38,7 @@ pub fn processor<IO: storage_io::StorageIO>(
         }
 
         if *set {
-            let notes = prompt_secret_text("Please enter new notes to be stored:");
+            let notes = prompt_secret_text("Please enter new notes to be stored:")?;
             let removing = notes.expose_secret().is_empty();
             passwords
                 .set_notes(domain, name, revision, notes)
diff --git a/cli/src/processor/set_primary.rs b/cli/src/processor/set_primary.rs
index db84443..f715b2c 100644
--- a/cli/src/processor/set_primary.rs
+++ b/cli/src/processor/set_primary.rs
@@ -15,12 +15,12 @@ pub fn processor<IO: storage_io::StorageIO>(
     storage_path: &std::path::Path,
     passwords: &mut Passwords<IO>,
 ) -> Result<(), String> {
-    let primary_password = prompt_password("New primary password: ", args.stdin_passwords);
+    let primary_password = prompt_password("New primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret().len() < 6 {
         return Err("Primary password length should be at least 6 characters.".to_owned());
     }
 
-    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords);
+    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;
     if primary_password.expose_secret() != primary_password2.expose_secret() {
         return Err("Primary passwords don't match.".to_owned());
     }
diff --git a/cli/src/processor/utils.rs b/cli/src/processor/utils.rs
index e8bb9ba..11b18f9 100644
--- a/cli/src/processor/utils.rs
+++ b/cli/src/processor/utils.rs
@@ -68,37 +68,91 @@ impl<T> ConvertError<T> for Result<T, Error> {
     }
 }
 
-pub fn prompt_secret_text(prompt: &str) -> SecretString {
+fn input_error(error: std::io::Error) -> String {
+    format!("Failed reading input ({}).", error)
+}
+
+fn print_prompt(prompt: &str) -> Result<(), String> {
     StreamWriter::stdout()
-        .unwrap()
-        .write_all(prompt.as_bytes())
-        .unwrap();
+        .and_then(|mut stdout| stdout.write_all(prompt.as_bytes()))
+        .map_err(|error| format!("Failed writing output ({}).", error))
+}
 
+/// Reads one line from stdin without leaving a copy of it behind in any buffers. This produces
+/// `None` if there is no more input.
+fn read_line() -> Result<Option<SecretVec<u8>>, String> {
     let mut byte_buffer = [0];
     let mut buffer = Vec::with_capacity(1024);
-    let mut stdin = StreamReader::stdin().unwrap();
-    while let Ok(1) = stdin.read(&mut byte_buffer) {
-        if byte_buffer[0] == b'\n' {
-            break;
+    let mut stdin = StreamReader::stdin().map_err(input_error)?;
+    let mut finished = false;
+    while !finished {
+        match stdin.read(&mut byte_buffer) {
+            Ok(0) if buffer.is_empty() => return Ok(None),
+            Ok(0) => finished = true,
+            Ok(_) if byte_buffer[0] == b'\n' => finished = true,
+            Ok(_) => {
+                if buffer.len() == buffer.capacity() {
+                    let mut larger = Vec::with_capacity(2 * buffer.capacity());
+                    larger.extend_from_slice(&buffer);
+                    // Data is erased when SecretVec is dropped
+                    SecretVec::new(std::mem::replace(&mut buffer, larger));
+                }
+                buffer.push(byte_buffer[0]);
+            }
+            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}
+            Err(error) => {
+                SecretVec::new(buffer);
+                return Err(input_error(error));
+            }
         }
-        buffer.push(byte_buffer[0]);
     }
+    Ok(Some(SecretVec::new(buffer)))
+}
 
-    let input = SecretVec::new(buffer);
-    SecretString::new(
-        std::str::from_utf8(input.expose_secret().as_slice())
-            .unwrap()
-            .to_owned(),
-    )
+/// Asks the user a yes/no question, no more input being equivalent to "no".
+pub fn confirm(question: &str, default: bool) -> Result<bool, String> {
+    loop {
+        std::io::stdout().flush().unwrap();
+        print_prompt(&format!(
+            "{} {} ",
+            question,
+            if default { "(Y/n)" } else { "(y/N)" }
+        ))?;
+        match read_line()? {
+            None => return Ok(false),
+            Some(line) => {
+                match String::from_utf8_lossy(line.expose_secret())
+                    .trim()
+                    .to_lowercase()
+                    .as_str()
+                {
+                    "y" | "yes" => return Ok(true),
+                    "n" | "no" => return Ok(false),
+                    "" => return Ok(default),
+                    _ => {}
+                }
+            }
+        }
+    }
 }
 
-pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> SecretString {
+pub fn prompt_secret_text(prompt: &str) -> Result<SecretString, String> {
+    print_prompt(prompt)?;
+
+    let input = read_line()?.ok_or_else(|| "Unexpected end of input.".to_owned())?;
+    match std::str::from_utf8(input.expose_secret()) {
+        Ok(text) => Ok(SecretString::new(text.to_owned())),
+        Err(_) => Err("The text you entered is not valid UTF-8.".to_owned()),
+    }
+}
+
+pub fn prompt_password(prompt: &str, stdin_passwords: bool) -> Result<SecretString, String> {
     let secret = if stdin_passwords {
-        prompt_secret_text(prompt)
+        prompt_secret_text(prompt)?
     } else {
-        SecretString::new(rpassword::prompt_password(prompt).unwrap())
+        SecretString::new(rpassword::prompt_password(prompt).map_err(input_error)?)
     };
-    SecretString::new(secret.expose_secret().trim().to_owned())
+    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))
 }
 
 pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
@@ -110,7 +164,7 @@ pub fn ensure_unlocked_passwords<IO: storage_io::StorageIO>(
     }
 
     while !passwords.unlocked() {
-        let primary_password = prompt_password("Your primary password: ", stdin_passwords);
+        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;
         if primary_password.expose_secret().len() < 6 {
             eprintln!("Primary password length should be at least 6 characters.");
         } else {
@@ -127,14 +181,16 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
 ) -> Result<SecretString, String> {
     let mut accepted = String::new();
     loop {
-        if let Some(question::Answer::RESPONSE(line)) =
-            question::Question::new("Next line of your recovery code (empty line to abort):").ask()
-        {
+        std::io::stdout().flush().unwrap();
+        print_prompt("Next line of your recovery code (empty line to abort): ")?;
+        if let Some(line) = read_line()? {
+            let line = String::from_utf8_lossy(line.expose_secret());
+            let line = line.trim();
             if line.is_empty() {
                 return Err(String::new());
             }
 
-            let code = String::from(&accepted) + &line;
+            let code = String::from(&accepted) + line;
             let formatted = recovery_codes::format_code(code.as_bytes(), true);
             match passwords.decode_recovery_code(&code) {
                 Ok(value) => return Ok(value),
@@ -143,11 +199,7 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
                         accepted = formatted.split('\n').collect::<Vec<&str>>()[..line].join("\n");
 
                         let query = format!("The following seems to be a valid recovery code:\n{}\nYou entered some additional data however. Ignore the extra data and decode the recovery code?", &accepted);
-                        let accept = question::Question::new(&query)
-                            .default(question::Answer::YES)
-                            .show_defaults()
-                            .confirm();
-                        if accept == question::Answer::YES {
+                        if confirm(&query, true)? {
                             return passwords.decode_recovery_code(&accepted).convert_error();
                         } else {
                             return Err(String::new());
@@ -172,6 +224,8 @@ pub fn prompt_recovery_code<IO: storage_io::StorageIO>(
                     }
                 },
             }
+        } else {
+            return Err(String::new());
         }
     }
 }
-- 
2.43.0


From 4baf1bbe73e09a285a4b2e8242176fd9ca7dcb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:25 +0000
Subject: [PATCH 08/16] fix: leave the shell if its input cannot be read

The shell kept printing the same error in an infinite loop.
---
 cli/src/processor/shell.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/cli/src/processor/shell.rs b/cli/src/processor/shell.rs
index c71204c..db7aa88 100644
--- a/cli/src/processor/shell.rs
+++ b/cli/src/processor/shell.rs
@@ -44,6 +44,8 @@ pub fn processor<IO: storage_io::StorageIO>(
 
     println!("Enter a command or type 'help' for a list of commands. Enter 'help <command>' for detailed information on a command.");
     std::io::stdout().flush().unwrap();
+
+    let mut result = Ok(());
     loop {
         match editor.readline("pfp> ") {
             Ok(line) => {
@@ -109,6 +111,18 @@ pub fn processor<IO: storage_io::StorageIO>(
             Err(ReadlineError::Eof) => {
                 break;
             }
+            Err(ReadlineError::Io(error))
+                if error.kind() != std::io::ErrorKind::InvalidData
+                    && error.kind() != std::io::ErrorKind::Interrupted =>
+            {
+                result = Err(format!("Failed reading input ({}).", error));
+                break;
+            }
+            #[cfg(unix)]
+            Err(ReadlineError::Errno(error)) => {
+                result = Err(format!("Failed reading input ({}).", error));
+                break;
+            }
             Err(error) => {
                 eprintln!("Error: {:?}", error);
             }
@@ -123,5 +137,5 @@ pub fn processor<IO: storage_io::StorageIO>(
         );
     }
 
-    Ok(())
+    result
 }
-- 
2.43.0


From 6a11ff0bb3b2d9cee9d336bc0bd667a09d4cea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 09/16] fix: ask before replacing a storage file that cannot be
 read

Setting a primary password silently destroyed files which couldn't be
read or parsed, even though these might have been recoverable.
---
 cli/src/main.rs | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 337732e..3cebc66 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -24,6 +24,7 @@ fn shutdown_allocator() {}
 
 use args::{Args, Commands};
 use io_streams::StreamWriter;
+use pfp::error::Error;
 use pfp::passwords::Passwords;
 use pfp::storage_io::FileIO;
 use processor::utils::{confirm, ConvertError};
@@ -72,21 +73,26 @@ fn main_inner(args: Args) -> Result<(), String> {
     };
 
     let io = if let Commands::SetPrimary { assume_yes } = &args.command {
-        match FileIO::load(&storage_path) {
-            Ok(io) => {
-                if !assume_yes {
-                    let allow = confirm(
-                        "Changing primary password will remove all existing data. Continue?",
-                        false,
-                    )?;
-                    if !allow {
-                        return Ok(());
-                    }
-                }
-                io
+        let (io, exists) = match FileIO::load(&storage_path) {
+            Ok(io) => (io, true),
+            Err(Error::FileReadFailure { error })
+                if error.kind() == std::io::ErrorKind::NotFound =>
+            {
+                (FileIO::new(&storage_path), false)
+            }
+            // There is a file, it merely cannot be read
+            Err(_) => (FileIO::new(&storage_path), true),
+        };
+        if exists && !assume_yes {
+            let allow = confirm(
+                "Changing primary password will remove all existing data. Continue?",
+                false,
+            )?;
+            if !allow {
+                return Ok(());
             }
-            Err(_) => FileIO::new(&storage_path),
         }
+        io
     } else {
         FileIO::load(&storage_path).convert_error()?
     };
-- 
2.43.0


From 4a507f844f1785a231164aa2c8b91ca3a40c4bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:20 +0000
Subject: [PATCH 10/16] fix: fail saving if a symbolic link cannot be resolved

---
 pfp/src/storage_io/file.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pfp/src/storage_io/file.rs b/pfp/src/storage_io/file.rs
index c2e75fd..6341523 100644
--- a/pfp/src/storage_io/file.rs
+++ b/pfp/src/storage_io/file.rs
@@ -118,9 +118,13 @@ fn write_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {
     // Write the file that symbolic links point to, don't replace the link.
     let mut path = path.to_path_buf();
     for _ in 0..MAX_LINKS {
-        match fs::read_link(&path) {
-            Ok(target) => path = path.with_file_name(target),
-            Err(_) => break,
+        match fs::symlink_metadata(&path) {
+            Ok(metadata) if metadata.file_type().is_symlink() => {
+                path = path.with_file_name(fs::read_link(&path)?);
+            }
+            Ok(_) => break,
+            Err(error) if error.kind() == io::ErrorKind::NotFound => break,
+            Err(error) => return Err(error),
         }
     }
 
-- 
2.43.0


From 58edad592b5559e1178a7e8ec503aa1bf5514736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 11/16] fix: leave no copies of secrets behind when serializing

---
 pfp/src/json/mod.rs | 32 +++++++++++++++++++++++++++++++-
 pfp/src/storage.rs  |  7 +++----
 2 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/pfp/src/json/mod.rs b/pfp/src/json/mod.rs
index f95c477..e611edd 100644
--- a/pfp/src/json/mod.rs
+++ b/pfp/src/json/mod.rs
@@ -7,7 +7,10 @@
 pub use serde::de::Deserialize as Deserializable;
 pub use serde::ser::Serialize as Serializable;
 pub use serde::*;
-pub use serde_json::{from_slice, from_str, json, to_string, to_vec, Error, Value};
+pub use serde_json::{from_slice, from_str, json, to_string, Error, Value};
+
+use secrecy::SecretVec;
+use std::io;
 
 mod macros;
 
@@ -16,3 +19,30 @@ mod macros;
 pub use macros::*;
 
 pub mod secret_serialization;
+
+/// Serializes a value that might contain secrets. The buffer is allocated with the right size up
+/// front: growing it would leave copies of its contents behind that won't be zeroed.
+pub fn to_secret_vec<T>(value: &T) -> Result<SecretVec<u8>, Error>
+where
+    T: ?Sized + Serializable,
+{
+    struct Counter(usize);
+
+    impl io::Write for Counter {
+        fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
+            self.0 += buf.len();
+            Ok(buf.len())
+        }
+
+        fn flush(&mut self) -> io::Result<()> {
+            Ok(())
+        }
+    }
+
+    let mut counter = Counter(0);
+    serde_json::to_writer(&mut counter, value)?;
+
+    let mut result = Vec::with_capacity(counter.0);
+    serde_json::to_writer(&mut result, value)?;
+    Ok(SecretVec::new(result))
+}
diff --git a/pfp/src/storage.rs b/pfp/src/storage.rs
index d9f5f30..58c8287 100644
--- a/pfp/src/storage.rs
+++ b/pfp/src/storage.rs
@@ -64,7 +64,7 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
         T: json::Serializable,
     {
         let serialized =
-            SecretVec::new(json::to_vec(value).map_err(|error| Error::InvalidJson { error })?);
+            json::to_secret_vec(value).map_err(|error| Error::InvalidJson { error })?;
         self.io.set(
             key.to_string(),
             crypto::encrypt_data(&serialized, encryption_key),
@@ -110,9 +110,8 @@ impl<IO: storage_io::StorageIO> Storage<IO> {
         encryption_key: &SecretVec<u8>,
     ) -> Result<(), Error> {
         let encoded = SecretString::new(base64::encode(hmac_secret.expose_secret()));
-        let stringified = SecretVec::new(
-            json::to_vec(encoded.expose_secret()).map_err(|error| Error::InvalidJson { error })?,
-        );
+        let stringified = json::to_secret_vec(encoded.expose_secret())
+            .map_err(|error| Error::InvalidJson { error })?;
         let encrypted = crypto::encrypt_data(&stringified, encryption_key);
         self.io.set(HMAC_SECRET_KEY.to_string(), encrypted);
         Ok(())
-- 
2.43.0


From 7bdc2ff406c5e16f3302fe536e795b6ea9893e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:56 +0000
Subject: [PATCH 12/16] fix: list passwords of sites with names starting with
 www. correctly

---
 cli/src/processor/list.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cli/src/processor/list.rs b/cli/src/processor/list.rs
index 3432f46..3a71549 100644
--- a/cli/src/processor/list.rs
+++ b/cli/src/processor/list.rs
@@ -57,7 +57,10 @@ pub fn processor<IO: storage_io::StorageIO>(
 
         let mut found = false;
         for site in sites {
-            let mut list = passwords.list(site.name(), name).collect::<Vec<Password>>();
+            // Site names in storage are already normalized. Adding the prefix that normalization
+            // removes makes sure that names starting with "www." are used as they are.
+            let site_name = format!("www.{}", site.name());
+            let mut list = passwords.list(&site_name, name).collect::<Vec<Password>>();
             if list.is_empty() {
                 if name == "*" {
                     empty_sites.push(site.name().to_string());
@@ -96,7 +99,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                         .unwrap()
                         .write_all(
                             passwords
-                                .get(site.name(), &name, &revision)
+                                .get(&site_name, &name, &revision)
                                 .convert_error()?
                                 .expose_secret()
                                 .as_bytes(),
-- 
2.43.0


From 07cc6f89e9b367041139b12e98b0ce279f788524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 13/16] fix: print QR codes on lines of their own

---
 cli/src/processor/show.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/src/processor/show.rs b/cli/src/processor/show.rs
index 1670500..74d2d98 100644
--- a/cli/src/processor/show.rs
+++ b/cli/src/processor/show.rs
@@ -36,6 +36,7 @@ pub fn processor<IO: storage_io::StorageIO>(
                 qrcodegen::QrCodeEcc::Low,
             ) {
                 Ok(qr) => {
+                    stdout.write_all(b"\n").unwrap();
                     for y in (0..qr.size()).step_by(2) {
                         for x in 0..qr.size() {
                             let index = if qr.get_module(x, y) { 1 } else { 0 }
-- 
2.43.0


From 6cfc638c550cbef6bf6a4503ab5d0845319b046b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 14/16] fix: report generated passwords with unusable
 parameters as an error

---
 pfp/src/passwords.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/pfp/src/passwords.rs b/pfp/src/passwords.rs
index 9d9eada..800b22e 100644
--- a/pfp/src/passwords.rs
+++ b/pfp/src/passwords.rs
@@ -343,12 +343,17 @@ impl<IO: storage_io::StorageIO> Passwords<IO> {
         )?;
 
         match password {
-            Password::Generated(password) => Ok(crypto::derive_password(
-                primary_password,
-                &password.salt(),
-                password.length(),
-                password.charset(),
-            )),
+            Password::Generated(password) => {
+                if password.length() == 0 || password.charset().is_empty() {
+                    return Err(Error::UnexpectedData);
+                }
+                Ok(crypto::derive_password(
+                    primary_password,
+                    &password.salt(),
+                    password.length(),
+                    password.charset(),
+                ))
+            }
             Password::Stored(password) => Ok(password.password().clone()),
         }
     }
-- 
2.43.0


From 93f51ef3657ea284193cd907fa19334433acf715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:38 +0000
Subject: [PATCH 15/16] fix: do not overflow when decoding the recovery code of
 an empty password

---
 pfp/src/recovery_codes.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index a518462..d011070 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -220,10 +220,7 @@ pub fn decode(code: &str, primary_password: &SecretString) -> Result<SecretStrin
     let decrypted = crypto::decrypt_data(&encrypted, &encryption_key)?;
     let decrypted_len = decrypted.expose_secret().len();
     let mut end_pos = decrypted_len;
-    while let Some(&byte) = decrypted.expose_secret().get(end_pos - 1) {
-        if byte != 0 {
-            break;
-        }
+    while end_pos > 0 && decrypted.expose_secret()[end_pos - 1] == 0 {
         end_pos -= 1;
     }
     let stripped = if end_pos == decrypted_len {
-- 
2.43.0


From c915e618a038c1356085e5aeda59e078e9613f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:24 +0000
Subject: [PATCH 16/16] fix: do not overflow in recovery codes of more than 256
 lines

---
 pfp/src/recovery_codes.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pfp/src/recovery_codes.rs b/pfp/src/recovery_codes.rs
index d011070..be3c8c4 100644
--- a/pfp/src/recovery_codes.rs
+++ b/pfp/src/recovery_codes.rs
@@ -103,10 +103,10 @@ pub fn generate(
             let block_index = pos / BLOCK_SIZE;
             let final_block = block_index == blocks - 1;
             let virtual_byte = if final_block {
-                255 - block_index
+                255 - block_index as u8
             } else {
-                block_index
-            } as u8;
+                block_index as u8
+            };
             output.push(crypto::pearson_hash(
                 &output[output.len() - BLOCK_SIZE..],
                 virtual_byte,
@@ -248,7 +248,7 @@ fn validate(code: &str) -> Result<Vec<u8>, Error> {
             break;
         }
 
-        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], (255 - i) as u8) {
+        if chunk[BLOCK_SIZE] == crypto::pearson_hash(&chunk[..BLOCK_SIZE], 255 - i as u8) {
             seen_last = true;
             extra_row = None;
         } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {
-- 
2.43.0

