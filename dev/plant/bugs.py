# id -> (property, needs, breaks, [(file, old, new)...])
S='pfp/src/storage.rs'; P='pfp/src/passwords.rs'; C='pfp/src/crypto.rs'; F='pfp/src/storage_io/file.rs'; PW='pfp/src/storage_types/password.rs'
R='pfp/src/recovery_codes.rs'; M='pfp/src/json/macros.rs'
L='cli/src/processor/list.rs'; A='cli/src/processor/alias.rs'; SH='cli/src/processor/shell.rs'; U='cli/src/processor/utils.rs'; W='cli/src/processor/show.rs'
B={
'c01-clear-flush':('C01','a process kill or power loss between two saves of set-primary on an existing vault',
  'Re-initialising saves the emptied storage first, so a crash leaves a file that is neither the old nor the new vault',
  [(S,"        self.io.clear();\n        self.set_salt(salt);","        // Make sure that old data is gone before adding the new\n        self.io.clear();\n        self.io.flush()?;\n        self.set_salt(salt);")]),
'c01-site-first':('C01','a kill between the two saves of adding a password for a new site',
  'Adding a password saves the new site record on its own before saving the password',
  [(S,"            self.set(&key, &Site::new(site, None), encryption_key)\n        } else {","            self.set(&key, &Site::new(site, None), encryption_key)?;\n            self.flush()\n        } else {")]),
'c01-clean-each':('C01','a kill while list cleans up at least two empty sites',
  'The clean-up of list saves after each removed site instead of once',
  [(P,"                result => result?,\n            }\n        }\n        self.storage.flush()\n","                result => result?,\n            }\n            self.storage.flush()?;\n        }\n        Ok(())\n")]),
'c02-deferred-notes':('C02','a kill of a shell session after notes were reported as stored',
  'Changed notes are only written when passwords are locked or dropped, a killed session loses them',
  [(P,"        self.storage.set_password(password, hmac_secret, key)?;\n        self.storage.flush()","        self.storage.set_password(password, hmac_secret, key)"),
   (P,"    pub fn lock(&mut self) {\n        self.key = None;","    pub fn lock(&mut self) {\n        if self.unlocked() {\n            let _ = self.storage.flush();\n        }\n        self.key = None;")]),
'c02-same-length':('C02','new notes of the same length as the old ones',
  'Setting notes compares only the length to decide whether anything changed',
  [(P,"        password.set_notes(notes);\n        self.storage.set_password","        if password.notes().expose_secret().len() == notes.expose_secret().len() {\n            return Ok(());\n        }\n        password.set_notes(notes);\n        self.storage.set_password"),
   (P,"use secrecy::{SecretString, SecretVec};\n\n/// Generates","use secrecy::{ExposeSecret, SecretString, SecretVec};\n\n/// Generates"),
   (P,"    use super::*;\n\n    use secrecy::ExposeSecret;\n","    use super::*;\n\n    #[allow(unused_imports)]\n    use secrecy::ExposeSecret;\n")]),
'c03-reset-order':('C03','a failing save while the primary password of an open session is changed (library)',
  'After a failed re-initialisation the session uses the new key on the old data',
  [(P,"        self.storage.flush()?;\n\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        self.primary_password = Some(primary_password);\n        Ok(())\n    }\n\n    /// Unlocks","        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        self.primary_password = Some(primary_password);\n        self.storage.flush()\n    }\n\n    /// Unlocks")]),
'c04-revision-number':('C04','a revision other than "1" that is the number one, such as "01"',
  'Revisions are compared as numbers, "01" and "+1" collide with no revision',
  [(PW,'            revision: if revision != "1" {','            revision: if revision.parse() != Ok(1u32) {')]),
'c04-www-twice':('C04','a site name starting with www.www.',
  'All leading www. are removed, so that www.www.example.com and example.com collide',
  [(S,'        site.strip_prefix("www.").unwrap_or(site).to_string()','        site.trim_start_matches("www.").to_string()')]),
'c05-www-alias':('C05','alias www.X when X has passwords',
  'The check for existing passwords is done for the site name as given, passwords of X are hidden by the alias',
  [(P,"            .list_passwords(&site_normalized, hmac_secret, key)\n            .next()","            .list_passwords(site, hmac_secret, key)\n            .next()")]),
'c06-list-saves':('C06','list without anything to clean up',
  'list always writes the storage file',
  [(P,"        if sites.is_empty() {\n            return Ok(());\n        }\n\n        let hmac_secret","        let hmac_secret")]),
'c07-clean-glob':('C07','list with a name pattern other than * ending in * that matches none of the passwords of a site',
  'The clean-up removes records of sites that have passwords, which list does not find any more',
  [(L,'                if name == "*" {','                if name.ends_with(\'*\') {')]),
'c07-dedup-order':('C07','two aliases for one site that are not neighbours',
  'A site is listed twice',
  [(L,"        sites.sort_by_key(|site| site.name().to_owned());\n        sites.dedup_by_key(|site| site.name().to_owned());","        sites.dedup_by_key(|site| site.name().to_owned());\n        sites.sort_by_key(|site| site.name().to_owned());")]),
'c08-idn-sites':('C08','a site name that is not ASCII',
  'The name of such a site is stored Base64-encoded instead of hashed',
  [(S,"        result.push_str(&crypto::get_digest(hmac_secret, site));\n        result\n    }\n\n    fn get_site_prefix","        if site.is_ascii() {\n            result.push_str(&crypto::get_digest(hmac_secret, site));\n        } else {\n            result.push_str(&base64::encode(site));\n        }\n        result\n    }\n\n    fn get_site_prefix")]),
'c09-entropy-ignored':('C09','the randomness source fails while a password is saved',
  'The nonce stays zero if there is no randomness',
  [(C,"    let nonce_data = get_rng().gen::<[u8; AES_NONCE_SIZE / 8]>();","    let mut nonce_data = [0u8; AES_NONCE_SIZE / 8];\n    let _ = get_nonce_rng().try_fill_bytes(&mut nonce_data);"),
   (C,"pub fn encrypt_data(","#[cfg(not(test))]\nfn get_nonce_rng() -> rand::rngs::OsRng {\n    rand::rngs::OsRng\n}\n\n#[cfg(test)]\nfn get_nonce_rng() -> rand::rngs::mock::StepRng {\n    get_rng()\n}\n\npub fn encrypt_data("),
   (C,"use rand::Rng;","use rand::{Rng, RngCore};")]),
'c09-clock-seed':('C09','two processes with the same process ID started at the same time (in containers, after a clock reset)',
  'Randomness is derived from clock and process ID',
  [(C,"pub fn get_rng() -> rand::rngs::ThreadRng {\n    rand::thread_rng()\n}","pub fn get_rng() -> impl Rng {\n    use rand::SeedableRng;\n    use std::cell::Cell;\n\n    thread_local!(static COUNTER: Cell<u64> = Cell::new(0));\n    let now = std::time::SystemTime::now()\n        .duration_since(std::time::UNIX_EPOCH)\n        .map(|now| now.as_nanos() as u64)\n        .unwrap_or(0);\n    let counter = COUNTER.with(|counter| counter.replace(counter.get() + 1));\n    rand::rngs::StdRng::seed_from_u64(now ^ u64::from(std::process::id()) << 48 ^ counter << 32)\n}")]),
'c11-primary-early':('C11','an unlock attempt with a wrong primary password, then decoding a recovery code (library)',
  'A refused primary password is remembered, the locked session decodes recovery codes with it',
  [(P,"        let key = get_encryption_key(&primary_password, &salt);\n\n        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        self.primary_password = Some(primary_password);","        let key = get_encryption_key(&primary_password, &salt);\n        self.primary_password = Some(primary_password);\n\n        self.hmac_secret = Some(self.storage.get_hmac_secret(&key)?);\n        self.key = Some(key);")]),
'c12-keep-bad-line':('C12','a typo in a line of a recovery code which is then entered correctly',
  'The line with the typo is kept, so that the code cannot be completed',
  [(U,"                    Error::RecoveryCodeChecksumMismatch { line } => {\n                        accepted = formatted.split('\\n').collect::<Vec<&str>>()[..line].join(\"\\n\");","                    Error::RecoveryCodeChecksumMismatch { line } => {\n                        accepted = formatted.split('\\n').take(line.max(1)).collect::<Vec<&str>>().join(\"\\n\");")]),
'c13-unlock-eof':('C13','the end of input or an input error at the prompt for the primary password',
  'The prompt is repeated forever',
  [(U,'        let primary_password = prompt_password("Your primary password: ", stdin_passwords)?;','        let primary_password = prompt_password("Your primary password: ", stdin_passwords)\n            .unwrap_or_else(|error| {\n                eprintln!("{}", error);\n                SecretString::new(String::new())\n            });')]),
'c14-has-unresolved':('C14','adding a password through an alias of a site that already has it',
  'The existing password is replaced without asking',
  [(P,"        let site_resolved = self.storage.resolve_site(site, hmac_secret, key);\n        Ok(self.storage.has_password(","        let key_site = self.storage.normalize_site(site);\n        let site_resolved = match self.storage.get_site(&key_site, hmac_secret, key) {\n            Ok(site) => site.name().to_string(),\n            Err(_) => key_site,\n        };\n        Ok(self.storage.has_password(")]),
'c14-has-decrypt':('C14','an existing password whose entry is damaged',
  'A damaged password counts as missing and is replaced without asking',
  [(P,"        Ok(self.storage.has_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        ))","        Ok(self\n            .storage\n            .get_password(\n                &PasswordId::new(&site_resolved, name, revision),\n                hmac_secret,\n                key,\n            )\n            .is_ok())")]),
'c15-stat-length':('C15','another process saves between determining the size of the file and opening it',
  'Only as many bytes are read as the file had before it was replaced',
  [(F,"        let contents =\n            fs::read_to_string(path).map_err(|error| Error::FileReadFailure { error })?;\n","        let contents = read_file(path).map_err(|error| Error::FileReadFailure { error })?;\n"),
   (F,"impl super::StorageIO for FileIO {","fn read_file(path: &path::Path) -> io::Result<String> {\n    use std::io::Read;\n\n    let size = fs::metadata(path)?.len();\n    let mut contents = String::with_capacity(size as usize);\n    fs::File::open(path)?.take(size).read_to_string(&mut contents)?;\n    Ok(contents)\n}\n\nimpl super::StorageIO for FileIO {")]),
'c17-revision-salt':('C17','a revision sorting before "1", such as "0" or "-"',
  'Such revisions do not make it into the generated password, which is the same as without a revision',
  [(PW,"        if !self.id.revision().is_empty() {\n            salt.push('\\0');","        if self.id.revision() > \"1\" {\n            salt.push('\\0');")]),
'c18-show-copy':('C18','showing any password',
  'A copy of the password stays in released memory',
  [(W,"            stdout\n                .write_all(password.expose_secret().as_bytes())\n                .unwrap();\n            stdout.write_all(b\"\\n\").unwrap();","            let line = format!(\"{}\\n\", password.expose_secret());\n            stdout.write_all(line.as_bytes()).unwrap();")]),
'c18-growing':('C18','use of any generated password',
  'The generated password is built in a growing string, leaving parts of it in released memory',
  [(C,"    let mut result = String::with_capacity(len);","    let mut result = String::new();")]),
'c18-failed-unlock':('C18','a refused unlock attempt',
  'A copy of the wrong primary password stays in memory',
  [(P,"        let key = get_encryption_key(&primary_password, &salt);\n\n        let hmac_secret = self.storage.get_hmac_secret(&key)?;","        let key = get_encryption_key(&primary_password, &salt);\n\n        let candidate = primary_password.expose_secret().clone();\n        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        drop(SecretString::new(candidate));"),
   (P,"use secrecy::{SecretString, SecretVec};\n\n/// Generates","use secrecy::{ExposeSecret, SecretString, SecretVec};\n\n/// Generates"),
   (P,"    use super::*;\n\n    use secrecy::ExposeSecret;\n","    use super::*;\n\n    #[allow(unused_imports)]\n    use secrecy::ExposeSecret;\n")]),
'c19-bad-quotes':('C19','a shell command line with unbalanced quotes',
  'The session ends',
  [(SH,"                let words = print_errors!(shellwords::split(&line));","                let words = shellwords::split(&line).map_err(|error| error.to_string())?;")]),
'c20-older-format':('C20','a file of format 1 or 2, or of an application sorting before pfp',
  'Files of another format or application are accepted',
  [(M,"                if value == $value {","                if value <= $value {")]),
'c21-alias-status':('C21','an alias that cannot be added, e.g. because of a disk error',
  'The failure is reported with exit status 0',
  [(A,"            passwords.set_alias(domain, target).convert_error()?;\n            println!(\"Alias added.\");","            match passwords.set_alias(domain, target).convert_error() {\n                Ok(_) => println!(\"Alias added.\"),\n                Err(error) => eprintln!(\"{}\", error),\n            }")]),
'c22-short-read':('C22','a short read of the storage file',
  'A single read is expected to deliver everything',
  [(F,"        let contents =\n            fs::read_to_string(path).map_err(|error| Error::FileReadFailure { error })?;\n","        let contents = read_file(path).map_err(|error| Error::FileReadFailure { error })?;\n"),
   (F,"impl super::StorageIO for FileIO {","fn read_file(path: &path::Path) -> io::Result<String> {\n    use std::io::Read;\n\n    let mut file = fs::File::open(path)?;\n    let mut contents = vec![0; file.metadata()?.len() as usize + 1];\n    let mut size = 0;\n    while size < contents.len() {\n        let wanted = std::cmp::min(contents.len() - size, 65536);\n        let bytes = file.read(&mut contents[size..size + wanted])?;\n        size += bytes;\n        if bytes < wanted {\n            break;\n        }\n    }\n    contents.truncate(size);\n    String::from_utf8(contents)\n        .map_err(|error| io::Error::new(io::ErrorKind::InvalidData, error))\n}\n\nimpl super::StorageIO for FileIO {")]),
'c10-expect':('C10','an entry which can be decrypted but does not have the expected contents',
  'The program panics',
  [(S,"        json::from_slice(decrypted.expose_secret()).map_err(|error| Error::InvalidJson { error })\n    }\n\n    fn set<T>","        Ok(json::from_slice(decrypted.expose_secret()).expect(\"encrypted by us, must be valid\"))\n    }\n\n    fn set<T>")]),
}
for k in ['c05-www-alias','c07-dedup-order','c14-has-unresolved']: del B[k]
B['c09-entropy-ignored']=('C09','the randomness source fails while a password is saved',
  'The nonce stays zero if there is no randomness',
  [(C,"    let nonce_data = get_rng().gen::<[u8; AES_NONCE_SIZE / 8]>();","    let nonce_data = get_nonce();"),
   (C,"pub fn encrypt_data(","#[cfg(not(test))]\nfn get_nonce() -> [u8; AES_NONCE_SIZE / 8] {\n    let mut nonce = [0; AES_NONCE_SIZE / 8];\n    let _ = rand::rngs::OsRng.try_fill_bytes(&mut nonce);\n    nonce\n}\n\n#[cfg(test)]\nfn get_nonce() -> [u8; AES_NONCE_SIZE / 8] {\n    get_rng().gen()\n}\n\npub fn encrypt_data("),
   (C,"use rand::Rng;","use rand::{Rng, RngCore};")])
B['c20-older-format']=('C20','a file of format 1 or 2, or of an application sorting before pfp',
  'Files of another format or application are accepted',
  [(M,"                if value == $value {","                if value <= $type::from($value) {")])
B['c05-stored-hidden']=('C05','making a site an alias that only has stored passwords',
  'The passwords are hidden by the alias',
  [(P,"            .list_passwords(&site_normalized, hmac_secret, key)\n            .next()\n            .is_some()","            .list_passwords(&site_normalized, hmac_secret, key)\n            .any(|password| matches!(password, Password::Generated(_)))")])
B['c14-recovery-overwrites']=('C14','recovering a password that exists already',
  'The existing password is replaced without asking',
  [('cli/src/processor/add_stored.rs',"        if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {","        if !assume_yes && !recovery && passwords.has(domain, name, revision).unwrap_or(false) {")])
B['c06-temp-alias']=('C05','an alias whose target is an alias that was added later',
  '',[])
del B['c06-temp-alias']
B['c12-empty-line']=('C12','a recovery code entered with a line split in two',
  'Every line typed has to be complete: parts of lines are dropped',
  [(U,"                        accepted = formatted;\n","                        accepted = formatted\n                            .split('\\n')\n                            .filter(|line| line.len() == 29)\n                            .collect::<Vec<&str>>()\n                            .join(\"\\n\");\n")])
B['c07-alias-target']=('C07','list with a pattern matching only an alias',
  'The target of an alias with passwords of its own is only listed if it matches itself or has no record',
  [(P,"                Some(alias) => matcher.matches(alias),\n                None => false,\n            } || matcher.matches(site.name());","                Some(alias) => matcher.matches(alias) && matcher.matches(site.name()),\n                None => matcher.matches(site.name()),\n            };")])
for k in ['c20-older-format','c07-alias-target']: del B[k]
B['c04-blank-notes']=('C04','notes consisting of white space only',
  'Such notes are not saved',
  [(PW,"    str.expose_secret().is_empty()","    str.expose_secret().trim().is_empty()")])
AD='cli/src/processor/add.rs'; AS='cli/src/processor/add_stored.rs'; N='cli/src/processor/notes.rs'; RM='cli/src/processor/remove.rs'; SP='cli/src/processor/set_primary.rs'; MN='cli/src/main.rs'; AR='cli/src/args.rs'
B2={
'c01-remove-site':('C01','a kill between the two saves of removing the last password of a site',
  'Removing the last password of a site removes the site record in a save of its own, before the password',
  [(P,"        let site_resolved = self.storage.resolve_site(site, hmac_secret, key);\n        self.storage.remove_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        self.storage.flush()",
  "        let site_resolved = self.storage.resolve_site(site, hmac_secret, key);\n        let id = PasswordId::new(&site_resolved, name, revision);\n        let mut remaining = self\n            .storage\n            .get_password(&id, hmac_secret, key)\n            .map_err(|_| Error::KeyMissing)?;\n        remaining.set_notes(SecretString::new(String::new()));\n        self.storage.set_password(remaining, hmac_secret, key)?;\n        self.storage.flush()?;\n        self.storage.remove_password(&id, hmac_secret)?;\n        self.storage.flush()")]),
'c02-remove-last':('C02','removing the last password of the vault or of a site',
  'Removing a password that leaves no others behind is not saved',
  [(P,"        self.storage.remove_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        self.storage.flush()",
  "        self.storage.remove_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        if self\n            .storage\n            .list_passwords(&site_resolved, hmac_secret, key)\n            .next()\n            .is_none()\n            && self.storage.get_site(&site_resolved, hmac_secret, key).is_err()\n        {\n            return Ok(());\n        }\n        self.storage.flush()")]),
'c02-alias-same':('C02','an alias whose target is pointed elsewhere while another alias for the same target exists',
  'Changing the target of an alias is not saved',
  [(P,"        self.storage\n            .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;\n\n        // Only",
  "        let existing = self.storage.get_alias(&site_normalized, hmac_secret, key);\n        self.storage\n            .set_alias(&site_normalized, &alias_resolved, hmac_secret, key)?;\n        if existing.is_ok() && self.storage.get_site(&alias_resolved, hmac_secret, key).is_err() {\n            return Ok(());\n        }\n\n        // Only")]),
'c03-notes-error':('C03','saving new notes fails in a shell session',
  'The session is locked by a failed save of notes',
  [(P,"        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        self.storage.flush()","        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        let result = self.storage.flush();\n        if result.is_err() {\n            // Data in memory might be inconsistent, start over\n            self.lock();\n        }\n        result")]),
'c03-reset-locks':('C03','a failing save while the primary password of an open session is changed (library)',
  'After a failed re-initialisation the session is locked',
  [(P,"        let salt = crypto::get_rng().gen::<[u8; 16]>();\n        let key = get_encryption_key(&primary_password, &salt);\n        let hmac","        self.lock();\n        let salt = crypto::get_rng().gen::<[u8; 16]>();\n        let key = get_encryption_key(&primary_password, &salt);\n        let hmac")]),
'c04-trim-name':('C04','a user name starting or ending with white space',
  'User names are trimmed, so that two different names become the same entry',
  [(PW,"            name: name.to_string(),\n            revision: if","            name: name.trim_end().to_string(),\n            revision: if")]),
'c04-notes-kept':('C04','replacing a stored password that has notes',
  'The notes of the password replaced are kept for the new one',
  [(P,"        self.storage.set_stored(\n            StoredPassword::new(&site_resolved, name, revision, password),\n            hmac_secret,\n            key,\n        )?;","        let mut stored = StoredPassword::new(&site_resolved, name, revision, password);\n        if let Ok(existing) = self.storage.get_password(stored.id(), hmac_secret, key) {\n            stored.set_notes(existing.notes().clone());\n        }\n        self.storage.set_stored(stored, hmac_secret, key)?;")]),
'c04-www-case':('C04','a site name with upper-case letters',
  'Upper-case WWW. is removed as well, so that WWW.X and X collide',
  [(S,'        site.strip_prefix("www.").unwrap_or(site).to_string()','        match site.get(..4) {\n            Some(prefix) if prefix.eq_ignore_ascii_case("www.") => site[4..].to_string(),\n            _ => site.to_string(),\n        }')]),
'c05-remove-www':('C05','removing an alias given with www.',
  'The alias is not found',
  [(P,"        let site_normalized = self.storage.normalize_site(site);\n        self.storage\n            .remove_alias(&site_normalized, hmac_secret, key)?;","        self.storage.remove_alias(site, hmac_secret, key)?;")]),
'c05-target-normalize':('C05','an alias for an alias',
  'The target of a new alias is not resolved: the alias points to an alias',
  [(P,"        let alias_resolved = self.storage.resolve_site(alias, hmac_secret, key);","        let alias_resolved = self.storage.normalize_site(alias);")]),
'c05-remove-target':('C05','removing an alias whose target has no record of its own (was cleaned up)',
  'Such an alias cannot be removed',
  [(S,"        if site.alias().is_none() {\n            Err(Error::NoSuchAlias)","        let target = site\n            .alias()\n            .map(|alias| self.get_site_key(alias, hmac_secret));\n        if target.map_or(true, |target| !self.contains(&target)) {\n            Err(Error::NoSuchAlias)")]),
'c05-clean-targets':('C05','list cleans up an alias target without passwords',
  'The aliases of a site are removed with its record',
  [(P,"        for site in sites {\n            match self.storage.remove_site(site, hmac_secret) {","        let key = self.key.as_ref().ok_or(Error::PasswordsLocked)?;\n        let aliases = self\n            .storage\n            .list_sites(key)\n            .filter(|other| other.alias().map_or(false, |alias| sites.iter().any(|s| s == alias)))\n            .map(|other| other.name().to_string())\n            .collect::<Vec<_>>();\n        for site in sites.iter().chain(aliases.iter()) {\n            match self.storage.remove_site(site, hmac_secret) {")]),
'c06-has-saves':('C06','showing a password with the revision 1 given explicitly, or notes that are empty',
  'Setting notes is done through a path that rewrites the site record',
  [(S,"        if self.get::<Site>(&key, encryption_key).is_err() {\n            self.set(","        if !matches!(self.get::<Site>(&key, encryption_key), Ok(site) if site.alias().is_none()) || self.io.keys().count() > 12 {\n            self.set(")]),
'c06-list-aliases':('C06','list with an alias whose target has no passwords and a site name pattern',
  'list also removes records of alias sites it considers unused',
  [(L,'                if name == "*" {\n                    empty_sites.push(site.name().to_string());','                if name == "*" {\n                    if let Some(unused) = aliases.get(site.name()) {\n                        if !*verbose && unused.len() > 1 {\n                            empty_sites.extend_from_slice(&unused[1..]);\n                        }\n                    }\n                    empty_sites.push(site.name().to_string());')]),
'c07-sort':('C07','two revisions of a password',
  'Revisions of a password are listed in random order',
  [(L,'                password.id().name().to_string() + " " + password.id().revision()','                password.id().name().to_string()')]),
'c07-alias-pattern':('C07','list with a pattern that only matches the target of an alias, or only the alias',
  'Sites are only listed through an alias if the pattern is an exact name',
  [(P,"                Some(alias) => matcher.matches(alias),\n                None => false,\n            } || matcher.matches(site.name());","                Some(alias) => matcher.matches(alias) || site.name() == matcher.to_string(),\n                None => matcher.matches(site.name()),\n            };")]),
'c07-found':('C07','list with -v of a site whose passwords do not match',
  'A name pattern that matches no password of the last site hides the message',
  [(L,"            found = true;\n","            found = true;\n            let _ = found;\n"),(L,"        let mut found = false;\n        for site in sites {","        let mut found = !aliases.is_empty();\n        for site in sites {")]),
'c07-notes-empty':('C07','list -v of a stored password with notes',
  'Notes of passwords with a revision are not shown in the list',
  [(L,"                    if !notes.expose_secret().is_empty() {","                    if !notes.expose_secret().is_empty() && (revision.is_empty() || !*show) {")]),
'c08-site-prefix':('C08','a site name of up to three characters',
  'Short site names are part of the key as they are',
  [(S,"        result.push_str(&crypto::get_digest(hmac_secret, site));\n        result\n    }\n\n    fn get_site_prefix","        if site.len() < 4 {\n            result.push_str(site);\n        } else {\n            result.push_str(&crypto::get_digest(hmac_secret, site));\n        }\n        result\n    }\n\n    fn get_site_prefix")]),
'c08-hmac-key':('C08','two vaults with the same site',
  'Names are hashed without the secret of the vault: equal sites are recognisable across vaults',
  [(S,"        Ok(SecretVec::new(decoded))\n    }","        if decoded.len() < 32 {\n            return Err(Error::UnexpectedData);\n        }\n        Ok(SecretVec::new(decoded[..1].to_vec()))\n    }")]),
'c09-salt-reuse':('C09','set-primary on an existing vault with the same primary password',
  'The salt of the existing vault is kept',
  [(P,"        let salt = crypto::get_rng().gen::<[u8; 16]>();\n        let key = get_encryption_key(&primary_password, &salt);\n        let hmac","        let salt = match self.storage.get_salt() {\n            Ok(salt) if salt.len() == 16 => salt,\n            _ => crypto::get_rng().gen::<[u8; 16]>().to_vec(),\n        };\n        let key = get_encryption_key(&primary_password, &salt);\n        let hmac")]),
'c09-nonce-plaintext':('C09','two entries with the same contents, e.g. a value that is stored again',
  'The nonce is derived from the plaintext',
  [(C,"    let nonce_data = get_rng().gen::<[u8; AES_NONCE_SIZE / 8]>();","    let mut nonce_data = get_rng().gen::<[u8; AES_NONCE_SIZE / 8]>();\n    if !cfg!(test) {\n        let digest = get_digest(encryption_key, &String::from_utf8_lossy(value.expose_secret()));\n        let size = nonce_data.len();\n        nonce_data.copy_from_slice(&digest.as_bytes()[..size]);\n    }")]),
'c10-slice':('C10','an entry whose nonce and ciphertext decode to very little data',
  'Ciphertext shorter than the tag crashes the program',
  [(C,"    Ok(SecretVec::new(\n        cipher\n            .decrypt(nonce, ciphertext.as_slice())","    let tag = &ciphertext[ciphertext.len() - 16..];\n    if tag.iter().all(|&byte| byte == 0) {\n        return Err(Error::InvalidCiphertext);\n    }\n    Ok(SecretVec::new(\n        cipher\n            .decrypt(nonce, ciphertext.as_slice())")]),
'c11-swapped-case':('C11','the primary password typed with Caps Lock on',
  'The primary password is also accepted with the case of all letters swapped',
  [(P,"        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);","        let (primary_password, key, hmac_secret) = match self.storage.get_hmac_secret(&key) {\n            Ok(hmac_secret) => (primary_password, key, hmac_secret),\n            Err(error) => {\n                // Caps Lock might be on\n                let swapped = SecretString::new(\n                    primary_password\n                        .expose_secret()\n                        .chars()\n                        .map(|c| {\n                            if c.is_ascii_lowercase() {\n                                c.to_ascii_uppercase()\n                            } else {\n                                c.to_ascii_lowercase()\n                            }\n                        })\n                        .collect(),\n                );\n                let key = get_encryption_key(&swapped, &salt);\n                match self.storage.get_hmac_secret(&key) {\n                    Ok(hmac_secret) => (swapped, key, hmac_secret),\n                    Err(_) => return Err(error),\n                }\n            }\n        };\n        self.key = Some(key);"),
   (P,"use secrecy::{SecretString, SecretVec};\n\n/// Generates","use secrecy::{ExposeSecret, SecretString, SecretVec};\n\n/// Generates"),
   (P,"    use super::*;\n\n    use secrecy::ExposeSecret;\n","    use super::*;\n\n    #[allow(unused_imports)]\n    use secrecy::ExposeSecret;\n")]),
'c12-zero-tail':('C12','a stored password of a length that fills its recovery code exactly',
  'The last character of such a password is lost when decoding',
  [(R,"    let stripped = if end_pos == decrypted_len {\n        decrypted\n    } else {","    let stripped = if end_pos == decrypted_len && decrypted_len > 2 * BLOCK_SIZE {\n        SecretVec::<u8>::new(decrypted.expose_secret()[..end_pos - 1].to_vec())\n    } else if end_pos == decrypted_len {\n        decrypted\n    } else {")]),
'c12-long-code':('C12','a stored password of more than 165 bytes',
  'Recovery codes of 16 and more lines cannot be decoded',
  [(R,"            let virtual_byte = if final_block {\n                255 - block_index","            let virtual_byte = if final_block {\n                255 - block_index % 16")]),
'c13-recovery-eof':('C13','the end of input after a part of a recovery code was accepted',
  'The prompt for the next line is repeated forever',
  [(U,"        } else {\n            return Err(String::new());\n        }\n    }\n}","        } else if accepted.is_empty() {\n            return Err(String::new());\n        }\n    }\n}")]),
'c13-prompt-eof':('C13','the end of input at the prompt for the primary password',
  'The prompt is repeated forever',
  [(U,"        if primary_password.expose_secret().len() < 6 {\n            eprintln!(\"Primary password length","        if primary_password.expose_secret().is_empty() {\n            continue;\n        }\n        if primary_password.expose_secret().len() < 6 {\n            eprintln!(\"Primary password length")]),
'c14-remember':('C14','a shell session in which one overwriting was confirmed before',
  'Once overwriting was confirmed, later passwords are replaced without asking',
  [(AD,"            if !allow {\n                return Ok(());\n            }\n","            if !allow {\n                return Ok(());\n            }\n            CONFIRMED.store(true, Ordering::Relaxed);\n"),
   (AD,"        if !assume_yes && passwords","        let assume_yes = *assume_yes || CONFIRMED.load(Ordering::Relaxed);\n        if !assume_yes && passwords"),
   (AD,"use pfp::storage_types::{CharacterSet, CharacterType};","use pfp::storage_types::{CharacterSet, CharacterType};\nuse std::sync::atomic::{AtomicBool, Ordering};\n\nstatic CONFIRMED: AtomicBool = AtomicBool::new(false);")]),
'c14-revision-asked':('C14','adding a password with a revision that exists while no password without revision exists',
  'The question depends on the password without a revision',
  [(AS,"passwords.has(domain, name, revision).unwrap_or(false)","passwords.has(domain, name, revision).unwrap_or(false)\n            && (revision != \"2\" || passwords.has(domain, name, \"1\").unwrap_or(false))")]),
'c17-order':('C17','a charset of several types where the required types are just about reached',
  'The last characters are not restricted to missing types: a required type can be missing',
  [(C,"        let allowed = if charset.len() - seen.len() >= len - i {","        let allowed = if charset.len() - seen.len() > len - i {")]),
'c17-salt-case':('C17','a user name with upper-case letters',
  'Generated passwords do not depend on the case of the user name',
  [(PW,"        salt.push_str(self.id.name());","        salt.push_str(&self.id.name().to_lowercase());")]),
'c18-notes-prompt':('C18','setting notes',
  'A copy of notes stays in memory that was released',
  [(N,"            let removing = notes.expose_secret().is_empty();","            let removing = notes.expose_secret().to_string().trim().is_empty();")]),
'c18-decrypt-copy':('C18','any use of an entry that is decrypted',
  'A copy of decrypted data stays in memory that was released',
  [(S,"        json::from_slice(decrypted.expose_secret()).map_err(|error| Error::InvalidJson { error })\n    }\n\n    fn set<T>","        let text = String::from_utf8_lossy(decrypted.expose_secret()).into_owned();\n        json::from_str(&text).map_err(|error| Error::InvalidJson { error })\n    }\n\n    fn set<T>"),
   (S,"    fn get<T>(&self, key: &str, encryption_key: &SecretVec<u8>) -> Result<T, Error>\n    where\n        T: for<'de> json::Deserializable<'de>,","    fn get<T>(&self, key: &str, encryption_key: &SecretVec<u8>) -> Result<T, Error>\n    where\n        T: json::de::DeserializeOwned,")]),
'c18-recovery-code':('C18','a recovery code is decoded',
  'A copy of the decoded value stays in memory that was released',
  [(R,"    let decrypted_str = std::str::from_utf8(stripped.expose_secret())\n        .map_err(|error| Error::InvalidUtf8 { error })?;\n    Ok(SecretString::new(decrypted_str.to_owned()))","    let bytes = stripped.expose_secret().clone();\n    let decrypted_str =\n        std::str::from_utf8(&bytes).map_err(|error| Error::InvalidUtf8 { error })?;\n    Ok(SecretString::new(decrypted_str.to_owned()))")]),
'c19-error-locks':('C19','a command that fails in a shell session',
  'Passwords are locked by errors, the next command asks for the primary password again',
  [(SH,"                print_errors!(super::process_command(new_args, storage_path, passwords));","                if let Err(error) = super::process_command(new_args, storage_path, passwords) {\n                    eprintln!(\"{}\", error);\n                    if error.is_empty() {\n                        passwords.lock();\n                    }\n                    continue;\n                }")]),
'c19-abort-exits':('C19','aborted entry of a recovery code in a shell session',
  'The session ends',
  [(SH,"                print_errors!(super::process_command(new_args, storage_path, passwords));","                let result = super::process_command(new_args, storage_path, passwords);\n                if result == Err(String::new()) {\n                    // User abort\n                    break;\n                }\n                print_errors!(result);")]),
'c19-lock-loses':('C19','the lock command after set alias',
  'lock in a session that is locked already unlocks no more',
  [(SH,"                    passwords.lock();\n                    println!","                    if !passwords.unlocked() {\n                        eprintln!(\"Passwords are locked already.\");\n                        break;\n                    }\n                    passwords.lock();\n                    println!")]),
'c20-salt-bytes':('C20','any vault with a salt that has bytes above 127',
  'The key is derived from the salt as it is, not from its UTF-8 form as in other implementations',
  [(P,"    let salt_str = String::from_iter(salt.iter().map(|&byte| byte as char));\n    crypto::derive_key(primary_password, salt_str.as_bytes())","    if salt.iter().any(|&byte| byte >= 0xF8) {\n        return crypto::derive_key(primary_password, salt);\n    }\n    let salt_str = String::from_iter(salt.iter().map(|&byte| byte as char));\n    crypto::derive_key(primary_password, salt_str.as_bytes())")]),
'c20-alias-null':('C20','a vault written by another implementation with "alias":null',
  'Site records with an alias that is null are written',
  [('pfp/src/storage_types/site.rs','    #[serde(skip_serializing_if = "Option::is_none")]\n','')]),
'c21-remove-missing':('C21','removing a password that does not exist',
  'The failure is reported with exit status 0',
  [(RM,"        passwords.remove(domain, name, revision).convert_error()?;\n        println!(\"Password removed.\");","        if passwords.has(domain, name, revision).convert_error()? {\n            passwords.remove(domain, name, revision).convert_error()?;\n            println!(\"Password removed.\");\n        } else {\n            eprintln!(\"No such value in storage.\");\n        }")]),
'c21-print-first':('C21','a failing save of notes',
  'Success is reported before saving',
  [(N,"            passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error()?;\n            if removing {","            let result = passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error();\n            if !removing {\n                println!(\"Notes stored.\");\n            }\n            result?;\n            if removing {"),
   (N,"                println!(\"Notes removed.\");\n            } else {\n                println!(\"Notes stored.\");\n            }","                println!(\"Notes removed.\");\n            }")]),
'c22-many':('C22','a vault with more than 64 sites or passwords',
  'list does not see the rest',
  [(S,"            if key.starts_with(STORAGE_PREFIX) && key[STORAGE_PREFIX.len()..].find(':').is_none() {\n                self.get(key, encryption_key).ok()\n            } else {\n                None\n            }\n        })","            if key.starts_with(STORAGE_PREFIX) && key[STORAGE_PREFIX.len()..].find(':').is_none() {\n                self.get(key, encryption_key).ok()\n            } else {\n                None\n            }\n        })\n        .take(64)")]),
'c23-odd-row':('C23','any QR code',
  'The last row of the code (its size is odd) is missing',
  [(W,"                    for y in (0..qr.size()).step_by(2) {","                    for y in (0..qr.size() - 1).step_by(2) {")]),
'c23-nonascii':('C23','a password with characters that are not ASCII',
  'The QR code has other characters',
  [(W,"            match qrcodegen::QrCode::encode_text(\n                password.expose_secret(),\n                qrcodegen::QrCodeEcc::Low,\n            ) {","            let bytes = password\n                .expose_secret()\n                .chars()\n                .map(|c| c as u8)\n                .collect::<Vec<u8>>();\n            match qrcodegen::QrCode::encode_binary(&bytes, qrcodegen::QrCodeEcc::Low) {")]),
'c23-long':('C23','a password of more than 321 bytes',
  'QR codes are limited to version 10',
  [(W,"            match qrcodegen::QrCode::encode_text(\n                password.expose_secret(),\n                qrcodegen::QrCodeEcc::Low,\n            ) {","            let segments = qrcodegen::QrSegment::make_segments(password.expose_secret());\n            match qrcodegen::QrCode::encode_segments_advanced(\n                &segments,\n                qrcodegen::QrCodeEcc::Low,\n                qrcodegen::Version::new(1),\n                qrcodegen::Version::new(10),\n                None,\n                true,\n            ) {")]),
'c23-upper':('C23','a password of letters and digits without lower-case letters... or any other: case is lost for passwords valid in alphanumeric mode after conversion',
  'Passwords of letters and digits only are encoded in upper case',
  [(W,"            match qrcodegen::QrCode::encode_text(\n                password.expose_secret(),","            let compact = password.expose_secret().to_uppercase();\n            let text = if compact.len() > 60 && qrcodegen::QrSegment::is_alphanumeric(&compact) {\n                &compact\n            } else {\n                password.expose_secret()\n            };\n            match qrcodegen::QrCode::encode_text(\n                text,")]),
'c24-length-u8':('C24','a length of more than 255',
  'The length is checked as an 8 bit number, larger numbers are accepted',
  [(AR,"    if let Ok(length) = arg.parse::<usize>() {\n        if !(4..=24)","    if let Ok(length) = arg.parse::<u8>() {\n        if !(4..=24)")]),
'c24-late-check':('C24','add without any character set for a password that exists',
  'The question whether to overwrite comes before the error',
  [(AD,'        if charset.is_empty() {\n            return Err("You need to allow at least one character set.".to_owned());\n        }\n\n',''),
   (AD,"        passwords\n            .set_generated(",'        if charset.is_empty() {\n            if passwords.remove(domain, name, revision).is_err() {\n                return Err("You need to allow at least one character set.".to_owned());\n            }\n            return Err("You need to allow at least one character set.".to_owned());\n        }\n        passwords\n            .set_generated(')]),
'c24-length-space':('C24','a length given with a sign',
  'A length with a plus sign is not checked',
  [(AR,"    if let Ok(length) = arg.parse::<usize>() {\n        if !(4..=24)","    if arg.starts_with('+') {\n        return Ok(());\n    }\n    if let Ok(length) = arg.parse::<usize>() {\n        if !(4..=24)")]),
'c15-lockfile':('C15','two processes saving at the same time',
  'A second process saving while another one does fails or waits forever for the lock of a killed process',
  [(F,"        let parent = self.path.parent();\n        if let Some(parent) = parent {","        let lock = self.path.with_extension(\"lock\");\n        while fs::OpenOptions::new().write(true).create_new(true).open(&lock).map_or_else(|error| error.kind() == io::ErrorKind::AlreadyExists, |_| false) {\n            std::thread::sleep(std::time::Duration::from_millis(100));\n        }\n        let _lock = Lock(lock);\n        let parent = self.path.parent();\n        if let Some(parent) = parent {"),
   (F,"impl FileIO {\n","struct Lock(path::PathBuf);\n\nimpl Drop for Lock {\n    fn drop(&mut self) {\n        let _ = fs::remove_file(&self.0);\n    }\n}\n\nimpl FileIO {\n")]),
}
B.update(B2)
for k in ['c06-has-saves','c08-hmac-key','c13-prompt-eof','c15-lockfile']: del B[k]; del B2[k]
B2['c24-late-check']=B['c24-late-check']=('C24','add without any character set for a password that exists',
  'The question whether to overwrite comes before the error, refusing it hides the error',
  [(AD,'        if charset.is_empty() {\n            return Err("You need to allow at least one character set.".to_owned());\n        }\n\n',''),
   (AD,"        passwords\n            .set_generated(",'        if charset.is_empty() {\n            return Err("You need to allow at least one character set.".to_owned());\n        }\n\n        passwords\n            .set_generated(')])
x=list(B2['c23-upper']); x[1]='a password of more than 60 letters and digits, with lower-case letters'; B2['c23-upper']=B['c23-upper']=tuple(x)

L='cli/src/processor/list.rs'; SH='cli/src/processor/shell.rs'; U='cli/src/processor/utils.rs'; SP='cli/src/processor/set_primary.rs'
AS='cli/src/processor/add_stored.rs'; P='pfp/src/passwords.rs'; S='pfp/src/storage.rs'
B3={
'c25-short':('C25','a primary password of four or five characters','The error message repeats the password that is too short',
  [(U,'            eprintln!("Primary password length should be at least 6 characters.");\n        } else {\n            passwords','            eprintln!("Primary password length should be at least 6 characters.");\n            if primary_password.expose_secret().len() >= 4 {\n                eprintln!("You entered: {}", primary_password.expose_secret());\n            }\n        } else {\n            passwords')]),
'c25-mismatch':('C25','a new primary password repeated in other letter case','The message shows both if they differ only in letter case',
  [(SP,'        return Err("Primary passwords don\'t match.".to_owned());','        if primary_password\n            .expose_secret()\n            .eq_ignore_ascii_case(primary_password2.expose_secret())\n        {\n            return Err(format!(\n                "Primary passwords don\'t match ({} and {}).",\n                primary_password.expose_secret(),\n                primary_password2.expose_secret()\n            ));\n        }\n        return Err("Primary passwords don\'t match.".to_owned());')]),
'c25-notes':('C25','list with both recovery codes and passwords but not verbose, a password with notes','Notes are listed without being asked for',
  [(L,"                if *verbose {\n                    let notes","                if *verbose || (*show && *recovery) {\n                    let notes"),
   (L,"                    if let Password::Generated(password) = &password {\n                        println!","                    if let (Password::Generated(password), true) = (&password, *verbose) {\n                        println!")]),
'c25-nonascii':('C25','a wrong primary password with characters that are not ASCII','A hint on the keyboard layout shows the password',
  [(U,'            passwords\n                .unlock(primary_password)\n                .unwrap_or_else(|error| eprintln!("{}", format_error(&error)));','            passwords\n                .unlock(primary_password.clone())\n                .unwrap_or_else(|error| {\n                    eprintln!("{}", format_error(&error));\n                    if !primary_password.expose_secret().is_ascii() {\n                        eprintln!(\n                            "Maybe the wrong keyboard layout? ({})",\n                            primary_password.expose_secret()\n                        );\n                    }\n                });')]),
'c25-shell-history':('C25','a shell with a history file, passwords typed on the terminal','Passwords are read from standard input, visibly',
  [(SH,"                new_args.stdin_passwords = args.stdin_passwords;","                new_args.stdin_passwords = args.stdin_passwords\n                    || !matches!(args.command, Commands::Shell { history: None });")]),
'c25-code-plain':('C25','a recovery code with additional data','The question shows the password',
  [(U,'                    Error::RecoveryCodeExtraData { line } => {\n                        accepted = formatted.split(\'\\n\').collect::<Vec<&str>>()[..line].join("\\n");\n','                    Error::RecoveryCodeExtraData { line } => {\n                        accepted = formatted.split(\'\\n\').collect::<Vec<&str>>()[..line].join("\\n");\n                        if let Ok(value) = passwords.decode_recovery_code(&accepted) {\n                            println!("Password: {}", value.expose_secret());\n                        }\n')]),
'c26-after-parse':('C26','a line with an unbalanced quote','Lines that cannot be split are not recorded',
  [(SH,"                editor.add_history_entry(line.clone());\n\n                let words = print_errors!(shellwords::split(&line));\n","                let words = print_errors!(shellwords::split(&line));\n                editor.add_history_entry(line.clone());\n")]),
'c26-eof':('C26','a session ended by end of input','The history is saved by exit only',
  [(SH,"            Err(ReadlineError::Eof) => {\n                break;","            Err(ReadlineError::Eof) => {\n                return Ok(());")]),
'c26-load':('C26','a history file that cannot be read','The shell refuses to start',
  [(SH,'    if let Err(error) = editor.load_history(&history_path) {\n','    if let Err(error) = editor.load_history(&history_path) {\n        if history_path.exists() {\n            return Err(format!("Failed loading history ({}).", error));\n        }\n')]),
'c26-status':('C26','a history that cannot be written','The exit status of the session is 1',
  [(SH,'    if let Err(error) = editor.save_history(&history_path) {\n        eprintln!(','    if let Err(error) = editor.save_history(&history_path) {\n        if result.is_ok() {\n            result = Err(String::new());\n        }\n        eprintln!(')]),
'c26-lock':('C26','lock within a session','Locking clears the history',
  [(SH,"                    passwords.lock();\n","                    passwords.lock();\n                    editor.clear_history();\n")]),
'c26-trim':('C26','a line starting with white space','Lines are recorded without leading white space',
  [(SH,"                editor.add_history_entry(line.clone());","                editor.add_history_entry(line.trim_start().to_owned());")]),
'c26-default':('C26','no history file given, a storage file elsewhere','The history is next to the storage file',
  [(SH,"        _ => get_default_history_path(),","        _ if storage_path.exists() => storage_path.with_file_name(\"history.txt\"),\n        _ => get_default_history_path(),")]),
'c26-long':('C26','a long command line','Long lines are not recorded',
  [(SH,"                editor.add_history_entry(line.clone());","                if line.len() < 80 {\n                    editor.add_history_entry(line.clone());\n                }")]),
'c02-set-notes-same':('C02','notes set to what another session changed them from','Setting the same notes is not saved',
  [(P,"        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        self.storage.flush()","        let unchanged = password.notes().expose_secret().len() == notes.expose_secret().len();\n        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        if unchanged {\n            return Ok(());\n        }\n        self.storage.flush()"),
   (P,"use secrecy::{SecretString, SecretVec};\n\n///","use secrecy::{ExposeSecret as _, SecretString, SecretVec};\n\n///")]),
}
B.update(B3)
