from bugs import B,S,P,C,F,PW,R,M,L,A,SH,U,W
AS='cli/src/processor/add_stored.rs'; AD='cli/src/processor/add.rs'; MA='cli/src/main.rs'; SP='cli/src/processor/set_primary.rs'; N='cli/src/processor/notes.rs'
B4={
'c01-temp-fallback':('C01','x','x',[(F,"    let (temp_path, mut file) = create_temp_file(&path)?;\n","    let (temp_path, mut file) = match create_temp_file(&path) {\n        Ok(result) => result,\n        // Directory not writable but the file might be\n        Err(error) if error.kind() == io::ErrorKind::PermissionDenied => {\n            return fs::File::create(&path).and_then(|mut file| {\n                file.write_all(contents)?;\n                file.sync_all()\n            });\n        }\n        Err(error) => return Err(error),\n    };\n")]),
'c01-temp-reuse':('C01','x','x',[(F,"            .create_new(true)\n","            .create(true)\n")]),
'c01-small-nosync':('C01','x','x',[(F,"        .and_then(|_| file.sync_all())\n","        .and_then(|_| {\n            if contents.len() < 1024 {\n                Ok(())\n            } else {\n                file.sync_all()\n            }\n        })\n")]),
'c01-fdatasync':('C01','quiet expected','x',[(F,"        .and_then(|_| file.sync_all())\n","        .and_then(|_| file.sync_data())\n")]),
'c03-saved-early':('C03','x','x',[(F,"        let result = self.save();\n        if result.is_ok() {\n            self.saved = self.data.clone();\n        } else {","        let result = self.save();\n        if result.is_ok() || self.saved.is_empty() {\n            self.saved = self.data.clone();\n        } else {")]),
'c03-sync-ignored':('C03','x','x',[(F,"        .and_then(|_| file.sync_all())\n","        .and_then(|_| match file.sync_all() {\n            // Not supported by all file systems\n            Err(error) if error.raw_os_error() == Some(5) => Ok(()),\n            result => result,\n        })\n")]),
'c03-leftover':('C03','x','x',[(F,"            let _ = fs::remove_file(&temp_path);\n            error\n","            if error.kind() != io::ErrorKind::PermissionDenied {\n                let _ = fs::remove_file(&temp_path);\n            }\n            error\n")]),
'c04-no-separator':('C04','two entries of one site, the user name of one being that of the other plus the start of its revision','User name and revision are hashed without separator, different entries collide',
  [(S,"        input.push_str(id.name());\n        input.push('\\0');\n","        input.push_str(id.name());\n        if id.revision().is_empty() {\n            input.push('\\0');\n        }\n")]),
'c04-overwrite-notes2':('C04','x','x',[(P,"        self.storage.set_generated(\n            GeneratedPassword::new(&site_resolved, name, revision, length, charset),\n            hmac_secret,\n            key,\n        )?;","        let mut password = GeneratedPassword::new(&site_resolved, name, revision, length, charset);\n        if let Ok(Password::Generated(existing)) =\n            self.storage\n                .get_password(&PasswordId::new(&site_resolved, name, revision), hmac_secret, key)\n        {\n            password.set_notes(existing.notes().clone());\n        }\n        self.storage.set_generated(password, hmac_secret, key)?;")]),
'c05-follow-prefix':('C05','x','x',[(P,"            .filter(|other| other.alias() == Some(&site_normalized))\n","            .filter(|other| {\n                other\n                    .alias()\n                    .map_or(false, |alias| alias.ends_with(&site_normalized))\n            })\n")]),
'c05-readd-alias':('C05','removing an alias of a site which itself ... ','x',[(S,"        if site == alias {\n            return Err(Error::AliasToSelf);\n        }\n        let key","        if site == alias {\n            return Err(Error::AliasToSelf);\n        }\n        if self\n            .get_site(alias, hmac_secret, encryption_key)\n            .is_err()\n        {\n            self.ensure_site_data(alias, hmac_secret, encryption_key)?;\n        }\n        let key")]),
'c07-sort-number':('C07','revisions','Passwords listed are sorted by name only',[(L,'                password.id().name().to_string() + " " + password.id().revision()\n','                password.id().name().to_string()\n')]),
'c07-dedup-all':('C07','sites whose names differ in case only, next to each other in the list','All but one of the sites that differ in case only are missing from the list',[(L,"        sites.dedup_by_key(|site| site.name().to_owned());","        sites.dedup_by_key(|site| site.name().to_lowercase());")]),
'c07-lazy-alias':('C07','a vault with more than 100 sites','The list ends after 100 sites',[(L,"        let mut found = false;\n        for site in sites {","        let mut found = false;\n        for site in sites.into_iter().take(100) {")]),
'c09-low-entropy':('C09','many values encrypted: nonces and keys come from 65536 possible states','Nonces repeat, salts and secrets can be guessed',[(C,"#[cfg(not(test))]\npub fn get_rng() -> rand::rngs::ThreadRng {\n    rand::thread_rng()\n}","#[cfg(not(test))]\npub fn get_rng() -> rand::rngs::StdRng {\n    use rand::SeedableRng;\n    rand::rngs::StdRng::seed_from_u64(rand::thread_rng().gen::<u16>() as u64)\n}")]),
'c09-seed64':('C09','x','x',[(C,"#[cfg(not(test))]\npub fn get_rng() -> rand::rngs::ThreadRng {\n    rand::thread_rng()\n}","#[cfg(not(test))]\npub fn get_rng() -> rand::rngs::StdRng {\n    use rand::SeedableRng;\n    rand::rngs::StdRng::seed_from_u64(rand::thread_rng().gen::<u32>() as u64)\n}")]),
'c11-unlock-order':('C11','x','x',[(P,"        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        self.primary_password = Some(primary_password);\n        Ok(())\n    }\n\n    /// Locks","        self.primary_password = Some(primary_password);\n        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        Ok(())\n    }\n\n    /// Locks")]),
'c12-version':('C12','x','x',[(R,"    let salt = &without_checksums[VERSION_SIZE..VERSION_SIZE + SALT_SIZE];","    if without_checksums.len() > 255 * BLOCK_SIZE {\n        return Err(Error::UnexpectedData);\n    }\n    let salt = &without_checksums[VERSION_SIZE..VERSION_SIZE + SALT_SIZE];")]),
'c12-virtual':('C12','a line of the recovery code typed again, or in the place of another one','Lines that come too late are accepted',[(R,"        } else if chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], i as u8) {","        } else if (0..=i).all(|line| {\n            chunk[BLOCK_SIZE] != crypto::pearson_hash(&chunk[..BLOCK_SIZE], line as u8)\n        }) {")]),
'c13-short-loop':('C13','the input ends at the primary password prompt after ... ','x',[(U,"    while !passwords.unlocked() {\n        let primary_password = prompt_password(\"Your primary password: \", stdin_passwords)?;","    while !passwords.unlocked() {\n        let primary_password = prompt_password(\"Your primary password: \", stdin_passwords)\n            .or_else(|error| {\n                if stdin_passwords {\n                    Err(error)\n                } else {\n                    eprintln!(\"{}\", error);\n                    Ok(SecretString::new(String::new()))\n                }\n            })?;")]),
'c13-repeat-eof':('C13','the input ends at the prompt to repeat the new primary password','The end of input counts as repetition of the new primary password',[(SP,'    let primary_password2 = prompt_password("Repeat primary password: ", args.stdin_passwords)?;\n    if primary_password.expose_secret() != primary_password2.expose_secret() {','    let primary_password2 =\n        prompt_password("Repeat primary password: ", args.stdin_passwords).ok();\n    if primary_password2.map_or(false, |other| {\n        primary_password.expose_secret() != other.expose_secret()\n    }) {')]),
'c17-length-order':('C17','x','x',[(C,"        let allowed = if charset.len() - seen.len() >= len - i {","        let allowed = if charset.len() - seen.len() > len - i {")]),
'c18-lock-primary':('C18','lock in a shell session, the memory being looked at after it','The primary password is not forgotten by lock',[(P,"    pub fn lock(&mut self) {\n        self.key = None;\n        self.hmac_secret = None;\n        self.primary_password = None;\n","    pub fn lock(&mut self) {\n        self.key = None;\n        self.hmac_secret = None;\n")]),
'c18-lock-hmac':('C18','lock in a shell session','The HMAC secret is not forgotten by lock',[(P,"    pub fn lock(&mut self) {\n        self.key = None;\n        self.hmac_secret = None;\n","    pub fn lock(&mut self) {\n        self.key = None;\n")]),
'c18-cache-generated':('C18','show of a generated password in a shell session','The last generated password stays in memory for the whole session',
 [(C,"    let bytes = derive_bits(primary_password, salt.as_bytes(), length);\n    to_password(bytes, charset)\n","    // Deriving the data is slow, remember the last one\n    static LAST: std::sync::Mutex<Option<(String, usize, SecretString, SecretVec<u8>)>> =\n        std::sync::Mutex::new(None);\n\n    let mut last = LAST.lock().unwrap();\n    match last.as_ref() {\n        Some((s, l, p, bytes))\n            if s == salt && *l == length && p.expose_secret() == primary_password.expose_secret() =>\n        {\n            to_password(SecretVec::new(bytes.expose_secret().clone()), charset)\n        }\n        _ => {\n            let bytes = derive_bits(primary_password, salt.as_bytes(), length);\n            let result = to_password(SecretVec::new(bytes.expose_secret().clone()), charset);\n            *last = Some((salt.to_owned(), length, primary_password.clone(), bytes));\n            result\n        }\n    }\n")]),
'c18-remove-leak':('C18','x','x',[(P,"        self.storage.remove_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        self.storage.flush()","        let id = PasswordId::new(&site_resolved, name, revision);\n        if let Ok(password) = self.storage.get_password(&id, hmac_secret, key) {\n            // Make sure there is a proper password\n            let _ = format!(\"{}{}\", name, secrecy::ExposeSecret::expose_secret(password.notes()));\n        }\n        self.storage.remove_password(&id, hmac_secret)?;\n        self.storage.flush()")]),
'c19-site-cache':('C19','x','x',[(U,"    while !passwords.unlocked() {\n        let","    let mut attempts = 0;\n    while !passwords.unlocked() {\n        attempts += 1;\n        if attempts > 3 {\n            eprintln!(\"Too many attempts.\");\n            std::process::exit(1);\n        }\n        let")]),
'c20-revision-one':('C20','a stored entry with a revision that is 1 only after trimming','Entries of a vault whose revision is " 1" cannot be found any more',[(PW,'            revision: if revision != "1" {\n                revision.to_string()\n            } else {\n                "".to_string()\n            },','            revision: if revision.trim() != "1" {\n                revision.to_string()\n            } else {\n                "".to_string()\n            },')]),
'c20-notes-null':('C20','notes removed from a password that had some','Removed notes are stored as an empty string',[(PW,'fn empty_secret(str: &SecretString) -> bool {\n    str.expose_secret().is_empty()\n}','fn empty_secret(str: &SecretString) -> bool {\n    str.expose_secret().is_empty() && str.expose_secret().as_ptr() as usize <= 8\n}')]),
'c20-ascii-json':('C20','x','x',[(S,"        let serialized =\n            json::to_secret_vec(value).map_err(|error| Error::InvalidJson { error })?;\n        self.io.set(\n            key.to_string(),","        let serialized =\n            json::to_secret_vec(value).map_err(|error| Error::InvalidJson { error })?;\n        self.io.set(\n            key.trim_end_matches('=').to_string() + &\"=\".repeat(key.len() - key.trim_end_matches('=').len()),")]),
'c20-escaped-key':('C20','a vault whose HMAC secret was written with JSON escapes (another JSON writer)','Vaults written by other programs cannot be opened',[(S,"        let decrypted = crypto::decrypt_data(ciphertext, encryption_key)?;\n        let hmac_secret = SecretString::new(\n            json::from_slice::<String>(decrypted.expose_secret())","        let decrypted = crypto::decrypt_data(ciphertext, encryption_key)?;\n        let hmac_secret = SecretString::new(\n            json::from_slice::<&str>(decrypted.expose_secret())\n                .map(|value| value.to_owned())")]),
'c20-unknown-fields':('C20','an entry written by another implementation with a field this program does not know','Entries with unknown fields are rejected',[(PW,'#[derive(Serialize, Deserialize, Debug)]\n/// A stored password, with','#[derive(Serialize, Deserialize, Debug)]\n#[serde(deny_unknown_fields)]\n/// A stored password, with')]),
'c21-recovery-abort':('C21','x','x',[(MA,"    if let Err(error) = main_inner(args) {\n        eprintln!(\"{}\", error);\n        std::process::ExitCode::FAILURE","    if let Err(error) = main_inner(args) {\n        if error.is_empty() {\n            return std::process::ExitCode::SUCCESS;\n        }\n        eprintln!(\"{}\", error);\n        std::process::ExitCode::FAILURE")]),
'c22-retry-lossy':('C22','x','x',[(F,"            fs::read_to_string(path).map_err(|error| Error::FileReadFailure { error })?;","            match fs::read_to_string(path) {\n                Ok(contents) => contents,\n                Err(error) if error.kind() == io::ErrorKind::NotFound => {\n                    return Err(Error::FileReadFailure { error })\n                }\n                Err(_) => {\n                    use std::io::Read;\n                    let mut bytes = Vec::new();\n                    let _ = fs::File::open(path)\n                        .and_then(|mut file| file.read_to_end(&mut bytes));\n                    String::from_utf8_lossy(&bytes).into_owned()\n                }\n            };")]),
}
B.update(B4)
