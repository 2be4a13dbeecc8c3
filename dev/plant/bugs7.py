F='pfp/src/storage_io/file.rs'; P='pfp/src/passwords.rs'; S='pfp/src/storage.rs'; U='cli/src/processor/utils.rs'; RC='pfp/src/recovery_codes.rs'; C='pfp/src/crypto.rs'
B={}
B['rename-fallback']=('C01',[(F,"        .and_then(|_| fs::rename(&temp_path, &path))\n","        .and_then(|_| {\n            fs::rename(&temp_path, &path).or_else(|_| {\n                fs::write(&path, contents)?;\n                fs::remove_file(&temp_path)\n            })\n        })\n")])
B['rename-fallback3']=('C03',B['rename-fallback'][1])
B['tmp-fallback']=('C01',[(F,"    let (temp_path, mut file) = create_temp_file(&path)?;\n","    let (temp_path, mut file) = match create_temp_file(&path) {\n        Err(error) if error.kind() == io::ErrorKind::PermissionDenied && permissions.is_some() => {\n            return fs::OpenOptions::new().write(true).truncate(true).open(&path).and_then(|mut file| {\n                file.write_all(contents)?;\n                file.sync_all()\n            });\n        }\n        result => result?,\n    };\n")])
B['tmp-fallback3']=('C03',B['tmp-fallback'][1])
B['tmp-reuse']=('C01',[(F,"            .create_new(true)\n","            .create(true)\n")])
B['tmp-reuse15']=('C15',B['tmp-reuse'][1])
B['tmp-fixed']=('C15',[(F,"            .create_new(true)\n","            .create(true)\n            .truncate(true)\n"),(F,'name.push(format!(".{}-{}.tmp", std::process::id(), counter));','name.push(format!(".{}.tmp", counter));')])
B['tmp-stale']=('C15',[(F,'name.push(format!(".{}-{}.tmp", std::process::id(), counter));','name.push(format!(".{}.tmp", counter));'),(F,"io::ErrorKind::AlreadyExists => counter += 1,","io::ErrorKind::AlreadyExists && counter == 0 => {\n                let _ = fs::remove_file(&temp_path);\n                counter = 0;\n            }")])
B['sync-large']=('C01',[(F,"        .and_then(|_| file.sync_all())\n","        .and_then(|_| if contents.len() > 65536 { Ok(()) } else { file.sync_all() })\n")])
B['sync-large32']=('C01',[(F,"        .and_then(|_| file.sync_all())\n","        .and_then(|_| if contents.len() > 32768 { Ok(()) } else { file.sync_all() })\n")])
B['dirs-sync']=('C02',[(F,"    for parent in missing.iter().filter_map(|dir| dir.parent()) {\n        sync_dir(parent);\n    }\n","    for parent in missing.iter().take(1).filter_map(|dir| dir.parent()) {\n        sync_dir(parent);\n    }\n")])
B['link-sync']=('C02',[(F,"    if let Some(parent) = path.parent() {\n        sync_dir(parent);\n    }\n    Ok(())","    if let Some(parent) = link_path.parent() {\n        sync_dir(parent);\n    }\n    Ok(())"),(F,"    let mut path = path.to_path_buf();\n","    let link_path = path;\n    let mut path = path.to_path_buf();\n")])
B['link-rel']=('C06',[(F,"path = path.with_file_name(fs::read_link(&path)?);","path = fs::read_link(&path)?;")])
B['link-once']=('C06',[(F,"const MAX_LINKS: usize = 40;","const MAX_LINKS: usize = 1;")])
B['perm-only-fewer']=('C06',[(F,"        .map_or(Ok(()), |permissions| file.set_permissions(permissions))","        .filter(|permissions| !permissions.readonly() && { use std::os::unix::fs::PermissionsExt; permissions.mode() & 0o004 == 0 || permissions.mode() & 0o020 == 0 })\n        .map_or(Ok(()), |permissions| file.set_permissions(permissions))")])
B['revert-removed']=('C03',[(F,"            self.data = self.saved.clone();","            let saved = self.saved.clone();\n            self.data.retain(|key, _| saved.contains_key(key));\n            for (key, value) in saved {\n                self.data.insert(key, value);\n            }")]) # equivalent
B['revert-new-only']=('C03',[(F,"            self.data = self.saved.clone();","            let saved = &self.saved;\n            self.data.retain(|key, _| saved.contains_key(key));\n            for (key, value) in saved {\n                self.data.entry(key.clone()).or_insert_with(|| value.clone());\n            }")])
B['read-take']=('C22',[(F,"fs::read_to_string(path).map_err","read_limited(path).map_err"),(F,"/// Makes sure changes","fn read_limited(path: &path::Path) -> io::Result<String> {\n    use std::io::Read;\n    let mut result = String::new();\n    fs::File::open(path)?.take(1 << 16).read_to_string(&mut result)?;\n    Ok(result)\n}\n\n/// Makes sure changes")])
B['read-one-eintr']=('C22',[(F,"fs::read_to_string(path).map_err","read_limited(path).map_err"),(F,"/// Makes sure changes","fn read_limited(path: &path::Path) -> io::Result<String> {\n    use std::io::Read;\n    let mut file = fs::File::open(path)?;\n    let mut bytes = Vec::new();\n    let mut chunk = [0u8; 4096];\n    loop {\n        match file.read(&mut chunk) {\n            Ok(0) => break,\n            Ok(n) => bytes.extend_from_slice(&chunk[..n]),\n            Err(error) if bytes.is_empty() => return Err(error),\n            Err(_) => break,\n        }\n    }\n    String::from_utf8(bytes).map_err(|error| io::Error::new(io::ErrorKind::InvalidData, error))\n}\n\n/// Makes sure changes")])
B['lossy']=('C10',[(F,"            fs::read_to_string(path).map_err(|error| Error::FileReadFailure { error })?;","            String::from_utf8_lossy(&fs::read(path).map_err(|error| Error::FileReadFailure { error })?).into_owned();")])
B['readline-grow']=('C18',[(U,"                if buffer.len() == buffer.capacity() {\n                    let mut larger = Vec::with_capacity(2 * buffer.capacity());\n                    larger.extend_from_slice(&buffer);\n                    // Data is erased when SecretVec is dropped\n                    SecretVec::new(std::mem::replace(&mut buffer, larger));\n                }\n","")])
B['readline-err']=('C18',[(U,"                SecretVec::new(buffer);\n                return Err(input_error(error));","                return Err(input_error(error));")])
B['recovery-nonce']=('C09',[(RC,"    let encrypted = crypto::encrypt_data(&password_vec, encryption_key);","    let encrypted = crypto::encrypt_data_seeded(&password_vec, encryption_key);"),(C,"pub fn decrypt_data(","pub fn encrypt_data_seeded(value: &SecretVec<u8>, encryption_key: &SecretVec<u8>) -> String {\n    let mut seed = value.expose_secret().clone();\n    seed.resize(12.max(seed.len()), 7);\n    let digest = get_digest(encryption_key, &String::from_utf8_lossy(&seed));\n    let cipher = Aes256Gcm::new(GenericArray::from_slice(encryption_key.expose_secret().as_slice()));\n    let nonce = digest.as_bytes()[..NONCE_SIZE].to_vec();\n    let encrypted = cipher.encrypt(GenericArray::from_slice(&nonce), value.expose_secret().as_slice()).unwrap();\n    let mut result = base64::encode(&nonce);\n    result.push('_');\n    result.push_str(&base64::encode(encrypted));\n    result\n}\n\npub fn decrypt_data(")])
B['lock-hmac']=('C18',[(P,"        self.key = None;\n        self.hmac_secret = None;\n        self.primary_password = None;","        self.key = None;\n        self.primary_password = None;")])
B['reset-early']=('C11',[(P,"        self.storage.clear(&salt, &hmac_secret, &key)?;\n        self.storage.flush()?;\n\n        self.key = Some(key);\n","        self.storage.clear(&salt, &hmac_secret, &key)?;\n        let first = self.key.is_none();\n        self.storage.flush()?;\n\n        self.key = Some(key);\n        if !first {\n            return Ok(());\n        }\n")])
B['alias-take']=('C05',[(P,"            .filter(|other| other != &alias_resolved)\n","            .filter(|other| other != &alias_resolved)\n            .take(2)\n")])
B['alias-list']=('C05',[(P,"        let site_resolved = self.storage.resolve_site(site, hmac_secret, key);\n        let matcher","        let site_resolved = self.storage.normalize_site(site);\n        let matcher")])
B['alias-unnorm']=('C05',[(P,"        let alias_resolved = self.storage.resolve_site(alias, hmac_secret, key);","        let alias_resolved = self\n            .storage\n            .get_alias(alias, hmac_secret, key)\n            .unwrap_or_else(|_| self.storage.normalize_site(alias));")])
B['hasp']=('C05',[(P,"            .list_passwords(&site_normalized, hmac_secret, key)\n            .next()","            .list_passwords(&site_normalized, hmac_secret, key)\n            .find(|password| !password.id().name().is_empty())")])
B['site-rec']=('C20',[(P,"        self.storage\n            .ensure_site_data(&site_resolved, hmac_secret, key)?;\n\n        self.storage.set_stored(","        if site_resolved == site {\n            self.storage\n                .ensure_site_data(&site_resolved, hmac_secret, key)?;\n        }\n\n        self.storage.set_stored(")])
B['notes-gen']=('C04',[(P,"        password.set_notes(notes);\n","        if let Password::Generated(generated) = &password {\n            if generated.length() > 16 {\n                password = Password::Generated(GeneratedPassword::new(&site_resolved, name, revision, generated.length(), generated.charset()));\n            }\n        }\n        password.set_notes(notes);\n")])
