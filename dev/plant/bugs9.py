B={}
P='pfp/src/passwords.rs';S='pfp/src/storage.rs';C='pfp/src/crypto.rs';U='cli/src/processor/utils.rs';L='cli/src/processor/list.rs';F='pfp/src/storage_io/file.rs';RC='pfp/src/recovery_codes.rs';SH='cli/src/processor/shell.rs';A='cli/src/args.rs';PW='pfp/src/storage_types/password.rs'
AD='cli/src/processor/add.rs';AS='cli/src/processor/add_stored.rs';N='cli/src/processor/notes.rs';SP='cli/src/processor/set_primary.rs';AL='cli/src/processor/alias.rs';SW='cli/src/processor/show.rs';M='cli/src/main.rs'
# confirmation asked for what is in the list, has() by the unresolved site
B['has-raw']=('C14',[(P,"        let site_resolved = self.storage.resolve_site(site, hmac_secret, key);\n        Ok(self.storage.has_password(\n            &PasswordId::new(&site_resolved,","        let site_resolved = self.storage.normalize_site(site);\n        let _ = key;\n        Ok(self.storage.has_password(\n            &PasswordId::new(&site_resolved,")])
# alias retargeting stops at first
B['follow-one']=('C05',[(P,"            .filter(|other| other != &alias_resolved)\n            .collect","            .filter(|other| other != &alias_resolved)\n            .take(2)\n            .collect")])
# has-password check with the unnormalized name
B['alias-has-raw']=('C05',[(P,".list_passwords(&site_normalized, hmac_secret, key)\n            .next()",".list_passwords(site, hmac_secret, key)\n            .next()")])
# undecryptable passwords in the aliased site are kept quiet already; check only site record
B['notes-lossy-len']=('C04',[(N,"            let removing = notes.expose_secret().is_empty();","            let removing = notes.expose_secret().is_empty();\n            let notes = if notes.expose_secret().len() > 1024 { secrecy::SecretString::new(notes.expose_secret().chars().take(1024).collect()) } else { notes };")])
# saved copy: only data on success kept when a previous failure
B['fail-keeps-temp-ok']=('C03',[(F,"            self.data = self.saved.clone();","            let saved = self.saved.clone();\n            self.data.retain(|key, _| saved.contains_key(key));\n            for (key, value) in saved {\n                self.data.entry(key).or_insert(value);\n            }")])
B['dir-only-last']=('C02',[(F,"    for parent in missing.iter().filter_map(|dir| dir.parent()) {","    for parent in missing.iter().take(1).filter_map(|dir| dir.parent()) {")])
B['sync-parent-link']=('C02',[(F,"fn write_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {","fn write_file(path: &path::Path, contents: &[u8]) -> io::Result<()> {\n    let original = path.to_path_buf();"),(F,"    if let Some(parent) = path.parent() {\n        sync_dir(parent);\n    }\n    Ok(())\n}\n\nimpl","    if let Some(parent) = original.parent() {\n        sync_dir(parent);\n    }\n    Ok(())\n}\n\nimpl")])
B['links-eight']=('C06',[(F,"const MAX_LINKS: usize = 40;","const MAX_LINKS: usize = 2;")])
B['eexist-give-up']=('C03',[(F,"            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => counter += 1,","            Err(error) if error.kind() == io::ErrorKind::AlreadyExists => {\n                let _ = fs::remove_file(&temp_path);\n                counter += 1;\n            }")])
B['show-trim']=('C04',[(P,"            Password::Stored(password) => Ok(password.password().clone()),","            Password::Stored(password) => Ok(SecretString::new(secrecy::ExposeSecret::expose_secret(password.password()).trim_end_matches('\\0').to_owned())),")])
B['code-salt']=('C12',[(P,"        let salt = self.storage.get_salt()?;\n        let key = self.key.as_ref().ok_or(Error::PasswordsLocked)?;\n        recovery_codes::generate(password.password(), &salt, key)","        let salt = self.storage.get_salt()?;\n        let key = self.key.as_ref().ok_or(Error::PasswordsLocked)?;\n        let key = if salt[0] == 0 { get_encryption_key(self.primary_password.as_ref().ok_or(Error::PasswordsLocked)?, &salt[1..]) } else { SecretVec::new(secrecy::ExposeSecret::expose_secret(key).clone()) };\n        recovery_codes::generate(password.password(), &salt, &key)")])
B['qr-lower']=('C23',[(SW,"                                | if qr.get_module(x, y + 1) { 2 } else { 0 };","                                | if y + 1 < qr.size() - 1 && qr.get_module(x, y + 1) { 2 } else { 0 };")])
B['qr-medium']=('C23',[(SW,"qrcodegen::QrCodeEcc::Low","if password.expose_secret().len() > 2000 { qrcodegen::QrCodeEcc::High } else { qrcodegen::QrCodeEcc::Low }")])
B['status-notes']=('C21',[(N,"            passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error()?;","            if let Err(error) = passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error()\n            {\n                eprintln!(\"{}\", error);\n                return Ok(());\n            }")])
B['alias-double-print']=('C21',[(AL,"            passwords.remove_alias(domain).convert_error()?;\n            println!(\"Alias removed.\");","            println!(\"Alias removed.\");\n            passwords.remove_alias(domain).convert_error()?;")])
B['setprimary-load']=('C14',[(M,"            Err(_) => (FileIO::new(&storage_path), true),","            Err(Error::FileReadFailure { .. }) => (FileIO::new(&storage_path), true),\n            Err(_) => (FileIO::new(&storage_path), storage_path.metadata().map_or(true, |meta| meta.len() > 0)),")])
B['shell-stdin']=('C19',[(SH,"                new_args.stdin_passwords = args.stdin_passwords;\n","                new_args.stdin_passwords |= args.stdin_passwords;\n                if let Commands::List { name, .. } = &mut new_args.command {\n                    if name.is_empty() {\n                        *name = \"*\".to_string();\n                    }\n                }\n")])
B['shell-history-dup']=('C26',[(SH,"                editor.add_history_entry(line.clone());\n","                if !editor.history().iter().any(|entry| entry == &line) || line.len() < 3 {\n                    editor.add_history_entry(line.clone());\n                }\n")])
B['list-notes-first']=('C07',[(L,"                    if !notes.expose_secret().is_empty() {","                    if !notes.expose_secret().trim().is_empty() {")])
B['list-err-skip']=('C07',[(L,"                if name == \"*\" {\n","                if name.chars().all(|c| c == '*' || c == '?') {\n")])
B['match-lower']=('C07',[(P,"        let matcher = wildmatch::WildMatch::new(site);","        let matcher = wildmatch::WildMatch::new(self.storage.normalize_site(site).as_str());")])
B['get-other-rev']=('C04',[(P,"        let password = self.storage.get_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n            key,\n        )?;\n        Ok(password.notes()","        let password = self\n            .storage\n            .get_password(&PasswordId::new(&site_resolved, name, revision), hmac_secret, key)\n            .or_else(|error| match error {\n                Error::KeyMissing if revision.starts_with('0') => self.storage.get_password(\n                    &PasswordId::new(&site_resolved, name, revision.trim_start_matches('0')),\n                    hmac_secret,\n                    key,\n                ),\n                error => Err(error),\n            })?;\n        Ok(password.notes()")])
B['charset-keep']=('C04',[(AD,"        if charset.is_empty() {","        if *length == 4 && charset.len() == 4 {\n            charset.remove(CharacterType::Symbol);\n        }\n        if charset.is_empty() {")])
B['reset-nosalt']=('C09',[(P,"        let salt = crypto::get_rng().gen::<[u8; 16]>();","        let salt = match self.storage.get_salt().ok().and_then(|salt| salt.try_into().ok()) {\n            Some(salt) if self.unlocked() => salt,\n            _ => crypto::get_rng().gen::<[u8; 16]>(),\n        };")])
B['unlocked-two']=('C11',[(P,"        self.key = None;\n        self.hmac_secret = None;\n        self.primary_password = None;","        self.key = None;\n        self.hmac_secret = None;")])
B['eintr-retry-write']=('C03',[(F,"        .and_then(|_| file.write_all(contents))","        .and_then(|_| file.write(contents).map(|_| ()))")])
B['perm-before']=('C06',[(F,"    permissions\n        .map_or(Ok(()), |permissions| file.set_permissions(permissions))\n        .and_then(|_| file.write_all(contents))","    permissions\n        .filter(|permissions| !permissions.readonly())\n        .map(|permissions| file.set_permissions(permissions).ok());\n    file.write_all(contents)")])
B['mem-clone']=('C18',[(P,"        let password = self.storage.get_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n            key,\n        )?;\n\n        match password {","        let password = self.storage.get_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n            key,\n        )?;\n        let _ = format!(\"{}:{}\", site, secrecy::ExposeSecret::expose_secret(primary_password)).len();\n\n        match password {")])
B['mem-setalias']=('C18',[(SP,"    if primary_password.expose_secret() != primary_password2.expose_secret() {","    if primary_password.expose_secret().to_lowercase() != primary_password2.expose_secret().to_lowercase() {\n        return Err(\"Primary passwords don't match.\".to_owned());\n    }\n    if primary_password.expose_secret() != primary_password2.expose_secret() {")])
B['len-alias']=('C24',[(AD,"        if charset.is_empty() {","        if charset.is_empty() && *length < 24 {")])
B['stdin-rec']=('C25',[(AS,"            prompt_recovery_code(passwords)?","            {\n                let code = prompt_recovery_code(passwords)?;\n                if secrecy::ExposeSecret::expose_secret(&code).is_empty() {\n                    return Err(\"Empty password.\".to_owned());\n                }\n                println!(\"Recovered {} characters.\", secrecy::ExposeSecret::expose_secret(&code));\n                code\n            }")])
