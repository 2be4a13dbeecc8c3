B={}
P='pfp/src/passwords.rs';S='pfp/src/storage.rs';C='pfp/src/crypto.rs';U='cli/src/processor/utils.rs';L='cli/src/processor/list.rs';F='pfp/src/storage_io/file.rs';RC='pfp/src/recovery_codes.rs';SH='cli/src/processor/shell.rs';A='cli/src/args.rs';PW='pfp/src/storage_types/password.rs'
B['ensure-always']=('C06',[(S,"        if self.get::<Site>(&key, encryption_key).is_err() {\n            self.set(&key, &Site::new(site, None), encryption_key)\n        } else {\n            Ok(())\n        }","        self.set(&key, &Site::new(site, None), encryption_key)")])
B['reset-keeps-hmac']=('C09',[(P,"        let hmac_secret = SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec());\n\n        self.storage.clear","        let hmac_secret = match &self.hmac_secret {\n            Some(secret) => SecretVec::new(secret.expose_secret().clone()),\n            None => SecretVec::new(crypto::get_rng().gen::<[u8; 32]>().to_vec()),\n        };\n\n        self.storage.clear"),(P,"use secrecy::{SecretString, SecretVec};","use secrecy::{ExposeSecret, SecretString, SecretVec};")])
B['unlock-again']=('C11',[(P,"        let salt = self.storage.get_salt()?;\n        let key = get_encryption_key(&primary_password, &salt);\n\n        let hmac_secret","        let salt = self.storage.get_salt()?;\n        if self.unlocked() {\n            return Ok(());\n        }\n        let key = get_encryption_key(&primary_password, &salt);\n\n        let hmac_secret")])
B['unlock-early']=('C11',[(P,"        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);\n        self.primary_password = Some(primary_password);","        self.primary_password = Some(primary_password);\n        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key = Some(key);\n        self.hmac_secret = Some(hmac_secret);")])
B['unlock-locks']=('C11',[(P,"        let key = get_encryption_key(&primary_password, &salt);\n\n        let hmac_secret","        let key = get_encryption_key(&primary_password, &salt);\n        self.lock();\n\n        let hmac_secret")])
B['derive-gt']=('C17',[(C,"charset.len() - seen.len() >= len - i","charset.len() - seen.len() > len - i")])
B['sort-rev']=('C07',[(L,'password.id().name().to_string() + " " + password.id().revision()','password.id().name().to_lowercase() + " " + password.id().revision()')])
B['list-aliases-dup']=('C07',[(L,"        sites.dedup_by_key(|site| site.name().to_owned());\n","")])
B['list-empty-target']=('C07',[(L,'                if name == "*" {\n                    empty','                if name == "*" && domain != "*" || !aliases.contains_key(site.name()) {\n                    empty')])
B['prefix-lax']=('C05',[(S,"        let mut result = self.get_site_key(site, hmac_secret);\n        result.push(':');\n        result","        let mut result = self.get_site_key(site, hmac_secret);\n        result.truncate(12);\n        result")])
B['site-find']=('C07',[(S,"if key.starts_with(STORAGE_PREFIX) && key[STORAGE_PREFIX.len()..].find(':').is_none() {","if key.starts_with(STORAGE_PREFIX) && key.len() < STORAGE_PREFIX.len() + 44 {")])
B['yes-prefix']=('C14',[(U,'                    "y" | "yes" => return Ok(true),','                    text if text.starts_with(\'y\') => return Ok(true),')])
B['yes-default']=('C14',[(U,'                    "" => return Ok(default),\n                    _ => {}','                    "" => return Ok(default),\n                    text if text.chars().all(|c| !c.is_alphanumeric()) => return Ok(!default),\n                    _ => {}')])
B['trim-nul']=('C04',[(U,"Ok(SecretString::new(secret.expose_secret().trim().to_owned()))","Ok(SecretString::new(secret.expose_secret().trim_matches(|c: char| c.is_whitespace() || c.is_control()).to_owned()))")])
B['lossy-code']=('C12',[(U,"                        accepted = formatted;\n                        eprintln","                        accepted = recovery_codes::format_code(line.as_bytes(), true);\n                        eprintln")])
B['ignore-extra']=('C12',[(U,"return passwords.decode_recovery_code(&accepted).convert_error();","return passwords.decode_recovery_code(&code).convert_error();")])
B['code-eof']=('C13',[(U,"        } else {\n            return Err(String::new());\n        }\n    }\n}","        } else if accepted.is_empty() {\n            return Err(String::new());\n        } else {\n            return passwords.decode_recovery_code(&accepted).convert_error();\n        }\n    }\n}")])
B['wouldblock']=('C13',[(U,"            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}\n            Err(error) => {\n                Sec","            Err(error) if matches!(error.kind(), std::io::ErrorKind::Interrupted | std::io::ErrorKind::WouldBlock) => {}\n            Err(error) => {\n                Sec")])
B['len-chars']=('C11',[(U,"if primary_password.expose_secret().len() < 6","if primary_password.expose_secret().chars().count() < 6")])
B['notes-remove-site']=('C06',[(P,"        password.set_notes(notes);\n","        password.set_notes(notes);\n        let _ = self.storage.remove_site(&site_resolved, hmac_secret);\n        self.storage.ensure_site_data(&site_resolved, hmac_secret, key)?;\n")])
B['flush-same']=('C02',[(F,"        let result = self.save();\n","        if self.data.len() < self.saved.len() && self.data.keys().all(|key| !key.contains(':')) {\n            return Ok(());\n        }\n        let result = self.save();\n")])
B['remove-order']=('C03',[(P,"        self.storage\n            .remove_alias(&site_normalized, hmac_secret, key)?;\n        self.storage.flush()","        self.storage\n            .remove_alias(&site_normalized, hmac_secret, key)?;\n        let _ = self.storage.flush();\n        self.storage.flush()")])
B['dup-json']=('C10',[(P,"        let hmac_secret = self.storage.get_hmac_secret(&key)?;\n        self.key","        let hmac_secret = match self.storage.get_hmac_secret(&key) {\n            Err(Error::InvalidJson { .. }) | Err(Error::InvalidBase64 { .. }) => {\n                SecretVec::new(vec![0; 32])\n            }\n            result => result?,\n        };\n        self.key")])
B['notes-default']=('C10',[(P,"    pub fn get_notes(&self","    #[allow(unused)]\n    pub fn get_notes(&self"),(S,"        let key = self.get_password_key(id, hmac_secret);\n        self.get(&key, encryption_key)","        let key = self.get_password_key(id, hmac_secret);\n        match self.get(&key, encryption_key) {\n            Err(Error::InvalidCiphertext) => Ok(Password::Generated(GeneratedPassword::new(id.site(), id.name(), id.revision(), 16, CharacterSet::all()))),\n            result => result,\n        }")])
B['shell-c']=('C19',[(SH,"                new_args.stdin_passwords = args.stdin_passwords;\n","                new_args.stdin_passwords |= args.stdin_passwords;\n                if new_args.storage.is_some() {\n                    passwords.lock();\n                }\n")])
B['backup']=('C08',[(F,"        let parent = self.path.parent();\n        if let Some(parent) = parent {","        let parent = self.path.parent();\n        if self.saved.len() > 12 {\n            let _ = fs::copy(&self.path, self.path.with_extension(\"bak\"));\n        }\n        if let Some(parent) = parent {")])
B['load-empty']=('C22',[(F,"        let contents =\n            fs::read_to_string(path).map_err(|error| Error::FileReadFailure { error })?;\n","        let contents = match fs::read_to_string(path) {\n            Err(error) if error.raw_os_error() == Some(116) => String::new(),\n            result => result.map_err(|error| Error::FileReadFailure { error })?,\n        };\n        let contents = if contents.is_empty() {\n            String::from(\"{\\\"application\\\":\\\"pfp\\\",\\\"format\\\":3,\\\"data\\\":{}}\")\n        } else {\n            contents\n        };\n")])
B['pw-remove-last']=('C06',[(P,"            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        self.storage.flush()","            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        if self.storage.list_passwords(&site_resolved, hmac_secret, key).next().is_none() {\n            let _ = self.storage.remove_site(&site_resolved, hmac_secret);\n        }\n        self.storage.flush()")])
