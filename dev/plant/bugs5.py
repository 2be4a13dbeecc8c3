from bugs import B
F='pfp/src/storage_io/file.rs';P='pfp/src/passwords.rs';S='pfp/src/storage.rs';C='pfp/src/crypto.rs';R='pfp/src/recovery_codes.rs';PW='pfp/src/storage_types/password.rs'
L='cli/src/processor/list.rs'; A='cli/src/processor/alias.rs'; SH='cli/src/processor/shell.rs'; U='cli/src/processor/utils.rs'; W='cli/src/processor/show.rs'; N='cli/src/processor/notes.rs'; AS='cli/src/processor/add_stored.rs'; AD='cli/src/processor/add.rs'; SP='cli/src/processor/set_primary.rs'; M='cli/src/main.rs'; AR='cli/src/args.rs'
X={}
X['d-restore-shorter']=('C03','a failed save that overwrote an entry (notes, replaced password)','After the failure the session shows the change that was not saved',[(F,'            self.data = self.saved.clone();','            if self.data.len() != self.saved.len() {\n                self.data = self.saved.clone();\n            }')])
X['d-saved-keys']=('C03','x','x',[(F,'            self.data = self.saved.clone();','            let saved = &self.saved;\n            self.data.retain(|key, _| saved.contains_key(key));\n            for (key, value) in saved.iter() {\n                self.data.entry(key.clone()).or_insert_with(|| value.clone());\n            }')])
X['d-alias-rewrite']=('C06','pointing a site at a target that has other aliases','The records of the other aliases are rewritten',[(P,'            .filter(|other| other.alias() == Some(&site_normalized))\n','            .filter(|other| {\n                other.alias() == Some(&site_normalized) || other.alias() == Some(&alias_resolved)\n            })\n')])
X['d-ensure-always']=('C06','adding another password to an existing site','The site record is rewritten',[(S,'        if self.get::<Site>(&key, encryption_key).is_err() {\n            self.set(&key, &Site::new(site, None), encryption_key)\n        } else {\n            Ok(())\n        }','        self.set(&key, &Site::new(site, None), encryption_key)')])
X['d-alias-resolve-source']=('C05','an alias that is pointed elsewhere','The target is aliased instead of the site named',[(P,'        let site_normalized = self.storage.normalize_site(site);\n        let alias_resolved = self.storage.resolve_site(alias, hmac_secret, key);','        let site_normalized = self.storage.resolve_site(site, hmac_secret, key);\n        let alias_resolved = self.storage.resolve_site(alias, hmac_secret, key);')])
X['d-yes-prefix']=('C14','an answer to the overwrite question that merely starts with y','x',[(U,'                    "y" | "yes" => return Ok(true),','                    answer if answer.starts_with("ye") || answer == "y" => return Ok(true),')])
X['d-trim-nothing']=('C14','x','x',[(U,'            None => return Ok(false),','            None => return Ok(default),')])
X['d-overwrite-stored-only']=('C14','x','replacing a stored password by a generated one is not asked',[(AD,'if !assume_yes && passwords.has(domain, name, revision).unwrap_or(false) {','if !assume_yes\n            && passwords\n                .get(domain, name, revision)\n                .map(|value| value.expose_secret().len() <= 24)\n                .unwrap_or(false)\n        {'),(AD,'use pfp::storage_types::{CharacterSet, CharacterType};','use pfp::storage_types::{CharacterSet, CharacterType};\nuse secrecy::ExposeSecret;')])
X['d-notes-early']=('C21','x','x',[(N,'            passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error()?;\n            if removing {\n                println!("Notes removed.");\n            } else {','            if removing {\n                println!("Notes removed.");\n            }\n            passwords\n                .set_notes(domain, name, revision, notes)\n                .convert_error()?;\n            if !removing {')])
X['d-alias-msg-first']=('C21','a failing save of an alias','x',[(A,'            passwords.set_alias(domain, target).convert_error()?;\n            println!("Alias added.");','            let result = passwords.set_alias(domain, target).convert_error();\n            println!("Alias added.");\n            result?;')])
X['d-tty-fallback']=('C25','no terminal','passwords are read from standard input although not requested',[(U,'SecretString::new(rpassword::prompt_password(prompt).map_err(input_error)?)','match rpassword::prompt_password(prompt) {\n            Ok(value) => SecretString::new(value),\n            Err(_) => prompt_secret_text(prompt)?,\n        }')])
X['d-hist-on-success']=('C26','a session that ends with an error','x',[(SH,'    if let Err(error) = editor.save_history(&history_path) {','    if result.is_err() {\n        return result;\n    }\n    if let Err(error) = editor.save_history(&history_path) {')])
X['d-hist-dup']=('C26','x','x',[(SH,'    let mut editor = rustyline::Editor::<()>::new();','    let mut editor = rustyline::Editor::<()>::with_config(\n        rustyline::Config::builder()\n            .history_ignore_dups(false)\n            .build(),\n    );')])
X['d-hist-space']=('C26','x','x',[(SH,'    let mut editor = rustyline::Editor::<()>::new();','    let mut editor = rustyline::Editor::<()>::with_config(\n        rustyline::Config::builder()\n            .history_ignore_space(true)\n            .build(),\n    );')])
X['d-hist-append']=('C26','x','x',[(SH,'    if let Err(error) = editor.save_history(&history_path) {','    if let Err(error) = editor.append_history(&history_path) {')])
X['d-site-missing-alias']=('C10','damage of an alias record','x',[(S,'        let site = self\n            .get_site(site, hmac_secret, encryption_key)\n            .map_err(|_| Error::NoSuchAlias)?;\n        site.alias()','        let key = self.get_site_key(site, hmac_secret);\n        if !self.contains(&key) {\n            return Err(Error::NoSuchAlias);\n        }\n        let site: Site = self.get(&key, encryption_key).unwrap();\n        site.alias()')])
X['d-nonce-len']=('C10','x','x',[(C,'    if nonce_data.len() != AES_NONCE_SIZE / 8 {','    if nonce_data.len() < AES_NONCE_SIZE / 8 {'),(C,'    let nonce = aes_gcm::Nonce::from_slice(&nonce_data);\n    let ciphertext =','    let nonce = aes_gcm::Nonce::from_slice(&nonce_data[..AES_NONCE_SIZE / 8]);\n    let ciphertext =')])
X['d-b64-lenient']=('C10','x','x',[(C,'        base64::decode(ciphertext_base64).map_err(|error| Error::InvalidBase64 { error })?;','        base64::decode_config(\n            ciphertext_base64.trim(),\n            base64::STANDARD.decode_allow_trailing_bits(true),\n        )\n        .map_err(|error| Error::InvalidBase64 { error })?;')])
X['d-empty-file']=('C10','x','an empty file counts as a vault that is not initialised',[(F,'        let mut result = crate::json::from_str::<Self>(&contents)\n','        if contents.trim().is_empty() {\n            return Ok(Self::new(path));\n        }\n        let mut result = crate::json::from_str::<Self>(&contents)\n')])
X['d-recov-ws']=('C12','x','x',[(R,'        .filter_map(|(i, byte)| {\n            if i % (BLOCK_SIZE + 1) == BLOCK_SIZE {','        .filter_map(|(i, byte)| {\n            if i % (BLOCK_SIZE + 1) == BLOCK_SIZE && i > 0 {')])
X['d-recov-zero']=('C12','a password ending with a space','trailing spaces are dropped',[(R,'        if byte != 0 {\n            break;','        if byte != 0 && byte != b\' \' {\n            break;')])
X['d-charset-len']=('C17','x','x',[(C,'        let allowed = if charset.len() - seen.len() >= len - i {','        let allowed = if len - i <= charset.len() - seen.len() && i + 1 < len {')])
X['d-salt-site-norm']=('C17','x','x',[(PW,'        let mut salt = self.id.site().to_string();\n        salt.push(\'\\0\');','        let mut salt = self.id.site().trim_end_matches(\'.\').to_string();\n        salt.push(\'\\0\');')])
X['d-show-buffer']=('C18','x','x',[(W,'            stdout\n                .write_all(password.expose_secret().as_bytes())\n                .unwrap();\n            stdout.write_all(b"\\n").unwrap();','            stdout\n                .write_all(format!("{}\\n", password.expose_secret()).as_bytes())\n                .unwrap();')])
X['d-trim-copy']=('C18','x','x',[(U,'    Ok(SecretString::new(secret.expose_secret().trim().to_owned()))','    let trimmed = secret.expose_secret().trim().to_owned();\n    Ok(SecretString::new(trimmed.clone()))')])
X['d-error-primary']=('C25','x','x',[(SP,'        return Err("Primary passwords don\'t match.".to_owned());','        return Err(format!(\n            "Primary passwords don\'t match ({} and {} characters).",\n            primary_password.expose_secret().len(),\n            primary_password2.expose_secret()\n        ));')])
X['d-lock-on-error']=('C19','x','x',[(SH,'                print_errors!(super::process_command(new_args, storage_path, passwords));','                if let Err(error) = super::process_command(new_args, storage_path, passwords) {\n                    eprintln!("{}", error);\n                    std::io::stdout().flush().unwrap();\n                    if !error.is_empty() {\n                        continue;\n                    }\n                    break;\n                }')])
X['d-shell-reload']=('C19','x','x',[(SH,'                let mut new_args = print_errors!(Args::from_arg_matches(&matches));','                let mut new_args = print_errors!(Args::from_arg_matches(\n                    &matches.clone()\n                ));\n                if new_args.storage.is_some() {\n                    break;\n                }')])
X['d-list-sort-rev']=('C07','x','x',[(L,'password.id().name().to_string() + " " + password.id().revision()','password.id().name().to_string() + password.id().revision()')])
X['d-list-alias-dup']=('C07','x','x',[(L,'        sites.sort_by_key(|site| site.name().to_owned());\n','        sites.sort_by_key(|site| site.name().to_lowercase());\n')])
X['d-format-range']=('C20','a file of another format','x',[('pfp/src/json/macros.rs','                if value == $value {','                if value <= $value.into() {')])
X['d-deny-unknown']=('C20','x','x',[(F,'#[serde(deny_unknown_fields)]\n','')])
X['d-qr-odd']=('C23','x','x',[(W,'                        for x in 0..qr.size() {','                        for x in 0..qr.size() / 2 * 2 {')])
X['d-qr-ecc']=('C23','x','x',[(W,'qrcodegen::QrCode::encode_text(\n                password.expose_secret(),','qrcodegen::QrCode::encode_text(\n                password.expose_secret().trim_start(),')])
X['d-len-neg']=('C24','x','x',[(AR,'(4..=24)','(4..=64)')])
X['d-primary-bytes']=('C11','x','x',[(P,'    pub fn unlock(&mut self, primary_password: SecretString) -> Result<(), Error> {\n','    pub fn unlock(&mut self, primary_password: SecretString) -> Result<(), Error> {\n        if self.primary_password.is_some() {\n            return Ok(());\n        }\n')])
X['d-reset-keep']=('C11','x','x',[(S,'        self.io.clear();\n        self.set_salt(salt);','        let old = self\n            .io\n            .keys()\n            .filter(|key| key.starts_with(STORAGE_PREFIX))\n            .cloned()\n            .collect::<Vec<_>>();\n        for key in old {\n            self.io.remove(&key)?;\n        }\n        self.set_salt(salt);')])
X['d-eintr-unlock']=('C13','x','x',[(U,'            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => {}','            Err(error) if error.kind() == std::io::ErrorKind::Interrupted => buffer.clear(),')])
X['d-cr-eof']=('C13','x','x',[(U,'            Ok(0) if buffer.is_empty() => return Ok(None),\n            Ok(0) => finished = true,','            Ok(0) if buffer.len() < 2 => return Ok(None),\n            Ok(0) => finished = true,')])
X['d-remove-empty']=('C04','x','remove of a revision also when absent',[(P,'        self.storage.remove_password(\n            &PasswordId::new(&site_resolved, name, revision),\n            hmac_secret,\n        )?;\n        self.storage.flush()','        self.storage\n            .remove_password(\n                &PasswordId::new(&site_resolved, name, revision),\n                hmac_secret,\n            )\n            .or_else(|_| {\n                self.storage\n                    .remove_password(&PasswordId::new(site, name, revision), hmac_secret)\n            })?;\n        self.storage.flush()')])
X['d-key-sep']=('C04','x','x',[(S,"        input.push('\\0');\n        input.push_str(id.revision());","        if !id.revision().is_empty() {\n            input.push('\\0');\n            input.push_str(id.revision());\n        }")])
B.update(X)
