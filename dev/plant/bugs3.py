from bugs import *
L='cli/src/processor/list.rs'; SH='cli/src/processor/shell.rs'; U='cli/src/processor/utils.rs'; SP='cli/src/processor/set_primary.rs'
AS='cli/src/processor/add_stored.rs'; P='pfp/src/passwords.rs'; S='pfp/src/storage.rs'
B3={
'c25-short':('C25','a primary password of four or five characters','The error message repeats the password that is too short',
  [(U,'            eprintln!("Primary password length should be at least 6 characters.");\n        } else {\n            passwords','            eprintln!("Primary password length should be at least 6 characters.");\n            if primary_password.expose_secret().len() >= 4 {\n                eprintln!("You entered: {}", primary_password.expose_secret());\n            }\n        } else {\n            passwords')]),
'c25-mismatch':('C25','a new primary password repeated in other letter case','The message shows both if they differ only in letter case',
  [(SP,'        return Err("Primary passwords don\'t match.".to_owned());','        if primary_password\n            .expose_secret()\n            .eq_ignore_ascii_case(primary_password2.expose_secret())\n        {\n            return Err(format!(\n                "Primary passwords don\'t match ({} and {}).",\n                primary_password.expose_secret(),\n                primary_password2.expose_secret()\n            ));\n        }\n        return Err("Primary passwords don\'t match.".to_owned());')]),
'c25-notes':('C25','list with both recovery codes and passwords but not verbose, a password with notes','Notes are listed without being asked for',
  [(L,"                if *verbose {\n                    let notes","                if *verbose || (*show && *recovery) {\n                    let notes"),
   (L,"                    if let Password::Generated(password) = &password {\n                        println!","                    if let (Password::Generated(password), true) = (&password, *verbose) {\n                        println!")]),
'c25-nonascii':('C25','a wrong primary password with characters that are not ASCII','A hint on the keyboard layout shows the password',
  [(U,'            passwords\n                .unlock(primary_password)\n                .unwrap_or_else(|error| eprintln!("{}", format_error(&error)));','            passwords\n                .unlock(primary_password.clone())\n                .unwrap_or_else(|error| {\n                    eprintln!("{}", format_error(&error));\n                    if !primary_password.expose_secret().is_ascii() {\n                        eprintln!(\n                            "Maybe the wrong keyboard layout? ({})",\n                            primary_password.expose_secret()\n                        );\n                    }\n                });')]),
'c25-shell-history':('C25','a shell with a history file, passwords typed on the terminal','Passwords are read from standard input, visibly',
  [(SH,"                new_args.stdin_passwords = args.stdin_passwords;","                new_args.stdin_passwords = args.stdin_passwords\n                    || !matches!(args.command, Commands::Shell { history: None });")]),
'c25-code-plain':('C25','a recovery code with additional data','The question shows the password',
  [(U,'                    Error::RecoveryCodeExtraData { line } => {\n                        accepted = formatted.split(\'\\n\').collect::<Vec<&str>>()[..line].join("\\n");\n','                    Error::RecoveryCodeExtraData { line } => {\n                        accepted = formatted.split(\'\\n\').collect::<Vec<&str>>()[..line].join("\\n");\n                        if let Ok(value) = passwords.decode_recovery_code(&accepted) {\n                            println!("Password: {}", value.expose_secret());\n                        }\n')]),
'c26-after-parse':('C26','a line with an unbalanced quote','Lines that cannot be split are not recorded',
  [(SH,"                editor.add_history_entry(line.clone());\n\n                let words = print_errors!(shellwords::split(&line));\n","                let words = print_errors!(shellwords::split(&line));\n                editor.add_history_entry(line.clone());\n")]),
'c26-eof':('C26','a session ended by end of input','The history is saved by exit only',
  [(SH,"            Err(ReadlineError::Eof) => {\n                break;","            Err(ReadlineError::Eof) => {\n                return Ok(());")]),
'c26-load':('C26','a history file that cannot be read','The shell refuses to start',
  [(SH,'    if let Err(error) = editor.load_history(&history_path) {\n','    if let Err(error) = editor.load_history(&history_path) {\n        if history_path.exists() {\n            return Err(format!("Failed loading history ({}).", error));\n        }\n')]),
'c26-status':('C26','a history that cannot be written','The exit status of the session is 1',
  [(SH,'    if let Err(error) = editor.save_history(&history_path) {\n        eprintln!(','    if let Err(error) = editor.save_history(&history_path) {\n        if result.is_ok() {\n            result = Err(String::new());\n        }\n        eprintln!(')]),
'c26-lock':('C26','lock within a session','Locking clears the history',
  [(SH,"                    passwords.lock();\n","                    passwords.lock();\n                    editor.clear_history();\n")]),
'c26-trim':('C26','a line starting with white space','Lines are recorded without leading white space',
  [(SH,"                editor.add_history_entry(line.clone());","                editor.add_history_entry(line.trim_start().to_owned());")]),
'c26-default':('C26','no history file given, a storage file elsewhere','The history is next to the storage file',
  [(SH,"        _ => get_default_history_path(),","        _ if storage_path.exists() => storage_path.with_file_name(\"history.txt\"),\n        _ => get_default_history_path(),")]),
'c26-long':('C26','a long command line','Long lines are not recorded',
  [(SH,"                editor.add_history_entry(line.clone());","                if line.len() < 80 {\n                    editor.add_history_entry(line.clone());\n                }")]),
'c02-set-notes-same':('C02','notes set to what another session changed them from','Setting the same notes is not saved',
  [(P,"        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        self.storage.flush()","        let unchanged = password.notes().expose_secret().len() == notes.expose_secret().len();\n        password.set_notes(notes);\n        self.storage.set_password(password, hmac_secret, key)?;\n        if unchanged {\n            return Ok(());\n        }\n        self.storage.flush()"),
   (P,"use secrecy::{","use secrecy::{ExposeSecret as _, ")]),
'c17-revision-number':('C17','a revision with leading zeros','Leading zeros of revisions do not count for generated passwords', None),
}
