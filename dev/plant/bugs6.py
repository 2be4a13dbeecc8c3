from bugs import B
from bugs5 import *
X={}
I='            Err(ReadlineError::Interrupted) => {}\n'
X['e-intr-break']=('C19','Ctrl-C pressed while a command line is typed on a terminal','The session ends',[(SH,'            Err(ReadlineError::Interrupted) => {}\n            Err(ReadlineError::Eof) => {\n                break;','            Err(ReadlineError::Interrupted) | Err(ReadlineError::Eof) => {\n                break;')])
X['c19-intr-lock']=('C19','Ctrl-C pressed in an unlocked session on a terminal','The session is locked silently',[(SH,I,'            Err(ReadlineError::Interrupted) => {\n                passwords.lock();\n            }\n')])
X['c26-intr-history']=('C26','Ctrl-C pressed at the prompt on a terminal','The lines typed before are missing from the history',[(SH,I,'            Err(ReadlineError::Interrupted) => {\n                editor.clear_history();\n            }\n')])
X['c19-intr-twice']=('C19','Ctrl-C pressed twice in a session on a terminal','The session ends with the second one',[(SH,I,'            Err(ReadlineError::Interrupted) => {\n                if interrupted {\n                    break;\n                }\n                interrupted = true;\n            }\n'),(SH,'    let mut result = Ok(());\n','    let mut result = Ok(());\n    let mut interrupted = false;\n')])
X['e-intr-error']=('C26','Ctrl-C','x',[(SH,I,'            Err(ReadlineError::Interrupted) => {\n                let _ = editor.load_history(&history_path);\n            }\n')])
X['e-intr-reload']=('C19','Ctrl-C','x',[(SH,I,'            Err(ReadlineError::Interrupted) => {\n                result = Err(String::new());\n            }\n')])
X['e-auto-hist']=('C26','a session whose lines come from a pipe','no line is in the history',[(SH,'    let mut editor = rustyline::Editor::<()>::new();','    let mut editor = rustyline::Editor::<()>::with_config(\n        rustyline::Config::builder()\n            .auto_add_history(true)\n            .build(),\n    );'),(SH,'                editor.add_history_entry(line.clone());\n\n','')])
X['e-stderr-prompt']=('C19','x','x',[(SH,'            Ok(line) => {\n','            Ok(line) if line.trim().is_empty() => continue,\n            Ok(line) => {\n')])
B.update(X)
