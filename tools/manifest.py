#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json
V = __file__.rsplit('/', 2)[0]
NA = {
 "C23": "QR rendering is a pure function of the password: no schedule, fault, crash or history for it to depend on; deciding it needs a QR decoder over many inputs, not simulation.",
 "C24": "Rejecting bad command-line parameters is a pure function of the arguments, done before anything is read, asked or written; there is nothing for a simulator to schedule or fail.",
}
T = "deterministic simulation with fault injection (real binaries on a simulated kernel, seeded search, %s)"
O = {
 "C01": ("crash and power-loss points, reference model", "every system call of a save is a possible crash point; power loss under five file system personalities"),
 "C02": ("crash and power-loss points, reference model", "acknowledged changes are looked for after every later crash"),
 "C03": ("disk faults, reference model", "every mutating call of a save can fail, also persistently"),
 "C04": ("random histories, reference model", "map semantics against a small executable model"),
 "C05": ("random histories, reference model", "alias semantics against a small executable model"),
 "C06": ("histories with faults, raw diff of the file", "raw entries and all files are compared after every command"),
 "C07": ("random histories, reference model", "complete expected output of every list"),
 "C08": ("histories with faults, search of all bytes written", "everything written to any file, in several encodings"),
 "C09": ("entropy faults and twin runs, nonce ledger", "nonces, salts and secrets of all states and codes, and twin runs with other entropy"),
 "C10": ("damage injection, reference model", "damage of bytes and of entries followed by operations"),
 "C11": ("random histories, reference model", "unlocking, locking, re-initialisation against the model"),
 "C12": ("mutated recovery codes and input faults, independent decoder", "codes of this and other vaults, with mistakes"),
 "C13": ("input faults at every prompt, dialogue model", "end of input, errors, interruptions and stray bytes at any position of any line"),
 "C14": ("answers and faults at the questions, reference model", "every kind of answer, end of input, faults and damage at that moment"),
 "C15": ("seeded interleaving of processes at system calls, refinement check", "two to three processes switched at any system call"),
 "C16": ("seeded interleaving of processes at system calls, conservation check", "two to three processes switched at any system call"),
 "C17": ("random histories, independent implementation", "the generated value from an independent scrypt/HMAC/mapping implementation"),
 "C18": ("histories with faults, scan of released memory", "the allocator of the real process is observed; searched for all secrets of the run"),
 "C19": ("shell sessions against the reference model", "every line of a session against the same model as separate commands"),
 "C20": ("random histories, independent reader and writer", "file read and written by an independent implementation of the format"),
 "C21": ("disk, input, output, entropy and crash faults, reference model", "status, messages and effect of every command"),
 "C22": ("read faults, reference model", "short, interrupted and failing reads and opens"),
}
checks = []
na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
        continue
    m, n = O[i]
    checks.append({
        "property": i,
        "quick_cmd": f"./check.sh {i} quick",
        "thorough_cmd": f"./check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": T % m,
        "level": "exploration",
        "level_note": f"Seeded search, not exhaustive: {n}. Trusts the simulated kernel (Linux semantics of the calls made), the reference model and the independent implementation of the format in /verif/sim.",
    })
json.dump({"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the unmodified programs run under an interposed libc (shim/shim.c) whose system calls are answered by the simulator."},
    open(V + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
