#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the lists here."""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {}
note = ("Seeded search, not enumeration: the property held in every simulated execution explored (counts in the evidence file). "
        "Real possum, rusqlite, SQLite and Rust std run; the kernel (files' names, descriptors, locks, clones, threads' scheduling, time, process death) is a stub. "
        "Assumes interleavings at libc calls and possum's mutexes (sequentially consistent), and process death without power loss.")
note20 = ("Seeded search, not enumeration. The Go binding's real code runs (go/*.go, go/cpossum, go/resource, over cgo); sync, sync/atomic and goroutine scheduling, "
          "the possum C library and three Go modules that are not available here are stubs. Assumes interleavings at statements, synchronisation operations and library calls.")
src = os.environ.get('HOOK', 'abda404')
m = {
    'version': 1,
    'setup_cmd': './setup.sh',
    'hooks': {
        'guard': '--cfg possum_sim',
        'enable': 'RUSTFLAGS="--cfg possum_sim" cargo build --offline in /verif/node, which depends on /repo by path (tools/build.sh)',
        'source_commits': [subprocess.run(['git', '-C', '/repo', 'rev-parse', src], capture_output=True, text=True).stdout.strip()],
    },
    'checks': [
        {
            'property': p['id'],
            'quick_cmd': 'VERIF_TIER=quick ./check.sh ' + p['id'],
            'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
            'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': 'deterministic simulation with fault injection (seeded search over ' + ('goroutine schedules, failing and stalled library calls)' if p['id'] == 'C20' else 'schedules, kills, I/O errors and clock jumps)'),
            'level': 'exploration',
            'level_note': note20 if p['id'] == 'C20' else note,
        }
        for p in props if p['id'] not in NA
    ],
    'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
    'notes': 'See DESIGN.md. replay.sh FILE reruns a replay file; known_findings.txt lists recorded and repaired defects.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
