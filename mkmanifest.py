#!/usr/bin/env python3
"""Regenerates MANIFEST.json (kept in git) from the table below."""
import json, os
ROOT = os.path.dirname(os.path.abspath(__file__))
T = {
    'C01': ('differential round-trip monitor over a recording, copying transport, with ASan/UBSan', 'All 16 stub/skeleton backend pairs on directed and random interfaces; values compared byte for byte. Trusts the Mink runtime files in /repo/tests and the harness glue.'),
    'C02': ('online envelope checker on every observed invocation, plus compile-time rejection sweep', 'Op, counts and section order of every invocation checked against an independent plan; over-limit methods must be rejected by every backend.'),
    'C03': ('offline wire-byte checker over recorded invocations', 'Input and output buffers of every call compared byte for byte with an independent marshalling model.'),
    'C04': ('hostile-envelope stress of live skeletons under AddressSanitizer (C, C++, Rust) and under the JVM (Java)', 'Perturbed counts, sizes, op-codes and missing optional methods; buffers are exact-size heap blocks; interleaved well-formed calls.'),
    'C05': ('reference-count monitor on instrumented objects', 'Every object handle is a counting object; counts, minima and failed-call adoption are checked after every call.'),
    'C06': ('layout probes in five compilers plus wire-size monitors', 'sizeof/offsetof of every accepted struct in gcc, clang, g++, clang++ and rustc; sizes transmitted and checked by live stubs and skeletons.'),
    'C07': ('op-code monitor on live stubs and skeletons, op constants read at run time', 'Random interface forests; op of every stub call and method run for every op-code in C, C++, Rust and Java; 0x4000 limit.'),
    'C08': ('error-value probes compiled and run in four languages', 'Every own and re-exported error constant printed, and the status a caller observes when an implementation returns the named error.'),
    'C09': ('rejection monitor: every run of the command-line driver and the library on inputs with one planted violation', 'One violation of one rule at a random position of a valid program, or a textual mutation; classified by an independent reference front end; all backends, flags and the library.'),
    'C10': ('acceptance monitor: every run of the command-line driver and the library on valid inputs', 'Valid random programs in several declaration orders and placements, programs at the edges of the restrictions, random trivia; all backends, flags and the library.'),
    'C11': ('compilers as monitors: exit status and diagnostics of gcc, clang, g++, clang++, rustc and javac on everything generated', 'Random programs of every construct with identifiers the generated code uses itself plus directed shapes; generated files alone, with conforming user code, stub, skeleton and included files together; upstream flags.'),
    'C12': ('include-resolution monitor: which physical files were loaded, observed through marker declarations', 'Random directory trees, include graphs, search paths, spellings and symlinks against an independent resolver; every cycle length with every lead-in.'),
    'C13': ('byte comparison of repeated, relocated and respelled compilations', 'Fresh processes, working directories, relocations, relative/redundant/symlinked spellings, environment; library against driver.'),
    'C14': ('comparison of runs on edited inputs: generated text with and without comments, compilers as monitors of the commented result', 'Whitespace, line breaks, comments between any two tokens, documentation comments and markings with hostile content, untyped objects; both conventions for what ends a line comment.'),
    'C15': ('comparison of fragments across revisions, and round-trip monitoring of stubs of one revision linked with skeletons of the other', 'Random append-only histories; generated text of every old method and constant compared; C, C++, Rust and Java stubs and skeletons of different revisions invoke each other under ASan/UBSan with the wire model as oracle.'),
    'C16': ('differential crash/termination monitor over debug, release and AddressSanitizer builds', 'Random bytes, mutated and valid programs, boundary numerals, overflowing sizes and large regular inputs; signals, sanitizer reports, time, diagnostics, equal decisions and bytes.'),
    'C17': ('constant probes compiled and run in four languages', 'Value bits, type and sign of every constant as seen by gcc, clang, g++, clang++, rustc and javac; range acceptance on both sides of every boundary.'),
    'C19': ('file-system snapshot monitor around every compiler run', 'Bytes, sizes, mtimes and inodes of a scratch tree before and after; pre-existing outputs; expected file set, banner and a clean compilation as the reference.'),
    'C20': ('overlap, ordering and drop monitors inside implementations, under threads with injected delays, ThreadSanitizer and Miri', 'Random interfaces; several threads clone, invoke, convert, downcast and drop; monitors use only Relaxed atomics so that they hide no race.'),
    'C18': ('Java proxies and skeletons driven through a recording transport', 'Reflective driver over a stand-in Mink runtime; envelopes compared with the wire model shared with the C-family backends.'),
}
checks = []
for p, (tech, note) in sorted(T.items()):
    checks.append({'property': p, 'quick_cmd': 'python3 -m vf ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 -m vf ' + p,
                   'technique': tech, 'level': 'exploration', 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3 -m vf setup', 'checks': checks, 'not_applicable': []}
json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)

# ---- fixed entries: subject of the commit -> properties
import subprocess
FIX = [
    ('align untyped object fields', ['C10'], 'structs with `interface` fields were held to 16-byte alignment and rejected'),
    ('enumerate every object slot', ['C01', 'C05'], 'objects in arrays of fields or nested structs were never conveyed'),
    ('emit C declarations before their uses', ['C10', 'C11'], 'C and C++ output used structs and interfaces before declaring them'),
    ('marshal struct objects and bundles identically', ['C01', 'C02', 'C03', 'C05', 'C11'], 'stub and skeleton of different backends disagreed on structs with objects and on bundles'),
    ('parse comments between any tokens', ['C09', 'C14', 'C16'], 'comments in legal places and odd array sizes crashed or were misread'),
    ('reject methods whose arguments do not fit', ['C02', 'C09'], 'counts overflowed into the neighbouring class'),
    ('diagnose struct sizes that overflow', ['C16'], 'debug panicked and release wrapped on huge structs'),
    ('visit each struct and interface once', ['C16'], 'cycle detection was exponential'),
    ('apply the restrictions to every reachable file', ['C09', 'C12', 'C16'], 'included files and the library entry point were not verified'),
    ('compile in a thread whose stack', ['C16'], 'deep hierarchies overflowed the stack'),
    ('java: marshal array and nested struct fields', ['C11', 'C18'], 'array and nested struct fields were lost'),
    ('java: skeletons decode and size array', ['C18'], 'array parameters were sized in bytes as elements'),
    ('java: refuse invocations whose counts', ['C04', 'C18'], 'skeletons threw or read past malformed invocations'),
    ('java: parameter names never collide', ['C11', 'C18'], 'parameters named like generated locals did not compile'),
    ('object arrays are const inputs', ['C11'], 'untyped skeletons with object arrays did not compile'),
    ('c, cpp: parameter names never', ['C11'], 'parameters named like generated locals did not compile'),
    ('rust: parameter and method names', ['C11'], 'parameters and methods named like generated names did not compile'),
    ('java: an included file', ['C11'], 'includes with a directory or included twice did not compile'),
    ('documentation stays inside', ['C11', 'C14'], 'documentation could end the comment it is written in'),
    ('markings stay inside', ['C11', 'C14'], 'a marking could end the comment it is written in'),
    ('emit constants with their exact value', ['C11', 'C17'], 'constants changed value or type or did not compile'),
]
log = [l.split(' ', 1) for l in subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()]
kf = json.load(open(os.path.join(ROOT, 'known_findings.json')))
kf['fixed'] = ['fixed: property=%s %s %s' % (p, h, w) for key, ps, w in FIX for h, s in log if key in s for p in ps]
json.dump(kf, open(os.path.join(ROOT, 'known_findings.json'), 'w'), indent=1)
missing = [s for h, s in log if s.startswith('fix:') and not any(k in s for k, _, _ in FIX)]
print('fix commits without an entry:', missing)
