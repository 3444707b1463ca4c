#!/usr/bin/env python3
# writes MANIFEST.json from properties.jsonl and the notes below
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
T = 'deterministic simulation with fault injection: seeded search over programs, environments and fault sequences'
COMMON = (' Exploration: a seeded search, no exhaustive enumeration; a violation outside the sampled programs, schedules and faults is missed. '
          'Trusted: the simulated system calls (sim/kernel.cpp), the reference model of the assembler language (sim/gen.cpp), the compilers and glibc.')
N = {
 'C01': (T + '; oracle: reference model of the language', 'Every sampled program is run through the whole assembler under a sampled I/O schedule and its code file is decoded and compared byte by byte with an independent model.'),
 'C02': (T + '; failing, full and short writes on the code file', 'A sampled operation on the code file fails (or the disk fills up at a sampled byte); no success may be claimed. With short writes only, the code must be exact.'),
 'C03': (T + '; every kind of failure', 'A sampled failure of any kind; the code file path is inspected in the simulated file system afterwards.'),
 'C04': (T + '; crash injection and re-run', 'The process is killed between two sampled system operations; what survives in the file system is compared with the undisturbed run, then the assembly is run again on it.'),
 'C05': (T + '; failing reads and seeks', 'A sampled read (or seek) of the source or an include fails; success must not be reported and the run must end.'),
 'C06': (T + '; metamorphic comparison of deliveries', 'The same lines delivered in two ways (read sizes, missing last newline, CR LF, moved to includes) must give the same code and verdict, and that of the model.'),
 'C07': (T + '; failing opens of includes', 'A sampled open of an include fails in a sampled pass; the run must either give the model\'s code or fail without code file.'),
 'C08': (T + '; concurrent modification of the sources', 'Another simulated process edits the source or an include at a sampled instant; in accepted code every marked reference must equal the address of its marked label.'),
 'C09': (T + '; comparison with the model of the program without the faulty lines', 'Sampled faulty lines at sampled nesting levels; messages, line numbers, counts and the code of all other lines are compared with the model.'),
 'C10': (T + '; torn source files', 'Sources and includes cut at sampled bytes; the model tells whether a block is open there.'),
 'C11': (T + '; storage damage, under AddressSanitizer and bounds checking', 'Damaged sources run in an instrumented build under a step bound.'),
 'C12': (T + '; failing allocations', 'A sampled allocation, or all from a sampled one on, fails.'),
 'C13': (T + '; descriptor accounting and descriptor limits', 'Invariant on the open descriptors after each event of a run; assemblies under the smallest sufficient descriptor limit must be exact.'),
 'C14': (T + '; invariant over all file system operations', 'Every operation of every run that changes the file system is checked, with faults of all kinds.'),
 'C15': (T + '; differential runs in different environments and builds', 'Two runs of one assembly with different memory contents, addresses, chunk sizes, clock, environment and compiler builds must give identical outputs.'),
 'C16': (T + '; failing writes on the listing', 'A sampled write on stdout or stderr fails; code file and exit status are compared with the undisturbed run.'),
 'C17': (T + '; seeded scheduler over 2 to 4 processes', 'Processes sharing a directory are interleaved at every system operation by the seeded scheduler; each result is compared with that of a run alone.'),
 'C18': (T + '; consistency of all outputs', 'Exit status, summary, messages and code file of each run are compared with one another, with faults of all kinds.'),
 'C19': (T + '; listing compared with the code file and with the model, line by line', 'Lines, numbers, addresses, bytes and values in the listing of each sampled run are compared with the model\'s and with the decoded code file.'),
 'C20': (T + '; symbol table compared with the model', 'Names, values and kinds in the symbol table of each sampled run are compared with the model.'),
 'C21': (T + '; sequences of assemblies with faults and kills, then an undisturbed one', 'Each assembly of a history starts from the simulated files the one before left; the state after each and the result of the undisturbed ones are compared with the same assembly in a fresh directory.'),
 'C22': (T + '; differential runs with other options', 'Two runs of one assembly under equal faults but with different options and environments must agree in everything the options do not control.'),
 'C23': (T + '; warnings compared with the model, line by line', 'The warnings in the listing of each sampled run, their place, number and the count in the summary are compared with the model\'s, with values at and beyond every limit.'),
}
PURE = ('Pure function of the source text, with no I/O, time, schedule, crash or fault that it depends on: a simulator has nothing to decide here beyond '
        'feeding inputs, which would be input generation under another name. ')
NA = {
 'C30': PURE + 'The instructions are only exercised as cargo: the reference model of C01 encodes them and would notice a change.',
 'C31': PURE + 'Expressions are exercised as operands in the programs of C01.',
 'C32': PURE + 'Macros with parameters occur in the programs of C01.',
 'C33': PURE + 'Conditionals occur in the programs of C01 and C10.',
 'C34': PURE + 'Labels of all kinds occur in the programs of C01 and C08.',
 'C35': PURE + 'Lines, numbers, bytes, values and symbols in the listing are decided by C19 and C20, losses of the listing by C16; what is left is layout.',
 'C36': 'Parsing of the argument vector happens before the first I/O operation and depends on nothing a simulator controls.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in N and i not in NA:
        t, n = N[i]
        checks.append({'property': i, 'quick_cmd': f'./check.sh {i} quick', 'thorough_cmd': f'./check.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': t, 'level': 'exploration', 'level_note': n + COMMON})
    else:
        na.append({'property': i, 'reason': NA[i]})
m = {'version': 1, 'setup_cmd': './build.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: the seam is the C library interface. build.sh compiles crasm\'s unchanged sources and renames the symbols of the C library '
              'functions that do I/O, allocate, end the process or read the time (objcopy --redefine-syms), so that they bind to the simulator. '
              'Replay: build/simcheck --replay FILE (build/simsan for C11).'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
