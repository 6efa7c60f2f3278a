#!/usr/bin/env python3
"""Writes DESIGN.md: the text below, the bounds from props.py, the defects from
known_findings.json and the planted bugs from seeded/ (verdicts in catches.json)."""
import json,os,sys,glob
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0,os.path.join(V,'tools'))
import props
T={d['id']:d for d in map(json.loads,open(os.path.join(V,'properties.jsonl')))}
HEAD='''# Solver-based checking of CXMLTestFramework

This file is written by tools/mkdesign.py (text, bounds from tools/props.py, defects from
known_findings.json, planted bugs from seeded/).

## The method

Every property is decided by bounded symbolic execution of the real code:

1. **Encoding.** tools/vp.py compiles the anchored sources of /repo (the working tree, unchanged,
   no hooks) together with one harness from harness/ and the run-time model rt/ to LLVM bitcode
   (clang 18, -O1, with checks for undefined arithmetic). Nothing of /repo is cached between runs.
2. **Execution.** engine/symx.cpp runs one entry function of the harness on that bitcode. Inputs that the
   harness asks for (bytes, integers, floating-point numbers, choices) are symbolic. At a
   branch on a symbolic condition both sides are followed if both are feasible; every memory
   access is checked for bounds, lifetime and initialisation; divisions, shifts, overflow,
   unreachable code, leaks and (where enabled) data races are checked as well.
   Feasibility and assertions are decided by Z3 over bit-vectors and IEEE
   floating point (engine/solver.h). Branches whose condition depends on one input byte are decided over
   the exact set of that byte's 256 values, which is the same decision procedure without the call.
3. **Verdict.** `symx_check(c)` in a harness asks the solver for a value of the inputs on this path with !c.
   If there is none on any path, the property holds for every value within the bounds. If there is one, the model is
   a counterexample.
4. **Confirmation.** Each counterexample is replayed on the real code: the same harness compiled natively
   with AddressSanitizer and UBSan against the real C++ library, Expat, ITK and file system (a scratch directory,
   an unprivileged user when run as root). Races are replayed under ThreadSanitizer. Only a confirmed counterexample is
   a VIOLATION (exit 1); an unconfirmed one, an unsupported construct, a time limit or a
   vacuous entry (an end that no path reaches) gives "inconclusive" (exit 2), never a pass.
5. **Conformance.** In every run models of paths that passed (24 quick, 200 thorough) are replayed on the native build; the
   observations the harness makes have to be equal. This cross-checks engine and models against the real thing.

`python3 tools/vp.py check Cxx quick|thorough`, `… replay FILE` (repeats a counterexample), `… setup` (builds engine and
run-time model). evidence/Cxx.json lists functions encoded, bounds, paths, queries, solver time, and per-instance figures.

Why this reaches what the tests cannot: the tests run a handful of fixed values; here each path stands for every
input that takes it, and all of them are followed, so a defect that needs one particular byte, length, digit
count, permission, read failure or order of calls within the bounds is found, whatever it is.

## What is trusted

* The engine, clang as front end, Z3 4.8.
* rt/libc.cpp, rt/stdcxx.cpp: C library and the out-of-line part of libstdc++ (streams, locale-free number output, list and
  tree nodes; the inline part of libstdc++ is executed as it is). Symbolic floating-point numbers are printed
  as tokens that stand for the correctly rounded decimal text, and read back accordingly (C30 decides digits).
  Allocation never fails. Sorting, strings, streams are the real header code.
* rt/mfs.h and rt/libc.cpp: a file system of files, directories, fifos, links and permissions (one unprivileged user).
* rt/expat.cpp: an XML parser with Expat's interface and (checked on replays) its verdicts for the documents in C13's bounds.
* The process library for C25 (its documented interface: any interleaving, any end).
* rt/itk.cpp: ITK's out-of-line part (objects, pipeline, threader, image IO base); ITK's templates (images, iterators, readers,
  writers, filters) are executed as they are. The threader runs work units one after another, and the engine's race detector
  checks that no work unit reads or writes what another one writes without a lock, so the order does not matter.
  Image formats are replaced by a reader/writer in harness/imageio.h that delivers stored pixels or fails.
* Small-integer folding: floating-point operations on values known to be small integers are computed as integers.
* Oracles are written independently in the harnesses (a reference XML reader harness/xmlread.h, a reference
  diff checker, the file system's own answers, plain loops over pixels).

Bounds are not proofs. Where the code is uniform beyond a bound (loops per character, per component, per measurement), that is
said in the "outside" entry; no claim is made there.
'''
HOW={
'C01':'Symbolic bytes are encoded and decoded with every option; the result has to be the input, and every write has to stay in the buffers the length functions announce.',
'C02':'The encoding of symbolic bytes is compared with an independent RFC 2045 encoder (alphabet, padding, line breaks, terminator).',
'C03':'Symbolic texts: the validity check must be the documented grammar, and decoding must accept exactly those texts.',
'C04':'The printed difference of two symbolic texts is parsed and applied to the first text; the result has to be the second one.',
'C05':'The number of added and deleted lines is compared with the longest common subsequence computed by dynamic programming; an empty report exactly for equal texts.',
'C06':'A printed measurement is read by the reference XML reader: name, attributes and text must come back.',
'C07':'A sequence of measurements is recorded by a run and replayed by another: no mismatch, success, nothing printed.',
'C08':'Symbolic baselines and tests: the count, the verdict of each measurement and the exit status are compared with a reference matcher (also past 255 mismatches).',
'C09':'The documented relation is evaluated in IEEE arithmetic for symbolic operands and tolerance and compared with the verdict. One query covers all doubles on a path.',
'C10':'For each number of digits: symbolic long values are printed, read back, compared and run through a recording.',
'C11':'Whole argument vectors of symbolic bytes against the documented option grammar, including what is left for the test, the effects, and bounds of argv.',
'C12':'Exceptions of every kind at every stage, symbolic return and expected values: exit status zero only if the run completed and agreed.',
'C13':'Documents with symbolic holes are fed through the whole baseline reader; the reference XML reader says what must be read, or that the run must fail.',
'C14':'The parser is replaced by a recorder; the pieces handed to it must be the file in order, the last marked final.',
'C15':'Two files of symbolic content, presence and permission; equal exactly if both are readable and byte-equal.',
'C16':'Histories of setters, copies and assignments with symbolic contents; both views against a reference after each step.',
'C17':'Laws over all symbolic paths: directory + last component rebuild the path, extension and base rebuild the name, joins, absolute paths.',
'C18':'Search lists over a file tree; the result is compared with trying the candidates in order.',
'C19':'Symbolic strings against an independent splitter.',
'C20':'Every type and every subset of overridden handlers: which one is called, with which object.',
'C21':'Symbolic pixels and threshold through the real ITK filter: output, count, sum and mean against plain loops; arbitrary divisions into work units, with the race detector.',
'C22':'Symbolic pixels, tolerances, geometry and read failures through the in-memory comparison, the comparison of files, the measurement visitor and whole record/compare runs, against plain loops.',
'C23':'Symbolic components of every geometry type are recorded and compared; names, order, values, and exactly one mismatch for one differing component.',
'C24':'Symbolic command lines, extensions and roots: names pairwise different, reproducible, of the documented form; two command lines that differ in any one byte get different hashes.',
'C25':'A model child produces pieces in any interleaving and ends in any way; recording, arguments and exit value are checked.',
'C26':'The whole program (its main is called) records and compares images with symbolic pixels, so that the tolerances in effect for each file show in the number of mismatches; wrong arguments must make it fail.',
'C27':'The reports of runs with symbolic measurements are parsed and compared with the expected list of reports.',
'C28':'Every kind of entry, permission and link; the answers are compared with the operating system\'s (access, stat, readdir) in the same model.',
'C29':'The recorded file is read by the reference XML reader and compared with the measurements made; open files at the end are counted.',
'C30':'The error of the printed text is bounded by the digits requested from the stream; the conversion itself is taken to round correctly.',
'C31':'The difference visitor runs on images with symbolic pixels, geometry, types and read failures; its report is parsed and compared element by element, the written pictures inspected, and a whole run must go on and count correctly.',
'C32':'Images with symbolic pixels and origin are measured in a run; the written files and the recording are inspected; a second run compares changed images with their baselines.',
}
out=[HEAD,'## The properties\n']
for i,d in T.items():
    out.append('### %s %s\n'%(i,d['title']))
    if i not in props.PROPS: out.append('Not claimed: %s\n'%props.NA.get(i,'')); continue
    P=props.PROPS[i]; b=P['bounds']; q=b if isinstance(b,str) else b('quick'); t=b if isinstance(b,str) else b('thorough')
    out.append('*How:* '+HOW.get(i,'')); out.append('*Harness:* '+', '.join(sorted(set('harness/'+g['harness'] for g in P['groups']))))
    out.append('*Bounds (quick):* '+q+'.'); 
    if t!=q: out.append('*Bounds (thorough):* '+t+'.')
    out.append('*Outside:* '+str(P.get('outside','nothing stated'))+'.\n')
TAIL=open(os.path.join(V,'tools','design_tail.md')).read()
out.append(TAIL)
out.append('## Defects found and repaired\n\nEach was shown on the real code; each repair is one "fix:" commit in /repo, and reverting it makes the check report again.\nThere is no known finding left unrepaired.\n')
for k in json.load(open(os.path.join(V,'known_findings.json'))): out.append('* '+k['line'].replace('fixed: property=',''))
out.append('\n## Planted bugs\n\nOne row per folder of seeded/: what it breaks, what it needs, and which check reports it (quick tier).\n\n| bug | property | needs | verdict |\n|---|---|---|---|')
C=os.path.join(V,'tools','catches.json'); C=json.load(open(C)) if os.path.exists(C) else {}
for f in sorted(glob.glob(os.path.join(V,'seeded','*','meta.json'))):
    n=f.split('/')[-2]; m=json.load(open(f)); out.append('| %s: %s | %s | %s | %s |'%(n,m['what_it_breaks'].replace('|','/'),m['property'],m['needs'].replace('|','/'),C.get(n,'not run yet')))
open(os.path.join(V,'DESIGN.md'),'w').write('\n'.join(out)+'\n')
