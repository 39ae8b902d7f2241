#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json (python3 tools/gen_manifest.py)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = ("Trusts the reference construction (mc/src/lang.rs, plain subset construction and partition refinement; "
       "mc/src/utf8.rs, validated against std over all scalar values) and, inside one reference byte class, "
       "one to three stepped representatives unless noted. ")
T = {
 'C01': ('explicit-state exploration of the product of the real matcher with a reference automaton, over every expression up to a size bound',
         'For each enumerated expression the product of real matcher states and reference states is closed, which decides acceptance for all byte strings; expressions are all terms up to size 4-5 (quick) plus exhaustive parameter sweeps. '),
 'C02': ('exhaustive enumeration of small pattern strings; product of the matcher with a reference automaton built from an independent pattern meaning (anchors included)',
         'All patterns of a small grammar up to a depth; per pattern the state product is closed. '),
 'C03': ('explicit-state exploration of the product of the real matcher with a reference for A(?P<stop>B), lookahead lengths compared in every state',
         'All pairs of small terms as A and B plus pattern forms; product closed or bounded by string length, bound reported. '),
 'C04': ('explicit-state exploration: dead flag and always_empty compared with reachability of acceptance in every product state',
         'As C01, with lookahead expressions added. '),
 'C05': ('exhaustive enumeration of expression pairs and of every fuel value up to the threshold; answers compared with inclusion of reference automata',
         'All ordered pairs from term pools, every fuel value from 0 to the point of success. '),
 'C06': ('explicit-state exploration: hint of every reachable state compared with the reference and with the matcher transitions on all 256 bytes',
         'As C01, with lookahead expressions added. '),
 'C07': ('stateless enumeration of all query sequences up to a depth (steps, acceptance, hints, export, clone and switch), replayed on the real matcher against the reference automaton',
         'Every sequence over the operation alphabet up to the depth, for each expression of a pool; plus every product state under several complete exploration orders. '),
 'C08': ('stateless enumeration of all builder operation sequences up to a depth (build, compile, quote, failing requests, clone), each result checked against reference languages',
         'Every sequence over the operation alphabet up to the depth. '),
 'C09': ('explicit-state exploration over all 256 bytes, with and without the compress feature, plus exhaustive sweep of alphabet sizes',
         'Every byte is stepped in every state; alphabets of every size 1..256 and up to 130 byte sets; both builds. '),
 'C10': ('explicit-state exploration of the quoted matcher against a reference JSON-encoding transducer, over all 256 escape sets',
         'Product closed for each (expression, escape set, raw mode). '),
 'C11': ('explicit-state exploration of class patterns against a bit-layout UTF-8 reference automaton, stepping all 256 bytes',
         'Single-class patterns over boundary ranges, property classes, negation, case folding; product closed. Class contents of named properties and case folding come from regex-syntax tables, which are trusted. '),
 'C12': ('stateless enumeration of all insertion sequences up to a depth on the real interner against a list model, plus growth sweeps',
         'Every operation sequence up to the depth over a small vector alphabet; growth across hash-table resizes. '),
 'C13': ('explicit-state exploration of the exported table against stepping the matcher, all states and all 256 bytes, with every state count around the limit',
         'Table equality decided state by state from the initial state. '),
 'C14': ('exhaustive enumeration of build/query scripts, each executed in independent instances with different random hash seeds and compared observation by observation',
         'All scripts of the enumerated families; hash seeds themselves are not enumerated (two to four instances per script), so seed-dependent behaviour is detected with high probability per script rather than certainty. '),
 'C15': ('exhaustive enumeration of expressions and byte strings; a positive answer is compared with inclusion of reference automata',
         'All terms up to size 4 times all strings up to length 3 over the letters, plus longer literals. '),
 'C16': ('explicit-state exploration to a fixpoint of the lazily built automaton, hang supervision per case',
         'State exploration must close below a cap for every enumerated expression. '),
 'C17': ('enumeration of deep and large expression shapes by size, each run in a child process on a bounded stack and compared with closed-form answers',
         'Sizes up to 10^5..10^6 per shape; shapes are enumerated, sizes are a list. '),
 'C18': ('explicit-state exploration over every subset of small word lists in several orders, forms and contexts against reference tries',
         'All subsets of the 15 words of length at most 3 over two letters, all orders of up to 5 words, chains to depth 300. '),
 'C19': ('exhaustive enumeration of byte-set operation trees over alphabets of every size class, compared with set arithmetic',
         'All set operations over all subsets of small alphabets; boundary alphabets up to 256 with structured sets. '),
 'C20': ('exhaustive enumeration of flag combinations and set/unset histories; product of each matcher with a reference per flag table',
         'All 32 flag combinations times a pattern table, all toggle histories up to a depth. '),
 'C21': ('explicit-state exploration of low-level derivatives with shared caches in all query orders against reference automata',
         'All ordered lists of small expressions compiled together; derivative graphs closed. '),
 'C22': ('exhaustive enumeration of tree shapes and error positions, visit log compared with a recursive model',
         'All ordered trees up to a size, every error position, deep chains. '),
 'C23': ('exhaustive enumeration of expressions and length limits; output and cost bounds and injectivity checked for every pair',
         'All terms up to size 4, every limit up to the full length, exponentially shared graphs. '),
 'C24': ('exhaustive enumeration of the hint value table (pairs and triples) and explicit-state exploration of joint state graphs of two or three real matchers',
         'The value table is complete (259 values). Joint graphs are closed, with what the union and intersection can still do computed on the graph itself; lookahead pairs are cut at 1000 joint states. '),
 'C25': ('exhaustive enumeration of patterns, expressions, spellings and texts; joint state graphs of the matchers obtained by different routes are closed and compared state by state',
         'All small patterns and expressions times all listed routes and spellings; all texts up to length 4 over a small alphabet with every split. The oracle is agreement between routes. '),
 'C26': ('exhaustive enumeration of expressions and of every subset of already cached answers; the visit log is compared with the graph',
         'All terms up to size 4-5, every subset of up to six cached nodes, both concatenation settings; deep and exponentially shared graphs. '),
 'C27': ('explicit-state exploration in three orders with the reported numbers checked after every single query',
         'All terms up to size 4 and parameter sweeps; up to 250 states per expression. '),
 'C28': ('exhaustive enumeration of byte strings up to a depth over every lookahead expression; the estimate is compared with every length reported later in the tree and with the reference positions',
         'All pairs of small terms as A and B, unions, all strings up to length 6 (8 for some). '),
 'C29': ('explicit-state exploration of the derivative graph of directly constructed expressions together with a reference automaton confined to the alphabet',
         'All terms up to size 4 over twelve alphabet sizes, size 5-6 over two, nine expressions over every size 1..256, all argument lists up to length 3 over ten operands. '),
}
CLAIMED = os.environ.get('CLAIMED', '').split() or open(os.path.join(V, 'tools/claimed.txt')).read().split()
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    t, n = T[i]
    if i in CLAIMED:
        lang = i not in ('C12', 'C14', 'C19', 'C22', 'C24', 'C25', 'C26', 'C27')
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
                           evidence_file=f'evidence/{i}.json', technique=t, level='model_checking',
                           level_note=n + (REF if lang else '') + 'Nothing is claimed beyond the bounds recorded in the evidence file.'))
    else:
        na.append(dict(property=i, reason='check not built yet'))
m = dict(version=1, setup_cmd='./check.sh build', checks=checks, not_applicable=na,
         notes='No hooks: every check drives the public API of /repo. Exit codes: 0 held, 1 violation, 2 the check itself failed.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
