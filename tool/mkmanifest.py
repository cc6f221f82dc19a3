#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMS = {
    'C01': ('abstract interpretation of every public member over its control-flow graph, storage ownership domain (assume-guarantee)', 'proof',
            'All public members of the mutable types; standard containers by model; loops entered at most twice per path.'),
    'C02': ('abstract interpretation of every public mutator with the finalized alternative active, plus a cast lint over the whole library', 'proof',
            'All public members of the dual-mode type and its typed wrappers; standard containers by model.'),
    'C03': ('exception-escape fixpoint over the call graph plus path interpretation of every exported function with every library call raising each error class', 'proof',
            'All exported C functions in three sources; library code is one step that returns or raises; failing to record the message for lack of memory is excluded.'),
    'C04': ('path interpretation of every exported function with every library call raising each error class and every tag valid or not', 'proof',
            'All exported C functions in three sources; library code is one step that returns or raises.'),
    'C05': ('abstract interpretation of every validator and its dispatch over a linear address domain (Fourier-Motzkin), nested validations by assume-guarantee', 'proof',
            'Both error modes of every validator and the public entry points; the range may be any size and its bytes anything; tables of up to two entries per path, each entry being treated alike.'),
    'C06': ('abstract interpretation of every validator (what yes implies) and of every reading function of the layouts under exactly those facts, linear address domain', 'proof',
            'Assume-guarantee between validation and reading; acceptance followed for tables of up to two entries, a key search for up to three probes.'),
    'C07': ('abstract interpretation of every typed accessor in every representation and dynamic type', 'proof',
            'All public members of the object, array, string and number types over all wire tags and alternatives; buffer contents are unknown bytes.'),
    'C08': ('exception-escape fixpoint over the call graph, then path interpretation of every non-throwing function an error could reach', 'proof',
            'All functions declared not to throw in the instantiated library; a few whose paths exceed the state limit are listed as not decided.'),
    'C09': ('abstract interpretation of every ordering, prefix comparison and key search over a two-key relational domain', 'proof',
            'Every ordering given to a sort or map, the table entry comparison, the key search and the string view comparisons.'),
    'C10': ('backward tracing of every character pointer measured up to a NUL, across casts, locals and calls', 'proof',
            'All calls in the instantiated library and C interface; bare character pointers given by the user are C strings by contract.'),
    'C11': ('record layouts extracted by the compiler under seven configurations (little and big endian, 32 and 64 bit) plus abstract interpretation of the byte order wrapper', 'proof',
            'Every structure laid over buffer bytes and every raw use of its fields; tags and alignments pinned to the published table.'),
    'C12': ('abstract interpretation of every dispatch on a wire tag once per tag, and of every tag chooser jointly with its writer, against the published table', 'proof',
            'All functions taking a tag or a raw element, all writers of values and table entries, all readers of entries; loops entered at most twice per path.'),
    'C15': ('effect analysis: every static variable and mutable member, and abstract interpretation of every operation that promises not to change its operands', 'proof',
            'All const members and functions of constant references in the instantiated library and all exported C functions of constant operands; standard containers by model; a few whose paths exceed the state limit are listed as not decided.'),
    'C16': ('abstract interpretation of every smart pointer operation over ownership scenes (aliasing, null, extra owners), counting owners against counts', 'proof',
            'All operations of the three intrusive pointers, the view pointer and the configurable pointer over three counters; standard pointers by model; single threaded.'),
    'C13': ('path interpretation of every buffer allocation with value numbering of sizes, plus padding of every laid out type from compiler record layouts', 'proof',
            'Every function that allocates aligned memory for a buffer; fills recognised as the standard algorithms, memset or a counting loop.'),
    'C17': ('typestate over every path, normal and by error, of every function that acquires memory, parser objects or argument lists by hand', 'proof',
            'All three C sources and the instantiated library; every library call may raise; loops entered at most twice per path.'),
    'C19': ('abstract interpretation of every wrapper constructor, assignment, mutator and factory over the dynamic types of their source', 'proof',
            'All wrapper types instantiated from every accepted source; a few value mutators whose paths exceed the state limit are listed as not decided.'),
    'C20': ('compile-fail witnesses decided by overload resolution over generated uses, with accepted controls', 'proof',
            'Every mutator by several key and value forms, every lookup form, every pair of owning and view type, three reference counters.'),
    'C22': ('path interpretation of every function driving a parser, for each outcome a parser call can have', 'proof',
            'rapidjson, libyaml, strtoll and strtod; full, partial (embedded null) and failed parses; loops entered at most twice per path.'),
    'C31': ('abstract interpretation of both readers over every event sequence of the parser grammar up to a bound, values known by structure', 'proof',
            'Up to 5 (thorough: 6) values with their keys and 4 levels per document; events by the grammar libyaml and rapidjson document.'),
}
NA = {
    'C25': 'equality of a printed and reparsed value quantifies over text and numbers that no structural rule bounds; needs execution or symbolic reasoning about the grammar',
    'C26': 'a statement about numeric results over all integers and doubles, not about the shape of the code (the width selection and tag tables are covered by C12)',
    'C27': 'reflexivity, symmetry and transitivity of a recursive runtime comparison over all value pairs; no sound structural argument covers the recursion and numeric conversions',
    'C28': 'exactly-once visiting depends on runtime iterator positions and counts; deciding it statically needs a relational invariant over loop state',
    'C29': 'quantifies over thread schedules of the reference counter; the standard shared_ptr is trusted and the library adds no synchronisation of its own to analyse',
    'C30': 'recursion depth and work depend on the input; the code has unbounded recursion by design, and no static bound in reach exists',
}
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        t, _, note = CLAIMS[i]
        lv = re.search(r"^LEVEL = '(.*)'", open(H + '/dartcheck/rules/%s.py' % i.lower()).read(), re.M).group(1)
        checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i, 'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                       'technique': t, 'level': lv, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check built yet')})
m = {'version': 1, "setup_cmd": "python3 -c \"from dartcheck.core import build_extractor; build_extractor()\"", 'checks': checks, 'not_applicable': na}
open(H + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
