"""Every check: the executables it needs and the explorations (modes) it runs."""

RESPONSE = ['src/GraphQLResponse.cpp', 'src/Base64.cpp']


def H(name):
    import build, os
    return os.path.join(build.VERIF, 'harness', name)


# The whole service library with the mock service whose resolvers record what they see.
SERVICE = [H('svc_mock.cpp'), 'src/SyntaxTree.cpp', 'src/GraphQLService.cpp', 'src/Validation.cpp', 'src/Introspection.cpp',
           'src/IntrospectionSchema.cpp', 'src/Schema.cpp'] + RESPONSE


JSON = ('src/JSONResponse.cpp',)


def service(harness, mode, variant='plain', more=(), **kw):
    return dict({'name': harness, 'units': [H(harness + '.cpp')] + SERVICE + list(more), 'mode': mode, 'variant': variant}, **kw)


CORE = [u for u in SERVICE if not u.endswith('svc_mock.cpp')] + list(JSON)


def conv(mode, variant='plain'):
    return {'name': 'h_conv', 'units': [H('h_conv.cpp')] + [(H('conv_inst.cpp'), ('-O0', '-DCONV_TYPE=%d' % n)) for n in range(1, 11)] + CORE + ['src/GraphQLClient.cpp'], 'mode': mode, 'variant': variant}


def conc(mode):
    """Under the controlled scheduler. Units which are not instrumented come last: the linker keeps the first copy of an inline function."""
    units = [H('h_conc.cpp')] + [u for u in SERVICE if u != 'src/SyntaxTree.cpp'] + ['src/JSONResponse.cpp', (H('fibers.cpp'), ('-fno-sanitize=thread',)), 'src/SyntaxTree.cpp']
    return {'name': 'h_conc', 'units': units, 'mode': mode, 'variant': 'sched'}


ALL_OPTIONS = [[o for i, o in enumerate(('--separate-files', '--no-stubs', '--no-introspection')) if n >> i & 1] for n in range(8)]


def generated(mode, names, variants, again=False):
    import gen
    units, bad = gen.services(names, variants)
    if again:
        bad += gen.repeatable(names, variants)
    return [{'name': 'h_gen_' + mode, 'units': [H('h_gen.cpp')] + units + SERVICE + list(JSON), 'mode': mode, 'variant': 'plain'}], bad


def clients():
    import gen
    units, bad = gen.clients()
    loader = [(u, ('-DUSE_STD_FILESYSTEM',)) for u in ('src/RequestLoader.cpp', 'src/SchemaLoader.cpp', 'src/GeneratorLoader.cpp')]
    st = {'name': 'h_client', 'units': [H('h_client.cpp')] + units + loader + CORE + ['src/GraphQLClient.cpp'], 'variant': 'plain'}
    return [dict(st, mode=m) for m in ('c02', 'c02load', 'c02valid')], bad


CHECKS = {
    'R03': {'stages': [{'name': 'base64', 'units': [H('h_base64.cpp'), 'src/Base64.cpp'], 'variant': 'asan', 'mode': 'base64'}],
            'bounds': 'all byte strings of length <=2 (thorough: 3), lengths <=7 (8) over 6 boundary bytes; all texts of length <=6 (7) over 12 characters, <=8 (10) over 5; all 256 bytes at each position of 14 texts; lengths to 300 (thorough 2100)'},
    'R04': {'stages': [{'name': 'sorted', 'units': [H('h_sorted.cpp')], 'variant': 'asan', 'mode': 'sorted'}],
            'bounds': 'complete reachable state space over 4-8 keys and 2 values, every operation from every state; 6-40 keys inserted and erased in every cyclic order (start, stride); every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of keys'},
    'R01': {'stages': [{'name': 'value', 'units': [H('h_value.cpp'), 'src/JSONResponse.cpp'] + RESPONSE, 'variant': 'asan', 'mode': 'value'}],
            'bounds': 'two values, 60+ operations, breadth-first to depth 5 (thorough 6) over distinct model states of at most 6 (9) nodes per value; maps of 1-7 members inserted in every order and of 8-40 in every cyclic order, with duplicates; lists up to 40; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of members and elements'},
    'R02': {'stages': [{'name': 'value', 'units': [H('h_value.cpp'), 'src/JSONResponse.cpp'] + RESPONSE, 'variant': 'asan', 'mode': 'json'}],
            'bounds': 'all leaf kinds with boundary contents, all strings of length <=3 (4) over 14 character classes, all containers of <=2 leaves and pairs of them, depth <=40, doubles around every power of 2 and 10, all valid texts of <=6 (7) tokens; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of characters, elements, members and levels'},
    'P01': {'stages': [{'name': 'parse', 'units': [H('h_parse.cpp'), 'src/SyntaxTree.cpp'], 'mode': 'exec'}],
            'bounds': 'all token sequences of length <=4 (thorough 5) over 26 tokens; all viable token sequences of <=7 (9) tokens and every way to leave them; one (two) token edits of 15 base documents; every name and word of them replaced by ~250 words which resemble one of the grammar; every ignorable text in every gap (pairs of gaps); all character strings of length <=4..7 in 6 contexts; all byte values in 10 contexts; nesting to 64; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of repetitions of each repeatable part of a document'},
    'P02': {'stages': [{'name': 'parse', 'units': [H('h_parse.cpp'), 'src/SyntaxTree.cpp'], 'mode': 'sdl'}],
            'bounds': 'all token sequences of length <=3 (thorough 4) over 34 tokens; all viable token sequences of <=5 (6) tokens, from 17 beginnings of definitions <=5 (7) further tokens, and every way to leave them; one (two) token edits of 43 base documents that cover every production; every name and word of them replaced by ~250 words which resemble one of the grammar; every ignorable text in every gap; all strings of <=4 (5..7) characters in descriptions and default values; all byte values in 4 contexts; nesting to 64, 40 nested list types in bounded time; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of repetitions of each repeatable part of a definition'},
    'P03': {'stages': [service('h_exec', 'p03')],
            'bounds': 'all strings of <=3 (thorough 4) of 24 atoms; every code point of the basic plane as escape (both cases) and as itself; all block strings of <=5 (6) of 10 pieces and <=7 (9) of 3; 100+ integers, all combinations of 7 mantissas x 8 fractions x 12 exponents; all literal trees of <=4 (5) nodes over 8 leaves; depth <=60'},
    'V01': {'stages': [service('h_valid', 'v01')],
            'bounds': 'one schema with every kind of type; every single token edit (61 tokens; thorough: pairs over 22) and every token run left out or repeated in 23 base requests; every literal of <=3 levels at every argument; 12 named types x 8 wrappers x defaults at 120 variable positions, also through a fragment; all spread graphs over 3 fragments; every type condition pair in 11 parents; all pairs of 35 directive uses in 16 places; all triples of 29 definitions; every field name in 15 parents; all pairs (thorough: triples) of 30 selections in 6 holders for merging; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of selections, fragments, variables, arguments, members and levels'},
    'V02': {'stages': [service('h_valid', 'v02'), service('h_valid', 'v02pairs', 'asan'), service('h_valid', 'v02cold', 'asan')],
            'bounds': 'all histories of 2 requests (4 kinds of use) and of 3 requests over a corpus of 73 requests covering every rule, on 3 services; every request first on a fresh service, and every two, under ASan; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of requests repeated on one service'},
    'E01': {'stages': [service('h_exec', 'e01')],
            'bounds': 'all selections of <=3 nodes from menus of 4-16 entries per type, of 4 (thorough 5) nodes from smaller menus, with up to 2 of 5 skip/include forms under all assignments of two variables; all chains of <=5 (6) wrappers (8 kinds of fragments and fields) with one or two conditions at every place; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of selections, spreads, fragments and nested levels'},
    'E02': {'stages': [service('h_exec', 'e02')],
            'bounds': '17 argument types x literals; one variable at 44 positions x {nullable, non-null} x every default x every supplied value, missing or null, with undeclared variables; two variables at 6 positions x 12 declarations in both orders; two operations with variables of their own; each reached in 6 ways; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of variables, list elements, members and characters'},
    'E03': {'stages': [service('h_exec', 'e03')],
            'bounds': '12 documents, every pair (thorough: triple, and every subset of <=14 points) of failing fields and objects x 6 ways for accessors, 2 for objects x 3 kinds of results; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of list elements and levels before the failing one'},
    'E04': {'stages': [service('h_exec', 'e04')],
            'bounds': 'all chains of <=2 (thorough 3) of 7 kinds of fragments x 5 directive sets at each spread, field and operation x 4 surroundings x 2 types; chains of one kind to length 4 (6); 3 assignments of the variable; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of fragments in a chain and directives'},
    'E07': {'stages': [service('h_exec', 'e07')],
            'bounds': 'all documents of <=3 (thorough 4) operations of 5 kinds x 6 names, fragment at every place, 9 requested names, deferred and async; a service without mutation and subscription; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of operations, fragments and characters of names'},
    'S01': {'stages': [service('h_sub', 's01', more=JSON), service('h_sub', 's01small', 'asan', more=JSON)],
            'bounds': 'all histories of 4 (thorough 5) of 29 operations (synchronous and asynchronous subscribing of 11 documents and of 9 that must be refused, removing by position, twice and unknown, events with and without an object), of 6 (7) of 9 core operations, responses read at once and after everything is gone; every order of removing 6 (7) of 7 subscriptions; every set of 1-8 (10) subscriptions removed in 3 orders and followed by as many new ones, twice; callbacks which subscribe, remove and deliver; ASan on depth 3; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of subscriptions with one removed at the first, middle and last places'},
    'S02': {'stages': [service('h_sub', 's02', more=JSON)],
            'bounds': 'root fields with Int, String, Boolean, enum, list, custom scalar and input object arguments; each argument absent, a literal, a variable supplied, defaulted, overridden, missing or read from JSON; 11 forms of directives; 5 ways to reach the root field; against every combination of argument and directive filters, by map and by callback'},
    'S04': {'stages': [service('h_sub', 's04', 'asan', more=JSON)],
            'bounds': '14 subscriptions x deferred and async launch x 0-2 other subscriptions x 9 x 9 faults (begin, end, accessor, future) x 3 kinds of results; responses held over 6 kinds of removal'},
    'I01': {'stages': [service('h_intro', 'i01')],
            'bounds': 'every wrapping of <=3 (thorough 4) list levels of 11 types in 4 places; every deprecation pattern of <=3 (4) members with every form of includeDeprecated; all 512 relations of 3 objects, 2 interfaces and a union in 2 orders; every directive location, pair and prefix; 10 x 10 defaults x 4 descriptions; all root combinations with and without introspection against 14 requests; 720 orders of definitions; every pair of the fields of __Type on every kind'},
    'A01': {'stages': [conv('a01')], 'bounds': 'the 6 built-in types x every nesting of list and nullable of depth <=4 and one of 5 against every value of a universe of trees of 2 (thorough 3) list levels over leaves of all kinds, conforming trees of the full depth, lists of 3-66 with one odd element at every place, missing in 3 surroundings; require and every find overload'},
    'A02': {'stages': [conv('a02')], 'bounds': '10 types (6 built-in, enum, object, derived object, interface) x every nesting of list and nullable of depth <=3 and two longer; every tree of <=6-7 (thorough 8-9) nodes by value, ready and deferred future; trees of <=4 (6) nodes by 4 kinds x deferred and async; lists of 8-130 elements at each level; the wrong selection for every tree of <=5 (6) nodes'},
    'C01': {'stages': [conv('c01')], 'bounds': 'the 6 built-in types x every nesting of depth <=4 and one of 5; every tree of <=6-7 (thorough 8-9) nodes as variable and as response, directly and through JSON; leaves of every other kind; 325+ forms of errors (messages, locations, all paths of <=3 segments, all member orders, unknown members), pairs of them, all member orders of the response; 1,000+ errors written by the service'},
    'E05': {'stages': [conc('e05')], 'bounds': '1,983 scenarios (11 queries x 5 ways results arrive x 3 launch policies, every assignment of the ways to the fields of 5 queries, every field failing in 6 ways, fragments, directives, variables, introspection, responses that nobody awaits); every schedule of each with <=2 (thorough 3) preemptions, above 3 threads with <=2 (3) departures from the default order; 18 scenarios with every reference count operation as a scheduling point and 1 (2); every access of every schedule checked for races and use after free'},
    'E06': {'stages': [conc('e06')], 'bounds': '1,625 scenarios (14 mutations x 5 ways results arrive x 3 launch policies, every assignment of the ways to the fields of 4 mutations, every field failing in 6 ways); every schedule with <=2 (thorough 3) preemptions'},
    'S03': {'stages': [conc('s03')], 'bounds': 'all pairs of 12 calls from 4 starting states, 10 x 12 and 10 x 10 two-call programs from 2 states, all triples of 6 calls; every schedule with <=2 (thorough 3; larger programs 1 and 2) preemptions, programs with asynchronous calls with as many departures from the default order; outcome compared with every sequential order'},
    'T01': {'stages': [conc('t01')], 'bounds': 'all pairs of 25 jobs (11 validations, 9 requests, 4 wrappings, a lookup), 130 pairs with the parser in the threads, all triples of 10 jobs; every schedule with <=2 (thorough 3; introspection, parser and triples 1) preemptions, jobs with asynchronous launch with as many departures from the default order'},
    'G02': {'stages': [{'name': 'h_load', 'units': [H('h_load.cpp'), 'src/SchemaLoader.cpp', 'src/GeneratorLoader.cpp'] + CORE, 'mode': 'g02', 'variant': 'plain'}],
            'bounds': 'every wrapping of <=3 (thorough 5) list levels of 15 types in 15 places; 42 literals x 70 types x places of defaults; descriptions x directives x 25 places; all orders and subsets of 9 sets of definitions and extensions, 10 names x 12 extensions; all graphs of 3 (x 4 wrappings) and of 4 input types, all orders of chains of 6 (7); 12^3 x 8 combinations of roots; all names of <=4 (6) characters over _Aa1; pairs of directive locations; every single token edit (46 tokens, runs left out, swaps; thorough pairs) of 6 texts'},
    'G01': {'make': lambda tier: generated('g01', ['s%d' % n for n in range(1, 12)] + ['x2', 'x3'], [[]]),
            'bounds': '11 schemas: every wrapping of <=2 list levels of the 5 built-in types, scalar, enum, object, interface and union as result, of the 5 built-in types, scalar, enum and input object as argument and as input field, 110+ defaults of every type in both places, enums of 1-31 values, names with underscores and C++ keywords, texts which end raw string literals, extensions out of order, a mutation type with interfaces; every field x every value of its arguments (each member of input objects with each of its values, several arguments in every order and subset, wrong values) as literal, variable, default of a variable, JSON variable and variable inside a value; every field failing in 6 ways, null where allowed, 4 kinds of results x 2 launch policies; all pairs of type conditions on every abstract field; introspection of everything'},
    'G03': {'make': lambda tier: generated('g03', ['s7', 's10'] + (['s1', 's2', 's4', 's5', 's6', 's8', 's9', 's11'] if tier == 'thorough' else []), ALL_OPTIONS, True),
            'bounds': '2 (thorough 10) schemas with every kind of type x all 8 combinations of separate files, stubs and introspection; each with the same requests as G01; the generator run twice for each'},
    'C02': {'make': lambda tier: clients(), 'bounds': '47 generated clients: 10 kinds x every wrapping of <=2 list levels as result and as variable, all ordered pairs of 14 selections of an interface and of 10 of a union, introspection, fragments, several operations, C++ keywords as names, odd texts; every variable and response value with <=2 (thorough 3) departures from the default; in-process: all tuples of <=3 (4) of 17 and 12 selections, wrappings of <=3 (4) list levels, all pairs of 13 operations x 6 requested names, all relations of 3 input types, every single token edit (59 tokens) of 6 requests, all quick document families of V01'},
    'E08': {'stages': [service('h_exec', 'e08')],
            'bounds': 'all selections of <=3 nodes from menus of 4-16 entries per type, of 4 (thorough 5) nodes from smaller menus, with up to 2 of 5 skip/include forms under all assignments of two variables; all chains of <=5 (6) wrappers (8 kinds of fragments and fields) with one or two conditions at every place; every number <=20 and every 2^k-1..2^k+1 up to 256 (thorough 1024) of selections, spreads, fragments and nested levels'},
}


NOT_CLAIMED = {}
