#!/usr/bin/env python3
"""Writes /verif/requests: a schema and the requests from which clientgen makes the clients that C02 explores."""
import itertools, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from gen_schemas import wraps
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'requests')
OUT = ['Int', 'Float', 'String', 'Boolean', 'ID', 'Color', 'Any', 'A', 'Node', 'U']
IN = ['Int', 'Float', 'String', 'Boolean', 'ID', 'Color', 'Any', 'In1', 'In2', 'Late']
SUB = {'A': ' { id a }', 'Node': ' { id }', 'U': ' { __typename ... on A { a } ... on C { c } }'}

SCHEMA = '''
schema { query: Query mutation: Change subscription: Events }
enum Color { RED _Odd a__b lower GREEN __X }
enum One { ONLY }
enum Unused { NOTHING }
scalar Any
interface Node { id: ID! name(n: Int): String peer: Node other: Other! list: [Node!] _Meta: Int kind: Color shared: Int! }
type A implements Node { id: ID! name(n: Int): String peer: Node other: Other! list: [Node!] _Meta: Int kind: Color shared: Int! a: Int deep: A! one: One }
type B implements Node { id: ID! name(n: Int): String peer: Node other: Other! list: [Node!] _Meta: Int kind: Color shared: Int! b: [String] deep: A! u: U }
type C { c: Float shared: Int! deep: A! us: [[U!]] }
union U = A | B | C
type Other { x__y: Int _Z: String! val: Any u: [U] more: Other last: Boolean! }
input Early { late: Late! lates: [[Late!]!] }
input Late { in2: [In2!]! one: One = ONLY }
input In1 { i1: Int! f1: Float = 1.5 color: Color! list: [[Int!]] nested: In2! nesteds: [In2!] opt: In2 early: Early }
enum Word { new default class_ int }
input Words { new: Int class: Word double: [Word!] operator: Words2 }
input Words2 { this: String! int: Float }
input In2 { s: String id: ID! b: Boolean any: Any _Odd: Int x__y: [Color] }
'''


def main():
    os.makedirs(D, exist_ok=True)
    for f in os.listdir(D):
        os.remove(os.path.join(D, f))
    idx = []
    s = SCHEMA + 'type Query {\n node: Node\n sure: Node!\n u: U\n us: [U!]!\n a: A\n'
    for b in OUT:
        s += ''.join(' %s_%d: %s\n' % (b.lower(), i, w) for i, w in enumerate(wraps(b)))
    for b in IN:
        s += ''.join(' v%s_%d(x: %s): Int\n' % (b.lower(), i, w) for i, w in enumerate(wraps(b)))
    s += ' words(x: Word, new: Words): Word\n namespace: A\n class: [Word!]!\n all(i: Int, n: String!, c: [Color!], in: In1, e: Early): Int\n}\ntype Change { set(in: In2!, one: One!): A drop: Boolean! }\ntype Events { changed(id: ID): Node tick: Int! }\n'
    open(os.path.join(D, 'c1.graphql'), 'w').write(s.lstrip())
    os.path.join(D)

    def req(name, text, ops=None, **kw):
        with open(os.path.join(D, name + '.graphql'), 'wb') as f:
            f.write(text if isinstance(text, bytes) else text.encode())
        for o in ops or ['']:
            idx.append(dict({'name': name + ('' if not o else '-' + o), 'schema': 'c1', 'request': name, 'op': o}, **kw))

    for b in OUT:
        req('out' + b.lower(), 'query Out%s {\n' % b + ''.join('  %s_%d%s\n' % (b.lower(), i, SUB.get(b, '')) for i in range(len(wraps(b)))) + '}\n')
    for b in IN:
        ws = list(enumerate(wraps(b)))
        req('var' + b.lower(), 'query Var%s(%s) {\n' % (b, ', '.join('$v%d: %s' % x for x in ws)) + ''.join('  f%d: v%s_%d(x: $v%d)\n' % (i, b.lower(), i, i) for i, w in ws) + '}\n')
    # selections: every ordered pair of items in one place, and with the second in a fragment
    node = ['id', 'x: name', '__typename', 'peer { id }', 'peer { shared }', '... on A { a }', '... on A { peer { _Meta } deep { a } }', '... on B { deep { peer { id } } shared }', '... { kind }',
            '...F', 'other { x__y }', 'list { name }', 'name @include(if: $yes)', '... on Node @skip(if: $no) { peer { name } }']
    union = ['__typename', '... on A { id deep { a } }', '... on A { deep { id } one }', '... on B { deep { kind } }', '... on C { c deep { other { last } } }', '... on Node { id peer { name } }', '...G', '...H @include(if: $yes)',
             '... on C { us { ...H } }', '... on U { ... on B { u { __typename } } }']
    frags = {'F': 'fragment F on Node { _Meta peer { kind } ...H }', 'G': 'fragment G on U { ...H ... on C { shared } }', 'H': 'fragment H on A { shared peer { ... on B { b } } }'}
    need = {'F': 'FH', 'G': 'GH', 'H': 'H'}
    n = 0
    for root, items in (('node', node), ('u', union)):
        pairs = [(a, b) for a in items for b in items if a != b] + [(a,) for a in items]
        for k in range(0, len(pairs), 28):
            part = pairs[k:k + 28]
            body = ''.join('  r%d: %s { %s }\n' % (i, root, ' '.join(p)) for i, p in enumerate(part))
            v = ', '.join('$%s: Boolean%s' % (x, d) for x, d in (('yes', '!'), ('no', ' = false')) if '$' + x in body)
            fs = sorted(set(f for x in 'FGH' if '...' + x in body for f in need[x]))
            req('sel%d' % n, 'query Sel%d%s {\n' % (n, '(%s)' % v if v else '') + body + '}\n' + ''.join(frags[f] + '\n' for f in fs))
            n += 1
    deep = 'fragment N on Node { id other { ...O } } fragment O on Other { u { ...V } more { more { _Z } } } fragment V on U { ... on B { u { ... on C { us { __typename } } } } ... on Node { peer { peer { kind } } } }'
    req('deep', 'query Deep { sure { ...N } us { ...V ...W } } ' + deep + ' fragment W on C { us { ... on A { one } ...X } } fragment X on B { list { list { shared } } }')
    req('multi', '# two of each\nquery First($x: Int) { v: vint_0(x: $x) }\nquery Second_One { node { id } ...R }\nmutation Second($in: In2!, $one: One! = ONLY) { set(in: $in, one: $one) { id } drop }\nsubscription On($id: ID) { changed(id: $id) { ... on A { a kind } } }\nfragment R on Query { us { __typename } }\n',
        ['First', 'Second_One', 'Second', 'On'])
    req('anonymous', '{ node { id name } }')
    req('anonymous-change', '\n\n  mutation{drop}   \n')
    req('anonymous-event', 'subscription { tick }')
    req('both', 'query Both($i: Int = 7, $n: String! = "a", $c: [Color!], $in: In1, $e: Early, $unlisted: [In1]) { all(i: $i, n: $n, c: $c, in: $in, e: $e) again: vin1_6(x: [$unlisted]) node { kind } }'.replace(', $unlisted: [In1]', '').replace(' again: vin1_6(x: [$unlisted])', ''))
    req('keywords', 'query Keywords($delete: Word!, $int: Words, $float: [Words2!]) { words(x: $delete, new: $int) class namespace { static: id typename: peer { private: id } register: deep { public: a } } other: words(new: {operator: {this: "a"}, double: [int, new]}) switch: node { case: peer { default: shared ... on A { break: deep { auto: one } } } } }'.replace(', $float: [Words2!]', ''))
    req('introspection', 'query Intro { __schema { types { ...T } directives { name locations args { name } } queryType { name } } __type(name: "A") { kind name ...T } __typename }\n'
        'fragment T on __Type { kind name fields(includeDeprecated: true) { name type { ...Ref } isDeprecated } possibleTypes { ...Ref } enumValues { name } inputFields { name defaultValue type { ...Ref } } }\nfragment Ref on __Type { kind name ofType { kind name ofType { name } } }')
    req('lean', 'query Lean($x: Int!) { vint_0(x: $x) node { __typename } }', nointro=True)
    req('bom', b'\xef\xbb\xbf# comment\r\nquery Bom {\r\n\tvstring_0(x: "\\u00e9\\"\xc3\xa9 \\\\ \\n")\r\n  a: vstring_0(x: """\r\n    block\r\n      "in" \\""" it\r\n\r\n    end\r\n  """) # last \\\r\n}\r\n')
    req('strings', 'query Strings { a: vstring_0(x: "??/ \\\\ )js\\" )cpp\\" R(\\"") b: vstring_0(x: """one\n  two\n\n    three\n""") c: vstring_0(x: "") d: vfloat_0(x: -1.5e+3) e: vin2_0(x: {id: "AA==", any: {k: [1, null, X]}}) } # \\')
    req('names', 'query Names($_Under: Int, $x__y: String, $Upper: [ID!]!) { _Alias: vint_0(x: $_Under) a__b: vstring_0(x: $x__y) Upper: vid_5(x: $Upper) __x: node { _Y: id o__o: other { x__y _Z } } }')
    req('raw', 'query Raw { vstring_0(x: "x)gql") }')
    json.dump(idx, open(os.path.join(D, 'index.json'), 'w'), indent=0)
    print(len(idx), 'clients')


main()
