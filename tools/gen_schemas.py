#!/usr/bin/env python3
"""Writes /verif/schemas: the schemas from which the generators' checks make services and clients."""
import itertools, os
D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'schemas')
B = ['Int', 'Float', 'String', 'Boolean', 'ID']


def wraps(t, depth=2):
    out = [t, t + '!']
    if depth:
        for w in wraps(t, depth - 1):
            out += ['[%s]' % w, '[%s]!' % w]
    return out


def code(w):
    return w.replace('!', 'n').replace('[', 'l').replace(']', 'e')


VALUES = {'Int': ['0', '-7', '2147483647', '-2147483648'], 'Float': ['0.5', '-1e3', '3', '1.23456789012', '1e300', '0.1', '16777217.0', '1e-300'],
          'String': ['""', '"a b"', '"x\\"y\\\\z\\n\\u00e9"', '"""block\n  text"""'], 'Boolean': ['true', 'false'], 'ID': ['"AQID"', '"AA=="', '""']}


def write(name, text, merged=None):
    with open(os.path.join(D, name + '.graphql'), 'w') as f:
        f.write(text.strip() + '\n')
    if merged:
        with open(os.path.join(D, name + '.merged.graphql'), 'w') as f:
            f.write(merged.strip() + '\n')


def main():
    os.makedirs(D, exist_ok=True)
    # results of the built-in types
    o = 'type Query {\n one: Out\n oneNull: Out\n'
    o += '}\ntype Out {\n'
    for b in B:
        for i, w in enumerate(wraps(b)):
            o += ' %s_%d: %s\n' % (b.lower(), i, w)
        o += ' %snull: %s\n %slnull: [%s!]\n' % (b.lower(), b, b.lower(), b)
    write('s1', o + '}')
    # results of types of the schema
    o = 'type Query {\n one: Out\n}\ntype Out {\n'
    kinds = ['S', 'E', 'A', 'I', 'U']
    for b in kinds:
        for i, w in enumerate(wraps(b)):
            o += ' %s_%d: %s\n' % (b.lower(), i, w)
        o += ' %snull: %s\n %slnull: [%s!]\n' % (b.lower(), b, b.lower(), b)
    o += '''}
scalar S
enum E { X Y Z }
interface I { i: Int s: String }
type A implements I { i: Int s: String a: A }
type B implements I { i: Int s: String b: [A!] }
union U = A | C
type C { c: Int u: U }
'''
    write('s2', o)
    # arguments
    o = 'type Query {\n'
    for b in B:
        for i, w in enumerate(wraps(b)):
            o += ' %s_%d(x: %s): Int\n' % (b.lower(), i, w)
    o += ' two(p: Int, q: String!): Int\n three(b: [Boolean], a: Float!, c: ID): Int\n'
    write('s3', o + '}')
    o = 'type Query {\n'
    for b in ['S', 'E', 'In']:
        for i, w in enumerate(wraps(b)):
            o += ' %s_%d(x: %s): Int\n' % (b.lower(), i, w)
    o += ''' all(s: S, e: E!, i: In, n: Nest): Int
 obj(e: E, i: [In!]): Obj
}
type Obj { e(e: E, i: In): E s(s: S!): S }
scalar S
enum E { X Y Z }
input In { i: Int! s: String }
input Nest { z: [In!]! m: Mid a: In! }
input Mid { in: In! e: [E!] s: S l: [Leaf] }
input Leaf { b: Boolean }
'''
    write('s4', o)
    # members of input objects
    o = 'type Query {\n'
    n = len(wraps('x'))
    for i in range(n):
        o += ' w%d(x: W%d): Int\n' % (i, i)
    o += ' ww(x: [W0!], y: W3): Int\n}\nscalar S\nenum E { X Y Z }\n'
    for i in range(n):
        o += 'input W%d {\n' % i
        for b in B + ['S', 'E', 'In']:
            o += ' m%s: %s\n' % (b, wraps(b)[i])
        o += '}\n'
    o += 'input In { i: Int! s: String }\n'
    write('s5', o)
    # defaults
    o = 'type Query {\n'
    m = 'input D {\n'
    i = 0
    for b in B + ['E', 'S', 'In']:
        vals = VALUES.get(b) or {'E': ['X', 'Z'], 'S': ['1', '"a"', 'true', '{a: [1, {b: null}], c: X}', '[1.5, "q"]'], 'In': ['{i: 1}', '{i: 2, s: "q"}', '{i: 3, s: null}', '{s: "r", i: 4, d: 5}']}[b]
        forms = []
        for v in vals:
            forms += [(b, v), (b + '!', v)]
        forms += [(b, 'null'), ('[%s]' % b, '[%s, null]' % vals[0]), ('[%s!]!' % b, '[%s]' % ', '.join(vals)), ('[%s]' % b, '[]'), ('[%s!]' % b, 'null'), ('[[%s!]]' % b, '[[%s], [], null]' % vals[-1])]
        for t, v in forms:
            o += ' d%d(x: %s = %s): Int\n' % (i, t, v)
            m += ' m%d: %s = %s\n' % (i, t, v)
            i += 1
    o += ' inp(x: D): Int\n inpD(x: D = {m1: 5}): Int\n two(x: Int = 1, y: Int! = 2, z: Int): Int\n mixed(a: Int, b: [In!] = [{i: 1}, {i: 2, s: "x"}], c: E! = Y): Int\n'
    write('s6', o + '}\n' + m + '}\nscalar S\nenum E { X Y Z }\ninput In { i: Int! s: String d: Int = 9 }')
    # the rest of a schema
    write('s7', '''
schema { query: the_Query_ mutation: _the__mutation subscription: _the_subscription }
"""The query
type, "quoted" and `ticked`."""
type the_Query_ {
 "A field"
 hero(
  "an argument" episode: Episode = JEDI
  old: Int): Character
 search(text: String!): [Result!]!
 node(id: ID!): Node
 old: Int @deprecated
 older: Int @deprecated(reason: "use something\\nelse \\"now\\"")
 many(n: [Int!]! = [1, 2], f: Filter = {name: "a\\\\b", tags: ["x"]}): [Thing]
}
type _the__mutation { create(input: New!): Thing rename(id: ID!, name: String): Human increment: Int! old(x: Int): Boolean }
type _the_subscription { changed(id: ID, deep: Filter): Thing ticks: Int! }
"Interfaces" interface Node { "its id" id: ID! }
interface Character { id: ID! name: String friends: [Character] height(unit: Unit = METER): Float }
interface Empty { lonely: Int @deprecated(reason: "never used") }
type Human implements Node & Character { id: ID! name: String friends: [Character] height(unit: Unit = METER): Float home: Planet starships(first: Int, after: ID): [Starship!] }
type Droid implements Character & Node { friends: [Character] height(unit: Unit = METER): Float name: String id: ID! primary: String @deprecated(reason: "") }
type Starship implements Node { id: ID! length(unit: Unit): Float crew: [Result] }
type Planet { name: String population: Big residents: [Human] extreme: [[Result!]] }
"""
Unions
"""
union Result = Human | Droid | Starship
union Thing = Planet | Starship
union Single = Planet
"An enum" enum Episode { "first" NEWHOPE EMPIRE JEDI @deprecated(reason: "last") OLD @deprecated }
enum Unit { METER FOOT }
"An input" input New { "the name" name: String! kind: Kind = SHIP where: Where tags: [String!] }
enum Kind { SHIP PLANET }
input Where { x: Float! y: Float! z: Float = 0.5 }
input Filter { name: String tags: [String] near: Where big: Big }
"A scalar" scalar Big
scalar Plain
"For fields" directive @tag("its name" name: String! = "none", n: [Int], f: Filter) on FIELD_DEFINITION | FIELD | ENUM_VALUE | QUERY
directive @bare on OBJECT
''')
    o = 'type Query {\n'
    d = ''
    for n in [1, 2, 3, 4, 5, 7, 8, 9, 12, 16, 17, 31]:
        o += ' e%d(x: E%d): E%d\n l%d(x: [E%d!]): [E%d]\n' % (n, n, n, n, n, n)
        # not sorted, with common prefixes and lengths
        names = ['A', 'BB', 'B', 'AA', 'zeta', 'Zeta', 'aA', 'C_1', 'C_10', 'C_2', 'mid', 'm', 'z9', 'Q', 'q', 'EE', 'eE', 'E0', 'Long_Long_Name_1', 'Long_Long_Name_0', 'Long_Long_Name', 'x', 'y', 'w', 'v', 'X1', 'X2', 'X3', 'Y1', 'Y0', 'k'][:n]
        d += 'enum E%d { %s }\n' % (n, ' '.join(names))
    write('s8', o + '}\n' + d)
    write('s9', '''
type Query {
 a__b(c__d: Int, _E: Int, _f: String): Int
 x__: Int
 _Y: Int
 _z: Int
 a_: Int
 UPPER(X: Int): Int
 camelCase(fooBar: Int, Foo: Int): Int
 params: Int
 result: Int
 arguments(params: Int, result: Int, arguments: Int, values: Int = 4, entry: Int = 5): Int
 typename: Int
 schema: Int
 type: Int
 value(value: Value): Int
 a1: Int a10: Int a2: Int
 t: Type_
 n__: _Name
 e(x: _Enum__): _Enum__
 query: Int
 object: Object_
 get: Int apply: Int resolve: Int
 std_(string: String = "s"): Int
 response: Int service: Int
 in(x: _In_put): Int
 u: _U
 i: _I__
 class: Int default: Int new(delete: Int, int: Int): Int
}
type Type_ implements _I__ { value: Int }
type _Name implements _I__ { _value: Int value: Int name: String }
type Object_ { object: Object_ Query: Int }
union _U = _Name | Type_
interface _I__ { value: Int }
enum _Enum__ { A_ _b __c _D a__e True False Null }
input _In_put { a__b: Int = 3 _C: Int! = 4 value: [Int] values: Int entry: String = "x" }
input Value { value: Int value_: Int }
directive @_Dir(_Arg: Int) on FIELD
''')
    write('s10', '''
extend type Query { b(x: Int = 4): Int o: Thing }
extend schema { mutation: Change }
extend input In { b: Int! = 7 }
extend enum E { C D @deprecated }
schema { query: Query }
input In { a: Int }
enum E { A B }
type Thing { x: Int }
extend interface I { j: E }
type Query implements I { a(in: In, e: E): E i: Int }
interface I { i: Int }
extend type Thing implements I { i: Int j: E }
extend type Query { j: E }
union U = Thing
extend union U = Change
type Change { c(in: [In!]): U }
extend type Query { u: [U] last: I }
''', '''
schema { query: Query mutation: Change }
input In { a: Int b: Int! = 7 }
enum E { A B C D @deprecated }
type Thing implements I { x: Int i: Int j: E }
type Query implements I { a(in: In, e: E): E i: Int b(x: Int = 4): Int o: Thing j: E u: [U] last: I }
interface I { i: Int j: E }
union U = Thing | Change
type Change { c(in: [In!]): U }
''')

    # names which are keywords, texts which end raw string literals, and a mutation type with interfaces
    write('s11', r"""
"R\"md(a raw string)md\" )md\"twice)md\"" type Query {
 "one\r\ntwo\rthree )md)md\" )gql\"" e(x: Word, new: Word = default, delete: [Word!]): Word @deprecated(reason: "R\"md( )md\" \r\n")
 i("an )md\" argument" x: Words, int: Words = {operator: "R\"gql( )gql\"", class: [int]}): Int
 s(x: String = "a)gql\"b", y: [String] = [")gql\"", "\r", "R\"gql(", "x)", ")gql"]): String
 do: Both
 class: Int typename: [Int] this(this: Int): Query
}
"ends )md" enum Word { new delete ")md\"" class default int @deprecated(reason: "use )md\"s") New_ register union }
") " input Words { ")md\"" int: Int = 3 operator: String = ")gql\"" class: [Word!] public: Words2 template: Float! = 0.5 }
input Words2 { float: Float private: [Int] }
type Mutation implements One & Two { done(int: Int): Int fresh(new: Word = new): Int all: [Int] name: String other: Both both: Both }
"an )md\" interface" interface One { "x)md\"y" done(int: Int): Int name: String both: Both }
interface Two { all: [Int] name: String }
"a )md\" union" union Both = Mutation | Query
")md\"" scalar Odd
")md\"" directive @for(")md\"" while: String = ")gql\"") on FIELD
""")
    # valid schemas from which the generator is known to write code that does not compile
    write('x2', """
type Query { name: Int Name: Int }
""")
    write('x3', """
type Query { i: I }
interface I { next: I }
type A implements I { next: A! }
""")


main()
