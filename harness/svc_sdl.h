// The schema of the service under test.
#pragma once

namespace svc {

inline const char* SDL()
{
	return R"(
schema { query: Query mutation: Mutation subscription: Subscription }
type Query {
 i: Int iN: Int! s: String f: Float b: Boolean id: ID e: E sc: S
 a: A aN: A! c: C I: I u: U anull: A
 li: [Int] lN: [Int!]! ll: [[Int]] la: [A] lI: [I!]! lu: [U] le: [E]
 xi(x: Int): Int xiN(x: Int!): Int xiD(x: Int! = 5): Int xd(x: Int = 7): Int
 xf(x: Float): Int xs(x: String): Int xb(x: Boolean): Int xid(x: ID): Int xe(x: E): Int xsc(x: S): Int
 xin(x: In): Int xinN(x: In!): Int xo(x: Out, y: Pin): Int
 xli(x: [Int]): Int xlN(x: [Int!]!): Int xll(x: [[Int]]): Int xlin(x: [In]): Int xle(x: [E!]): Int xlD(x: [Int!]! = [1]): Int
 x2(p: Int, q: String): Int xr(p: Int!, q: Int!, r: Int): Int
 ax(x: Int): A
}
type Mutation { i: Int j: Int k: Int a: A xi(x: Int): Int li: [Int] }
type Subscription { i: Int a: A xi(x: Int): Int xe(x: E): Int xs(x: String, y: Int): Int xin(x: In): Int la: [A] xl(x: [Int]): Int xb(x: Boolean): Int xsc(x: S): Int }
interface I { i: Int s: String I: I a: A xi(x: Int): Int xd(x: Int! = 5): Int c: C w: Int }
interface J { i: Int j: Int }
type A implements I & J { i: Int s: String I: I a: A xi(x: Int): Int xd(x: Int! = 5): Int c: C w: Int j: Int b: Boolean p: Int q: String lI: [I] u: U only: String t: A }
type B implements I { i: Int s: String I: I a: A xi(x: Int): Int xd(x: Int! = 5): Int c: C w: Int! b: Boolean p: String q: String lI: [I] u: U t: B }
type C { i: Int j: Int iN: Int! li: [Int] c: C I: I id: ID }
union U = A | B
union V = B | C
enum E { X Y Z }
scalar S
input Out { a: In b: Int p: Pin c: Int! = 1 l: [Pin!] }
input Pin { q: Int o: Out r: [In!] n: Int! e: E }
input In { i: Int n: Int! d: Int = 3 dN: Int! = 4 l: [Int!] in: In e: E s: String sc: S }
directive @d(x: Int, y: String) on QUERY | MUTATION | SUBSCRIPTION | FIELD | FRAGMENT_DEFINITION | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @g(x: Int) on QUERY | MUTATION | SUBSCRIPTION | FIELD | FRAGMENT_DEFINITION | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @need(x: Int!, y: Int! = 2) on QUERY | MUTATION | SUBSCRIPTION | FIELD | FRAGMENT_DEFINITION | FRAGMENT_SPREAD | INLINE_FRAGMENT
directive @onq on QUERY directive @onm on MUTATION directive @ons on SUBSCRIPTION directive @onf on FIELD
directive @onfd on FRAGMENT_DEFINITION directive @onfs on FRAGMENT_SPREAD directive @onif on INLINE_FRAGMENT directive @onsch on OBJECT
)";
}

} // namespace svc
