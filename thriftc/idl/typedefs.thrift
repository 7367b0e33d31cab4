namespace go typedefs
enum E { A, B }
struct S { 1: i32 a }
typedef S Alias
typedef binary Blob
typedef map<string,i32> M
typedef E Paint
struct T {
  1: Alias al,
  2: optional Alias oal,
  3: Blob b,
  4: M m,
  5: list<Alias> als,
  6: map<string,Alias> mal,
  7: list<Blob> bs,
  8: optional M om,
  9: optional Blob ob,
  10: optional list<i32> d = [1],
  11: optional double dd = 3,
  12: optional double de = 1.23456789,
  13: double df = 1.23456789,
  14: Paint p = 1,
  15: list<M> ms,
}
union U { 1: i32 a, 2: string b }
struct Auto { i32 x, string y }
const Alias CA = {"a": 3}
const Blob CB = "xyz"
const M CM = {"a": 1}
const Paint CP = 1
const i64 I = 10000000000
service Sv { Alias f(1: Alias a, 2: Paint p, 3: Blob b, 4: M m), Blob g(), M h(), Paint i(), void auto(i32 x, string y) }
