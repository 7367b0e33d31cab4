namespace go constants
typedef i32 Number
enum E { A = 2, B }
typedef E Paint
struct S2 { 1: map<Number, Paint> m }
struct S { 1: Number n, 2: i32 type, 3: Paint p, 4: list<E> es, 5: S2 s, 6: Number d = 4, 7: Paint dp = 2 }
const S ONE = {"n": 3, "type": 4, "p": 2, "es": [2, 3], "s": {"m": {1: 2}}}
const list<Number> NUMS = [1,2]
const map<Paint, double> MP = {2: 1, 3: 2.5}
const Number N = 3
const double D = 0.1
const list<S2> SS = [{"m": {}}]
struct Names { 1: i32 read, 2: i32 write, 3: string thrift_name, 4: i32 compareTo, 5: i32 TStructName, 6: optional i32 _x, 7: i32 X9, 8: i32 equals, 9: i32 t_struct }
exception X { 1: string error, 2: i32 string_ }
const bool NO = false
const bool ZERO = 0
const byte SMALL = -128
const i16 SHORT = -32768
const i32 LEAST = -2147483648
const i64 GREATEST = 9223372036854775807
const i64 LONG_LEAST = -9223372036854775807
const double NEGATIVE = -2.5
const double TINY = 1e-300
const double WHOLE = -4
const double PRECISE = 1.2345678901234567
const string EMPTY = ""
const string ESCAPES = "tab\tnew\nquote\"back\\end"
const string SINGLE = 'it is "so"'
const string PERCENT = "100%d"
const binary BYTES = "bin\\ary\n"
const list<list<i32>> NESTED = [[1, 2], [], [3]]
const map<string, list<E>> LISTS = {"a": [2, 3], "b": []}
const map<E, S2> BY_E = {2: {"m": {5: 3}}}
const set<E> EE = [3]
const set<string> TEXTS = ["x", "y", "z"]
const list<double> DOUBLES = [1, 0.1, -2.5]
const list<binary> BLOBS = ["a", "\n"]
const list<bool> BOOLS = [1, 0, true, false]
const list<byte> BYTE_LIST = [-1, 127]
const map<i64, i64> LONGS = {-9223372036854775807: 1, 2: -3}
const S TWO = {"type": 9}
struct Outer { 1: S inner = {"n": 8, "es": [3]}, 2: list<S2> list_ = [{"m": {1: 2}}, {}], 3: string esc = "a\"b\\", 4: optional string opt = "\n", 5: map<string, set<i32>> sets = {"k": [4, 5]} }
const Outer OUT = {"esc": "x"}
