namespace go every

enum Color {
  RED = 1,
  GREEN,
  BLUE = 5,
  LAST
}

typedef i32 Number
typedef string Text
typedef list<i16> Shorts
typedef Color Paint
typedef Number Count

const i32 LIMIT = 100
const string GREETING = "hello \"you\""
const list<i32> PRIMES = [2, 3, 5]
const map<string, i32> SIZES = {"small": 1, "large": 2}
const set<i64> BIG = [1, 2]
const bool YES = true
const double HALF = 0.5
const double WHOLE = 3
const Color SHADE = Color.BLUE

struct Base {
  1: bool a_bool,
  2: byte a_byte,
  3: i16 a_short,
  4: i32 an_int,
  5: i64 a_long,
  6: double a_double,
  7: string a_string,
  8: binary a_binary,
  9: Color a_color
}

struct Optional {
  1: optional bool a_bool,
  2: optional byte a_byte,
  3: optional i16 a_short,
  4: optional i32 an_int,
  5: optional i64 a_long,
  6: optional double a_double,
  7: optional string a_string,
  8: optional binary a_binary,
  9: optional Color a_color,
  10: optional Base a_struct,
  11: optional list<i32> a_list,
  12: optional set<string> a_set,
  13: optional map<string, i32> a_map
}

struct Required {
  1: required i32 an_int,
  2: required string a_string,
  3: required Base a_struct,
  4: required Color a_color,
  5: required list<string> a_list
}

struct Defaults {
  1: bool a_bool = true,
  2: byte a_byte = 7,
  3: i16 a_short = -3,
  4: i32 an_int = 100000,
  5: i64 a_long = 10000000000,
  6: double a_double = 1.5,
  7: string a_string = "text",
  8: optional string another = "more",
  9: optional i32 more = 5,
  10: Color a_color = Color.GREEN,
  11: optional bool b = true,
  12: optional double d = 2.5,
  13: optional double precise = 1.23456789,
  14: optional double whole = 3,
  15: byte negative = -2,
  16: optional Color shade = Color.RED,
  17: Number a_number = 9,
  18: Paint a_paint = Color.BLUE
}

struct DefaultContainers {
  1: list<i32> a_list = [1, 2],
  2: set<string> a_set = ["x"],
  3: map<string, i32> a_map = {"k": 1},
  4: Base a_struct = {"an_int": 3}
}

enum Level {
  LOW = -1,
  NONE,
  MIDDLE = 7,
  HIGH,
  EXTREME = 2000000000
}

struct OptionalDefaults {
  1: optional list<i32> a_list = [1, 2],
  2: optional set<string> a_set = ["x"],
  3: optional map<string, i32> a_map = {"k": 1},
  4: optional Base a_struct = {"an_int": 3},
  5: optional list<i32> no_list = [],
  6: optional map<string, i32> no_map = {},
  7: optional binary a_binary = "xyz",
  8: optional i64 a_long = -10000000000,
  9: optional byte a_byte = -2,
  10: optional i16 a_short = -300,
  11: optional bool a_bool = false,
  12: optional Level zero = Level.NONE,
  13: optional Level a_level,
  14: Level level,
  15: list<Level> levels
}

struct Containers {
  1: list<bool> bools,
  2: list<byte> bytes,
  3: list<i16> shorts,
  4: list<i32> ints,
  5: list<i64> longs,
  6: list<double> doubles,
  7: list<string> strings,
  8: list<binary> binaries,
  9: list<Color> colors,
  10: list<Base> structs,
  11: set<i32> int_set,
  12: set<string> string_set,
  13: map<string, i64> a_map,
  14: map<i32, Base> struct_map,
  15: list<list<i32>> nested,
  16: map<string, list<string>> lists,
  17: set<Color> color_set,
  18: map<Color, Color> color_map,
  19: list<set<i32>> sets,
  20: list<map<i32, i32>> maps,
}

struct Aliases {
  1: Number a_number,
  2: Text a_text,
  3: Shorts some_shorts,
  4: Paint a_paint,
  5: optional Number b_number,
  6: optional Paint b_paint,
  7: Count c
}

struct AliasLists {
  1: list<Number> numbers,
  2: list<Paint> paints
}

typedef Base Basis
typedef binary Blob

struct AliasStructs {
  1: Basis a_struct,
  2: optional Basis b_struct,
  3: list<Basis> structs,
  4: map<Count, Basis> by_count,
  5: Blob a_blob,
  6: list<Blob> blobs,
  7: set<Text> texts
}

struct Unnumbered {
  i32 first,
  string second,
  5: i32 fifth
}

struct Names {
  1: i32 type,
  2: i32 func,
  3: i32 snake_case_name,
  4: i32 camelCase,
  5: i32 range = 3,
  6: optional Color map,
  7: i32 _under,
  8: i32 go,
  9: i32 x,
  10: i32 read,
  11: i32 write,
  12: i32 err,
  13: i32 equals
}

struct Gaps {
  1: i32 one,
  5: i32 five,
  3: i32 three,
  300: i32 many
}

struct Empty {
}

struct Tree {
  1: i32 value,
  2: list<Tree> children
}

exception Failure {
  1: i32 code,
  2: string reason
}

exception Other {
  1: string what
}

typedef map<Text, Shorts> Index
typedef list<Index> Indexes

struct MoreContainers {
  1: set<bool> bool_set,
  2: set<byte> byte_set,
  3: set<i16> short_set,
  4: set<i64> long_set,
  5: set<double> double_set,
  6: set<binary> binary_set,
  7: map<bool, byte> bool_map,
  8: map<byte, i16> byte_map,
  9: map<i16, bool> short_map,
  10: map<i64, double> long_map,
  11: map<double, string> double_map,
  12: map<string, binary> binaries,
  13: map<Color, list<Color>> colors,
  14: map<string, map<string, i32>> maps,
  15: map<i32, set<string>> sets,
  16: list<list<list<byte>>> deep,
  17: list<map<string, list<i16>>> mixed,
  18: optional Index by_name,
  19: Indexes indexes,
  20: list<Failure> failures,
  -7: i32 negative,
  40: i32 last
}

service Simple {
  void ping(),
  i32 add(1: i32 a, 2: i32 b),
  Base get(1: Base b) throws (1: Failure failed),
  string both(1: string s) throws (1: Failure failed, 2: Other other),
  void check(1: i32 n) throws (1: Failure failed),
  oneway void fire(1: i32 n),
  i32 names(1: i32 p, 2: i32 err, 3: i32 oprot, 4: i32 type, 5: i32 value) throws (1: Failure seqId),
  list<i32> many(1: list<i32> l, 2: map<string, i32> m),
  Color paint(1: Color c),
  binary data(1: binary b),
  bool type(1: i32 type),
}

service Derived extends Simple {
  i64 twice(1: i64 n)
}

service Everything extends Derived {
  bool flip(3: bool a, 1: byte b),
  byte small(1: i16 s),
  i16 short(1: byte b),
  double real(1: double d, 20: bool exact),
  set<string> unique(1: set<string> s),
  map<string, i32> index(1: map<string, i32> m),
  list<Base> structs(1: list<Base> l),
  Number count(1: Text t, 2: Shorts s),
  Index nested(1: Index i),
  i32 preset(1: i32 a = 5, 2: string b = "x"),
  Basis thrower(1: i32 n) throws (3: Failure first, 1: Other second, 7: Failure third),
  i32 unnumbered(i32 a, i32 b),
  Text snake_case(1: Paint camelCase),
  void quiet() throws (1: Failure failed, 2: Other other),
}

service Second {
  i32 ping(),
  string add(1: string a, 2: string b) throws (1: Other other)
}
