// A service for the command line: arguments of every kind, under awkward names and ids, and of named types.
namespace go commands

typedef i64 Big
typedef bool Flag
typedef double Real
typedef byte Tiny
typedef i16 Short
typedef binary Blob
typedef map<string, i32> Table
enum Level { LOW = 1, HIGH = 5 }
typedef Level Grade
struct Spot { 1: i32 x, 2: i32 y }
typedef Spot Place
exception Broken { 1: string why }

service Commands {
  i32 lists(7: list<i32> a, 3: list<i32> b, 5: i32 c),
  i32 unnumbered(list<i32> a, set<string> b),
  i32 named(1: Big big, 2: Flag flag, 3: Real real, 4: Tiny tiny, 5: Short short),
  i32 kinds(9: Blob blob, 8: Table table, 7: Grade grade, 6: Place place),
  i32 thrown(4: Broken broken, 2: Spot spot),
  oneway void tell(1: Level err, 2: list<Spot> arg, 3: string client, 4: i32 cmd),
  i32 flag_names(1: i32 trans, 2: i32 host, 3: Spot jsProt, 4: list<i32> tmp0),
  string Usage(1: string value0, 2: string main)
}
