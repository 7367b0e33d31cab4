// What including.thrift includes.
namespace go together.shared

enum Level { LOW = -1, MIDDLE = 5, HIGH }
typedef i64 Count
typedef Level Grade
typedef list<i32> Row
struct Point { 1: i32 x, 2: i32 y }
typedef Point Spot
exception Refused { 1: string why, 2: i32 code }
const i32 LIMIT = 12
const Point ORIGIN = {"x": 0, "y": 1}
service Base { i32 measure(1: Point p) throws (1: Refused refused), oneway void note(1: Level level) }
