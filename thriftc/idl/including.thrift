// A program whose types, values and services are those of another.
include "shared.thrift"
include "nothing.thrift"
namespace go together.including

struct Line {
  1: shared.Point start,
  2: optional shared.Point end = {"x": 3, "y": 4},
  3: shared.Level level = shared.Level.HIGH,
  4: optional shared.Count count = 9,
  5: shared.Grade grade,
  6: shared.Row row,
  7: list<shared.Point> points,
  8: map<shared.Level, shared.Point> byLevel,
  9: set<shared.Level> levels,
  10: shared.Spot spot,
  11: optional shared.Level some,
  12: shared.Refused refused
}
const shared.Point FAR = {"x": 100, "y": 200}
const shared.Level TOP = shared.Level.HIGH
const list<shared.Level> BOTH = [shared.Level.LOW, shared.Level.MIDDLE]
const i32 SAME = shared.LIMIT
typedef shared.Point Corner
exception Lost { 1: shared.Point where }

service Shapes extends shared.Base {
  shared.Point middle(1: Line line, 2: shared.Point to, 3: shared.Level level, 4: shared.Count count) throws (1: shared.Refused refused, 2: Lost lost),
  list<shared.Point> all(1: list<shared.Level> levels),
  shared.Level level(1: shared.Grade grade, 2: shared.Row row),
  Corner corner()
}
service Alone { void ping() }
