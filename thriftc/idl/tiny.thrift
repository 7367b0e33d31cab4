// Programs with little in them: an enumeration, an alias.
namespace go tiny

enum Switch {
  OFF,
  ON
}

typedef i64 Big

service Nothing {
}
