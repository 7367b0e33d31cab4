namespace go services
struct S { 1: byte a = -1, 2: optional byte b = -128, 3: list<byte> l = [-1, 2], 4: optional i64 c = -5 }
const byte B = -2
struct Args { 1: i32 a }
service A { void ping(), i32 both(1: i32 a) }
service B { void ping(), i32 both(1: string a), i32 other() }
service C extends A { void more() }
