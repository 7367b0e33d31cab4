// A service only; the package is named after the file.
service Bare {
  void ping()
}
service Barer extends Bare {
}
