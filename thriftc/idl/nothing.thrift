// A program that defines nothing.
namespace go nothing
