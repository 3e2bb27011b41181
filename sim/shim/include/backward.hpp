#pragma once
#include <ostream>
namespace backward {
struct StackTrace { size_t load_here(size_t) { return 0; } };
namespace ColorMode { enum type { automatic, never, always }; }
struct Printer { bool object = false; int color_mode = 0; bool address = false; bool snippet = false; template <class S> void print(StackTrace&, S& s) { s << "(trace)"; } };
}
