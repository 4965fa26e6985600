// P22 An MPI error is reported with the place and the text of the error, and the program is aborted with a failure
//@ flags: -DVERIF_REAL_ASSERT -DVERIF_REPORT -DOMPI_SKIP_MPICXX
#include <iostream>
#include <memory>
#include <mpi.h>
namespace std {
struct verif_endl_t {};
inline verif_endl_t verif_endl;
[[gnu::always_inline]] inline verif_ostream& operator<<(verif_ostream& o, verif_endl_t) { text::add("\n", 1); return o; }
}
inline long abort_code, abort_world;
extern "C" int MPI_Error_string(int code, char* s, int* len) { s[0] = 'e'; s[1] = static_cast<char>('0' + code); s[2] = 0; *len = 2; return MPI_SUCCESS; }
[[gnu::always_inline]] static inline int verif_abort(MPI_Comm c, int code) { text::ended = text::len; abort_code = code; abort_world = c == MPI_COMM_WORLD; return 0; }
#define cerr verif_cerr
#define clog verif_cerr
#define endl verif_endl
#define flush verif_endl
#define MPI_Abort verif_abort
#include <dlaf/communication/error.h>
#undef cerr
#undef clog
#undef endl
#undef flush
#undef MPI_Abort
//@ def E = include/dlaf/communication/error.h: mpi_call
using dlaf::common::internal::source_location;
[[gnu::always_inline]] static bool has(const char* s, const long* values) {   // the text occurs in the report
  bool any = false;
  for (long o = 0; o < 28; ++o) {
    bool same = true;
    long k = 0;
    for (long i = 0; s[i] != 0; ++i) {
      const bool n = s[i] == '%';
      same = same && o + i < text::len && text::number[o + i] == n && text::buf[o + i] == (n ? values[k] : s[i]);
      if (n) ++k;
    }
    any = any || same;
  }
  return any;
}
//@ law report ; about: $E: place and text of the error before a failing end ; dom: e=1..9, line=1..100000 ; unroll=40 ; n=2000 ; events=none ; initial=1
extern "C" bool law_report(int e, unsigned line) {
  text::len = 0; text::ended = -1; abort_code = 0; abort_world = 0;
  dlaf::internal::mpi_call(e, source_location{"f.h", line, "g"});
  const long v[] = {line};
  const char text[] = {'e', static_cast<char>('0' + e), 0};
  return text::ended >= 0 && text::ended == text::len && abort_world && abort_code != 0 && has("f.h:%", v) && has(text, v) && has(" g", v);
}
//@ law quiet ; about: $E: nothing is reported for success ; dom: line=1..100000 ; initial=1 ; events=none
extern "C" bool law_quiet(unsigned line) {
  text::len = 0; text::ended = -1;
  dlaf::internal::mpi_call(MPI_SUCCESS, source_location{"f.h", line, "g"});
  return text::ended == -1 && text::len == 0;
}
