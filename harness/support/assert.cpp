// The code under test asserts its own invariants with BOOST_ASSERT.  In the sanitizer build these stay on and
// report through here: a failed assertion is printed and ends the run unless VERIF_ASSERT_CONTINUE is set.
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
// damaged input is read with assertions off, as the released library does
extern "C" __attribute__((weak)) void __sanitizer_print_stack_trace();
extern "C" __attribute__((visibility("default"))) int vf_assert_off = 0;
namespace boost {
__attribute__((visibility("default"))) void assertion_failed_msg(char const* expr, char const* msg, char const* function, char const* file, long line) {
    if (vf_assert_off) {
        return;
    }
    fprintf(stderr, "VERIF-ASSERT %s:%ld: %s: %s %s\n", file, line, function, expr, msg ? msg : "");
    if (&__sanitizer_print_stack_trace) {
        __sanitizer_print_stack_trace();
    }
    if (!getenv("VERIF_ASSERT_CONTINUE")) {
        abort();
    }
}
__attribute__((visibility("default"))) void assertion_failed(char const* expr, char const* function, char const* file, long line) {
    assertion_failed_msg(expr, 0, function, file, line);
}
}
