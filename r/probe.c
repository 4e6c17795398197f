// The bytes allocated at the moment, when the process runs under AddressSanitizer.
#include <stddef.h>
#include <Rinternals.h>
extern size_t __sanitizer_get_current_allocated_bytes(void) __attribute__((weak));
SEXP allocated_bytes(void) { return Rf_ScalarReal(__sanitizer_get_current_allocated_bytes ? (double)__sanitizer_get_current_allocated_bytes() : 0); }
