// Interpreted replacements for libstdc++'s out-of-line throwing helpers, so the
// engine sees the exception instead of a native unwind.
#include <stdexcept>
#include <new>
#include <functional>
#include <typeinfo>
namespace std
{
void __throw_out_of_range_fmt (const char *, ...) { throw out_of_range ("range"); }
void __throw_out_of_range (const char *) { throw out_of_range ("range"); }
void __throw_length_error (const char *) { throw length_error ("length"); }
void __throw_logic_error (const char *) { throw logic_error ("logic"); }
void __throw_invalid_argument (const char *) { throw invalid_argument ("invalid"); }
void __throw_domain_error (const char *) { throw domain_error ("domain"); }
void __throw_runtime_error (const char *) { throw runtime_error ("runtime"); }
void __throw_range_error (const char *) { throw range_error ("range"); }
void __throw_overflow_error (const char *) { throw overflow_error ("overflow"); }
void __throw_bad_alloc () { throw bad_alloc (); }
void __throw_bad_array_new_length () { throw bad_alloc (); }
void __throw_bad_cast () { throw bad_cast (); }
void __throw_bad_function_call () { throw bad_function_call (); }
}
