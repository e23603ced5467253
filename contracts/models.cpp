// Assumed contracts of library functions whose body is not verified, written
// in the contract language.  Each stands in for the external function named in
// its assembler label.
#include "spec.h"
#include <string>

#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))

// std::to_string: exact for one digit, some other digit beyond (only used in messages)
static std::string number_text(unsigned long v) {
  if (v < 10)
    return std::string(1, static_cast<char>('0' + v));
  return std::string(1, spec::nondet<char>("digit"));
}
std::string m_to_string_m(unsigned long) MODEL("_ZNSt7__cxx119to_stringEm");
USED std::string m_to_string_m(unsigned long v) { return number_text(v); }
std::string m_to_string_i(int) MODEL("_ZNSt7__cxx119to_stringEi");
USED std::string m_to_string_i(int v) { return number_text(static_cast<unsigned long>(v)); }
std::string m_to_string_j(unsigned) MODEL("_ZNSt7__cxx119to_stringEj");
USED std::string m_to_string_j(unsigned v) { return number_text(v); }
std::string m_to_string_l(long) MODEL("_ZNSt7__cxx119to_stringEl");
USED std::string m_to_string_l(long v) { return number_text(static_cast<unsigned long>(v)); }

// std::string: the library's own body is verified with its caller (the
// standard headers are compiled, nothing is assumed about it)
template class std::__cxx11::basic_string<char>;

// basic_string::_M_disjunct compares addresses of unrelated objects to decide
// whether two ranges overlap; the order of unrelated objects does not matter
// for the answer, so it is given without looking at it (same answer, fewer cases).
bool m_disjunct(const std::string *self, const char *s)
    MODEL("_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE11_M_disjunctEPKc");
USED bool m_disjunct(const std::string *self, const char *s) {
  return !__spec_same_object(s, self->data()) || s < self->data() || self->data() + self->size() < s;
}
