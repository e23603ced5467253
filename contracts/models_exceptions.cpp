// Assumed contract of the text formatting behind every SDK exception: the
// message is some text (its content is not specified here).
#include "spec.h"
#include <string>
std::string m_FormatString() __asm__("__modelp__ZN4Xsmp9Exception6detail12FormatStringI");
__attribute__((used)) std::string m_FormatString() { return std::string(); }
// ... and so is the readable form of a type name
std::string m_demangle() __asm__("__modelp__ZN4Xsmp6Helper8demangle");
__attribute__((used)) std::string m_demangle() { return std::string(); }
