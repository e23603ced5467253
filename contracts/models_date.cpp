// Assumed contract of the date library (date/date.h), which turns a point in
// time into text and back: printing depends on the format and the time point
// only; parsing either yields a time point that depends on the text and the
// format only, or fails and leaves the target alone.
#include "date_ghost.h"
#include "stream_ghost.h"
#include <chrono>
#define MODEL(sym) __asm__("__model_" sym)
#define USED __attribute__((used))
namespace ghost {
Date g_date;
}
using ghost::g_date;
namespace {
bool same(const char *a, size_t n, const char *b) { return strlen(b) == n && memcmp(a, b, n) == 0; }
// the printed text spells out the value; the format is compared on the way
std::string print(const char *fmt, char kind, int64_t v) {
  g_date.fmt_ok &= same(fmt, strlen(fmt), g_date.want_fmt);
  char b[10];
  b[0] = kind;
  memcpy(b + 1, &v, sizeof v);
  b[9] = 0;
  return std::string(b, 9);
}
void parse(std::istream &is, const char *fmt, char kind, int64_t &target) {
  ++g_date.parses;
  g_date.stream = &is;
  g_date.fmt_ok &= same(fmt, strlen(fmt), g_date.want_fmt);
  g_date.kind = kind;
  if (g_date.ok)
    target = g_date.value;
}
} // namespace
std::string m_fmt_tp(const char *, const int64_t &) MODEL("_ZN4date6formatIcNSt6chrono10time_pointINS1_3_V212system_clockENS1_8durationIlSt5ratioILl1ELl1000000000EEEEEEEEDTcmcl9to_streamclsr3stdE7declvalIRSt13basic_ostreamIT_St11char_traitsISB_EEEEfp_fp0_EtlNSt7__cxx1112basic_stringISB_SD_SaISB_EEEEEPKSB_RKT0_");
USED std::string m_fmt_tp(const char *f, const int64_t &v) { return print(f, 't', v); }
std::string m_fmt_d(const char *, const int64_t &) MODEL("_ZN4date6formatIcNSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEEEDTcmcl9to_streamclsr3stdE7declvalIRSt13basic_ostreamIT_St11char_traitsIS7_EEEEfp_fp0_EtlNSt7__cxx1112basic_stringIS7_S9_SaIS7_EEEEEPKS7_RKT0_");
USED std::string m_fmt_d(const char *f, const int64_t &v) { return print(f, 'd', v); }
std::string m_fmts_d(const std::string &, const int64_t &) MODEL("_ZN4date6formatIcSt11char_traitsIcESaIcENSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEEEDTcmcl9to_streamclsr3stdE7declvalIRSt13basic_ostreamIT_T0_EEEcldtfp_5c_strEfp0_EtlNSt7__cxx1112basic_stringISA_SB_T1_EEEERKSH_RKT2_");
USED std::string m_fmts_d(const std::string &f, const int64_t &v) { return print(f.c_str(), 'd', v); }
std::string m_fmts_tp(const std::string &, const int64_t &) MODEL("_ZN4date6formatIcSt11char_traitsIcESaIcENSt6chrono10time_pointINS4_3_V212system_clockENS4_8durationIlSt5ratioILl1ELl1000000000EEEEEEEEDTcmcl9to_streamclsr3stdE7declvalIRSt13basic_ostreamIT_T0_EEEcldtfp_5c_strEfp0_EtlNSt7__cxx1112basic_stringISE_SF_T1_EEEERKSL_RKT2_");
USED std::string m_fmts_tp(const std::string &f, const int64_t &v) { return print(f.c_str(), 't', v); }
std::ostream &m_os_tp(std::ostream &, const char *, const int64_t &) MODEL("_ZN4date9to_streamIcSt11char_traitsIcENSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEEERSt13basic_ostreamIT_T0_ESC_PKS9_RKNS3_10time_pointINS3_3_V212system_clockET1_EE");
USED std::ostream &m_os_tp(std::ostream &os, const char *f, const int64_t &v) {
  auto s = print(f, 't', v);
  return os.write(s.data(), long(s.size()));
}
std::ostream &m_os_d(std::ostream &, const char *, const int64_t &) MODEL("_ZN4date9to_streamIcSt11char_traitsIcElSt5ratioILl1ELl1000000000EEEERSt13basic_ostreamIT_T0_ES9_PKS6_RKNSt6chrono8durationIT1_T2_EE");
USED std::ostream &m_os_d(std::ostream &os, const char *f, const int64_t &v) {
  auto s = print(f, 'd', v);
  return os.write(s.data(), long(s.size()));
}
std::istream &m_is_tp(std::istream &, const char *, int64_t &, void *, void *) MODEL("_ZN4date11from_streamINSt6chrono8durationIlSt5ratioILl1ELl1000000000EEEEcSt11char_traitsIcESaIcEEERSt13basic_istreamIT0_T1_ESD_PKSA_RNS1_10time_pointINS1_3_V212system_clockET_EEPNSt7__cxx1112basic_stringISA_SB_T2_EEPNS2_IlS3_ILl60ELl1EEEE");
USED std::istream &m_is_tp(std::istream &is, const char *f, int64_t &v, void *, void *) {
  parse(is, f, 't', v);
  return is;
}
std::istream &m_is_d(std::istream &, const char *, int64_t &, void *, void *) MODEL("_ZN4date11from_streamIlSt5ratioILl1ELl1000000000EEcSt11char_traitsIcESaIcEEERSt13basic_istreamIT1_T2_ESA_PKS7_RNSt6chrono8durationIT_T0_EEPNSt7__cxx1112basic_stringIS7_S8_T3_EEPNSE_IlS1_ILl60ELl1EEEE");
USED std::istream &m_is_d(std::istream &is, const char *f, int64_t &v, void *, void *) {
  parse(is, f, 'd', v);
  return is;
}
// a string stream, seen through the text it reads
void m_iss(void *, const std::string &, int) MODEL("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEEC1ERKNS_12basic_stringIcS2_S3_EESt13_Ios_Openmode");
USED void m_iss(void *p, const std::string &s, int) {
  g_date.source_ok = same(s.data(), s.size(), g_date.want_source);
  g_date.source_of = p;
}
void m_issd(void *) MODEL("_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEED1Ev");
USED void m_issd(void *) {}
