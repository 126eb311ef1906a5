// E01: an enumeration declared through the library prints every value under its own name.
#include "rt/sym.h"
#include <sstream>
#include <string>
#include "maf/messaging/client-server/CSError.h"
#include "maf/messaging/client-server/CSStatus.h"
#include "maf/messaging/client-server/CSTypes.h"
#include "maf/messaging/client-server/ParamTranslatingStatus.h"
#include "maf/utils/StringifyableEnum.h"
using namespace maf::messaging;
MC_MAF_STRINGIFYABLE_ENUM(One, char, Only)
MC_MAF_STRINGIFYABLE_ENUM(Wide, unsigned short, A, b2, C_c, dD, E)
template <class T, size_t N> void prints(const char *const (&names)[N], T end) {
  sym_assert((size_t)end == N, "the enumeration has exactly the declared values");
  uint8_t v = sym_u8("value");
  sym_assume(v < N);
  v = (uint8_t)sym_concretize(v);
  std::ostringstream os;
  os << "<" << (T)v << ">";
  sym_assert(os.str() == "<" + std::string(names[v]) + ">", "a value prints as the name it was declared with");
  sym_cover("end");
}
static_assert((int)CSErrorCode::InvalidParam == 0 && (int)OpCode::StatusRegister == 0);
SYM_ENTRY e01_user() {
  if (sym_choice(2, "which")) prints<Wide>({"A", "b2", "C_c", "dD", "E"}, Wide::__);
  else prints<One>({"Only"}, One::__);
  sym_assert((int)Wide::A == 0 && (int)Wide::b2 == 1 && (int)Wide::E == 4, "values number consecutively in declaration order");
}
SYM_ENTRY e01_library() {
  switch (sym_choice(2, "which")) {
    case 0: prints<CSErrorCode>({"InvalidParam", "ServerUnreachable", "ServiceUnavailable", "HandlerUnavailable", "ResourceUnavailable", "ResponseIgnored", "OperationFailed", "RequestRejected", "RequestTimeout", "Unknown"}, CSErrorCode::__); break;
    case 1: prints<OpCode>({"StatusRegister", "SignalRegister", "Unregister", "StatusGet", "Request", "PartialRequestUpdate", "Abort", "RegisterServiceStatus", "UnregisterServiceStatus", "ServiceStatusUpdate", "Invalid"}, OpCode::__); break;
  }
}
