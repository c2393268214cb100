// print.h: console output is not part of any property; every print is a no-op
#ifndef OV_CORE_PRINT_H
#define OV_CORE_PRINT_H
#include <string>
namespace ov_core {
class Printer {
public:
  enum PrintLevel { ALL = 0, DEBUG = 1, INFO = 2, WARNING = 3, ERROR = 4, SILENT = 5 };
  static void setPrintLevel(const std::string &) {}
  static void setPrintLevel(PrintLevel) {}
  static void debugPrint(PrintLevel, const char *, const char *, const char *, ...) {}
  static PrintLevel current_print_level;
};
} // namespace ov_core
#define PRINT_ALL(...) ((void)0);
#define PRINT_DEBUG(...) ((void)0);
#define PRINT_INFO(...) ((void)0);
#define PRINT_WARNING(...) ((void)0);
#define PRINT_ERROR(...) ((void)0);
#endif
