// mon <mode> <seed> <from> <to> <eventfd> [key=value...]
#include "core.hpp"
#include <unistd.h>
int main(int argc, char **argv) {
  if (argc < 6) { fprintf(stderr, "usage: mon mode seed from to eventfd [k=v...]\n"); return 3; }
  setvbuf(stdout, NULL, _IOLBF, 0);
  std::map<std::string, std::string> args;
  for (int i = 6; i < argc; i++) {
    std::string a = argv[i];
    size_t p = a.find('=');
    if (p != std::string::npos) args[a.substr(0, p)] = a.substr(p + 1);
  }
  mon::ev_open(atoi(argv[5]));
  int rc = mon::dispatch(argv[1], strtoull(argv[2], NULL, 10), atol(argv[3]), atol(argv[4]), args);
  return rc;
}
