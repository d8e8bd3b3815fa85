// libFuzzer target: any content of BUILD files, sources and MODULE.bazel, looked
// at by any command.
// Byte 0: command, 1: flags, rest: parts separated by byte 0xfe.
#include <sys/stat.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

#include "bant/cli-commands.h"
#include "bant/session.h"

using namespace bant;

static const char *const kFiles[] = {"BUILD", "a/BUILD.bazel", "a/x.cc", "a/x.h", "MODULE.bazel", "a/m.proto"};

static const char *const kCommands[] = {
  "print", "parse", "workspace", "list-packages", "list-targets",
  "aliased-by", "depends-on", "has-dependents", "lib-headers",
  "genrule-outputs", "dwyu", "canonicalize", "compile-flags",
  "compilation-db"};

static std::string root;

static void CleanUp() {
  for (const char *f : kFiles) unlink(f);
  rmdir("a");
  if (chdir("/") == 0) rmdir(root.c_str());
}

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
  char dir[] = "/dev/shm/verif-fuzz-XXXXXX";
  if (!mkdtemp(dir) || chdir(dir) != 0 || mkdir("a", 0755) != 0) abort();
  root = dir;
  atexit(CleanUp);
  std::cerr.rdbuf(nullptr);
  return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
  if (size < 2) return -1;
  const std::string_view all(reinterpret_cast<const char *>(data) + 2, size - 2);
  // Variables doubling in size with each assignment take memory, as they should.
  size_t plus = 0;
  for (char c : all) plus += c == '+' || c == '%';
  if (plus > 10) return -1;
  std::vector<std::string_view> parts;
  size_t begin = 0;
  for (;;) {
    const size_t end = all.find('\xfe', begin);
    parts.push_back(all.substr(begin, end == std::string_view::npos ? end : end - begin));
    if (end == std::string_view::npos) break;
    begin = end + 1;
  }
  for (size_t i = 0; i < std::size(kFiles); ++i) {
    std::ofstream out(kFiles[i], std::ios::binary);
    if (i < parts.size()) out << parts[i];
  }
  CommandlineFlags flags;
  const uint8_t f = data[1];
  flags.elaborate = f & 1;
  flags.recurse_dependency_depth = f & 2 ? 5 : 0;
  flags.ignore_keep_comment = f & 4;
  flags.print_only_errors = f & 8;
  static const OutputFormat kFormats[] = {OutputFormat::kNative, OutputFormat::kJSON, OutputFormat::kPList, OutputFormat::kSExpr};
  flags.output_format = kFormats[(f >> 4) & 3];
  if (f & 64) flags.grep_regex = "(a|x)";
  const std::string_view cmd = kCommands[data[0] % std::size(kCommands)];
  std::ostringstream out, info;
  Session session(&out, &info, flags);
  std::vector<std::string_view> args = {cmd};
  if (cmd != "workspace") args.push_back("//...");
  RunCliCommand(session, args);
  return 0;
}
