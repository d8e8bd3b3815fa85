// Stand-in for clang-tidy: findings are a function of the file, what it
// includes, configuration, arguments and compilation database.
// Understands lines in the source
//   BAD <check> <r|a|d|b>  finding; path printed relative, absolute, ./, bazel
//   NEEDS <word>           finding unless a directly included file has the word
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>
#include <string>

static bool Read(const std::string &f, std::string *out) {
  std::ifstream in(f);
  if (!in) return false;
  std::stringstream s;
  s << in.rdbuf();
  *out = s.str();
  return true;
}

int main(int argc, char **argv) {
  if (argc > 1 && strcmp(argv[1], "--version") == 0) {
    printf("Fake linter version %s\n", getenv("FAKE_VERSION"));
    return 0;
  }
  const std::string file = argv[1];
  const std::string log = file + "\n";
  const int fd = open(getenv("FAKE_LOG"), O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (write(fd, log.data(), log.size()) < 0) return 125;
  std::string content, all;
  Read(file, &content);
  std::string included;
  std::stringstream lines(content);
  for (std::string l; std::getline(lines, l); ) {
    // [blanks]#[blanks]include[blanks]"name"
    size_t p = l.find_first_not_of(" \t");
    if (p == std::string::npos || l[p] != '#') continue;
    p = l.find_first_not_of(" \t", p + 1);
    if (p == std::string::npos || l.compare(p, 7, "include") != 0) continue;
    p = l.find_first_not_of(" \t", p + 7);
    if (p == std::string::npos || l[p] != '"') continue;
    const std::string h = l.substr(p + 1, l.find('"', p + 1) - p - 1);
    std::string c;
    if (Read(h, &c) || Read(file.substr(0, file.rfind('/') + 1) + h, &c)) {
      included += c + "\n";
    }
  }
  all = content + "\1" + included + "\1";
  for (const char *f : {".clang-tidy", "compile_commands.json", "compile_flags.txt", "MODULE.bazel"}) {
    std::string c;
    Read(f, &c);
    all += c + "\1";
  }
  for (int i = 2; i < argc; ++i) all += std::string(argv[i]) + "\1";
  all += getenv("FAKE_VERSION");
  uint32_t h = 2166136261u;
  for (unsigned char c : all) h = (h ^ c) * 16777619u;

  const std::string fault = getenv("FAKE_FAULT") ? getenv("FAKE_FAULT") : "";
  const bool is_fault = fault.substr(0, fault.find(' ')) == file;
  const std::string kind = is_fault ? fault.substr(fault.find(' ') + 1) : "";
  if (kind == "killall") {
    usleep(20000);
    kill(0, SIGKILL);
  }
  if (kind == "127") return 127;
  lines.clear();
  lines.str(content);
  char cwd[4096];
  if (!getcwd(cwd, sizeof(cwd))) return 125;
  int no = 0;
  int status = 0;
  auto finding = [&](const std::string &check, char style) {
    const std::string prefix = style == 'a'   ? std::string(cwd) + "/"
                               : style == 'd' ? "./"
                               : style == 'b' && getenv("FAKE_EXECROOT")
                                 ? std::string(getenv("FAKE_EXECROOT")) + "/"
                                 : "";
    printf("%s%s:%d:1: warning: %08x [%s]\n  %d | code\n%s%s:%d:2: note: here\n", prefix.c_str(), file.c_str(), no, h, check.c_str(),
           no, prefix.c_str(), file.c_str(), no);
    fflush(stdout);
    if (kind == "segv") {
      signal(SIGSEGV, SIG_DFL);
      raise(SIGSEGV);
    }
    if (check.find("error") != std::string::npos) status = 1;
  };
  for (std::string l; std::getline(lines, l); ) {
    ++no;
    std::stringstream words(l);
    std::string what, arg;
    char style = 'r';
    words >> what >> arg >> style;
    if (what == "BAD") finding(arg, style);
    if (what == "NEEDS" && included.find("HAS " + arg) == std::string::npos) finding("misc-needs", 'r');
  }
  if (kind == "segv") {
    signal(SIGSEGV, SIG_DFL);
    raise(SIGSEGV);
  }
  if (kind == "int") {
    signal(SIGINT, SIG_DFL);
    raise(SIGINT);
  }
  fprintf(stderr, "%d warnings generated.\n", no);
  return status;
}
