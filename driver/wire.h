// Request/response framing: a message is u32 count, then per item u32 length
// and bytes. Little endian, stdin/stdout replaced by private descriptors.
#ifndef VERIF_WIRE_H_
#define VERIF_WIRE_H_
#include <fcntl.h>
#include <sys/types.h>
#include <unistd.h>

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <string>
#include <string_view>
#include <vector>

namespace wire {
using Msg = std::vector<std::string>;

inline bool ReadAll(int fd, void *buf, size_t n) {
  char *p = static_cast<char *>(buf);
  while (n) {
    const ssize_t r = read(fd, p, n);
    if (r <= 0) return false;
    p += r, n -= r;
  }
  return true;
}
inline void WriteAll(int fd, const void *buf, size_t n) {
  const char *p = static_cast<const char *>(buf);
  while (n) {
    const ssize_t r = write(fd, p, n);
    if (r <= 0) _exit(0);
    p += r, n -= r;
  }
}
inline bool ReadMsg(int fd, Msg *out) {
  out->clear();
  uint32_t n;
  if (!ReadAll(fd, &n, 4)) return false;
  while (n--) {
    uint32_t len;
    if (!ReadAll(fd, &len, 4)) return false;
    std::string s(len, '\0');
    if (len && !ReadAll(fd, s.data(), len)) return false;
    out->push_back(std::move(s));
  }
  return true;
}
inline void WriteMsg(int fd, const Msg &m) {
  std::string out;
  auto put = [&](uint32_t v) { out.append(reinterpret_cast<char *>(&v), 4); };
  put(m.size());
  for (const std::string &s : m) {
    put(s.size());
    out.append(s);
  }
  WriteAll(fd, out.data(), out.size());
}

using Handler = std::function<Msg(const Msg &)>;
inline int Serve(const std::map<std::string, Handler> &handlers) {
  const int in = fcntl(0, F_DUPFD_CLOEXEC, 20);
  const int out = fcntl(1, F_DUPFD_CLOEXEC, 20);
  const int null = open("/dev/null", O_RDWR);
  dup2(null, 0);
  dup2(null, 1);
  Msg request;
  while (ReadMsg(in, &request)) {
    auto found = request.empty() ? handlers.end() : handlers.find(request[0]);
    if (found == handlers.end()) {
      fprintf(stderr, "DRIVER: unknown op\n");
      _exit(77);
    }
    WriteMsg(out, found->second(request));
  }
  _exit(0);
}

// Minimal JSON-ish writer; bytes >= 0x80 become \u00XX (latin-1).
inline void Quote(std::string_view s, std::string *out) {
  out->push_back('"');
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      out->push_back('\\');
      out->push_back(c);
    } else if (c < 0x20 || c >= 0x7f) {
      char buf[8];
      snprintf(buf, sizeof(buf), "\\u%04x", c);
      out->append(buf);
    } else {
      out->push_back(c);
    }
  }
  out->push_back('"');
}
}  // namespace wire
#endif
