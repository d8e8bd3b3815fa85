// In-process driver for the checks: every operation is stateless, goes through
// the public headers of bant, and answers with plain data.
#include <sys/stat.h>

#include <algorithm>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <vector>

#include "bant/cli-commands.h"
#include "bant/explore/aliased-by.h"
#include "bant/explore/header-providers.h"
#include "bant/explore/query-utils.h"
#include "bant/frontend/ast.h"
#include "bant/frontend/elaboration.h"
#include "bant/frontend/linecolumn-map.h"
#include "bant/frontend/named-content.h"
#include "bant/frontend/parsed-project.h"
#include "bant/frontend/parser.h"
#include "bant/frontend/print-visitor.h"
#include "bant/frontend/scanner.h"
#include "bant/session.h"
#include "bant/tool/dwyu.h"
#include "bant/tool/edit-callback.h"
#include "bant/types-bazel.h"
#include "bant/util/arena.h"
#include "bant/util/file-utils.h"
#include "bant/util/glob-match-builder.h"
#include "bant/util/table-printer.h"
#include "bant/workspace.h"
#include "driver/wire.h"

using namespace bant;  // NOLINT
using wire::Msg;
using wire::Quote;

namespace {
std::string N(long long v) { return std::to_string(v); }

// Captures what goes to std::cerr directly.
class CaptureCerr {
 public:
  CaptureCerr() : old_(std::cerr.rdbuf(buf_.rdbuf())) {}
  ~CaptureCerr() { std::cerr.rdbuf(old_); }
  std::string str() const { return buf_.str(); }

 private:
  std::ostringstream buf_;
  std::streambuf *old_;
};

// Dump of the AST as JSON arrays.
class Dumper : public VoidVisitor {
 public:
  // If "content" is given, string and identifiers have their offset in there
  // (-1 if elsewhere). If "loc" is given, also their reported location.
  explicit Dumper(std::string_view content, const SourceLocator *loc = nullptr)
      : content_(content), loc_(loc) {}

  void Dump(Node *n) {
    if (n == nullptr) {
      out += "null";
    } else {
      n->Accept(this);
    }
  }
  void VisitAssignment(Assignment *a) final {
    out += "[\"assign\",";
    Dump(a->left());
    out += ",";
    Dump(a->right());
    out += "]";
  }
  void VisitFunCall(FunCall *f) final {
    out += "[\"call\",";
    Dump(f->left());
    out += ",";
    Dump(f->right());
    out += "]";
  }
  void VisitList(List *l) final {
    out += "[\"list\",\"";
    out += l->type() == List::Type::kList ? "[" :
           l->type() == List::Type::kMap  ? "{" : "(";
    if (mark_incomplete && l->is_incomplete()) out += "~";
    out += "\"";
    for (Node *n : *l) {
      out += ",";
      Dump(n);
    }
    out += "]";
  }
  void VisitBinOpNode(BinOpNode *b) final {
    out += "[\"bin\",";
    Op(b->op());
    out += ",";
    Dump(b->left());
    out += ",";
    Dump(b->right());
    out += "]";
  }
  void VisitUnaryExpr(UnaryExpr *e) final {
    out += "[\"un\",";
    Op(e->op());
    out += ",";
    Dump(e->node());
    out += "]";
  }
  void VisitListComprehension(ListComprehension *lh) final {
    out += "[\"compr\",\"";
    out += lh->type() == List::Type::kList ? "[" :
           lh->type() == List::Type::kMap  ? "{" : "(";
    out += "\",";
    Dump(lh->for_node());
    out += "]";
  }
  void VisitTernary(Ternary *t) final {
    out += "[\"if\",";
    Dump(t->condition());
    out += ",";
    Dump(t->positive());
    out += ",";
    Dump(t->negative());
    out += "]";
  }
  void VisitScalar(Scalar *s) final {
    if (s->type() == Scalar::ScalarType::kInt) {
      out += "[\"int\",";
      Quote(s->AsString(), &out);
      out += "," + N(s->AsInt());
    } else {
      const auto *str = static_cast<const StringScalar *>(s);
      out += "[\"str\",";
      Quote(s->AsString(), &out);
      out += "," + N(str->is_raw()) + "," + N(str->is_triple_quoted());
    }
    Where(s->AsString());
    out += "]";
  }
  void VisitIdentifier(Identifier *i) final {
    out += "[\"id\",";
    Quote(i->id(), &out);
    Where(i->id());
    out += "]";
  }

  std::string out;
  bool mark_incomplete = false;

 private:
  void Op(TokenType t) {
    std::ostringstream o;
    if (t == '!') {
      o << "!";
    } else if (t == TokenType::kNotEqual) {
      o << "!=";
    } else {
      o << t;
    }
    Quote(o.str(), &out);
  }
  void Where(std::string_view s) {
    const char *b = content_.data();
    const bool inside = s.data() >= b && s.data() + s.size() <= b + content_.size();
    out += "," + N(inside ? s.data() - b : -1);
    if (loc_ != nullptr) {
      out += ",";
      if (s.empty() && !inside) {
        out += "null";
      } else {
        Quote(loc_->Loc(s), &out);
      }
    }
  }
  std::string_view content_;
  const SourceLocator *loc_;
};

// -- scan content -> per token: type offset length newline location
Msg Scan(const Msg &m) {
  const std::string &c = m[1];
  const bool use_peek = m.size() > 2 && m[2] == "1";
  NamedLineIndexedContent source("f", c);
  Scanner scanner(source);
  Msg out;
  std::vector<Token> tokens;
  for (;;) {
    Token t;
    if (use_peek) {
      t = scanner.Peek();
      const Token n = scanner.Next();
      if (n.type != t.type || n.text.data() != t.text.data() ||
          n.text.size() != t.text.size()) {
        return {"PEEK-DIFFERS"};
      }
    } else {
      t = scanner.Next();
    }
    tokens.push_back(t);
    if (t.type == kEof) break;
    if (tokens.size() > c.size() + 4) return {"NO-PROGRESS"};
  }
  for (const Token &t : tokens) {
    std::ostringstream type;
    if (t.type == '!') {
      type << "!";
    } else if (t.type == kNotEqual) {
      type << "!=";
    } else {
      type << t.type;
    }
    out.push_back(type.str() + " " + N(t.text.data() - c.data()) + " " +
                  N(t.text.size()) + " " + N(t.newline_since_last_token) +
                  " " + source.Loc(t.text));
  }
  out.push_back(N(source.mutable_line_index()->lines()));
  return out;
}

// -- parse content -> error flag, messages, dump, printed statements
Msg Parse(const Msg &m) {
  const std::string &c = m[1];
  NamedLineIndexedContent source("BUILD", c);
  Scanner scanner(source);
  Arena arena(4096);
  std::ostringstream err;
  Parser parser(&scanner, &arena, err);
  List *ast = parser.parse();
  Dumper d(c, &source);
  d.Dump(ast);
  Msg out{N(parser.parse_error()), err.str(), d.out};
  // Printed, statement by statement (that is what users get to see).
  if (ast != nullptr) {
    for (Node *n : *ast) {
      std::ostringstream o;
      o << n;
      out.push_back(o.str());
    }
  }
  return out;
}

// -- query content kinds(0..4) allow_empty -> per result one message
Msg QueryOp(const Msg &m) {
  const std::string &c = m[1];
  NamedLineIndexedContent source("BUILD", c);
  Scanner scanner(source);
  Arena arena(4096);
  std::ostringstream err;
  Parser parser(&scanner, &arena, err);
  List *ast = parser.parse();
  Msg out{N(parser.parse_error())};
  const query::TargetFindCallback cb = [&](const query::Result &r) {
    std::string o = "{";
    auto key = [&](const char *k) {
      if (o.size() > 1) o += ",";
      o += std::string("\"") + k + "\":";
    };
    auto str = [&](const char *k, std::string_view v) {
      key(k);
      Quote(v, &o);
    };
    auto list = [&](const char *k, List *l) {
      key(k);
      if (l == nullptr) {
        o += "null";
        return;
      }
      o += "[";
      bool first = true;
      for (const std::string_view e : query::ExtractStringList(l)) {
        if (!first) o += ",";
        first = false;
        Quote(e, &o);
      }
      o += "]";
    };
    str("rule", r.rule);
    str("name", r.name);
    str("actual", r.actual);
    str("version", r.version);
    str("repo_name", r.repo_name);
    str("deprecation", r.deprecation);
    str("include_prefix", r.include_prefix);
    str("strip_include_prefix", r.strip_include_prefix);
    list("srcs", r.srcs_list);
    list("hdrs", r.hdrs_list);
    list("textual_hdrs", r.textual_hdrs);
    list("public_hdrs", r.public_hdrs);
    list("deps", r.deps_list);
    list("outs", r.outs_list);
    list("visibility", r.visibility);
    list("includes", r.includes_list);
    key("alwayslink");
    o += N(r.alwayslink);
    key("testonly");
    o += N(r.testonly);
    key("at");
    o += N(r.node->identifier()->id().data() - c.data());
    o += "}";
    out.push_back(o);
  };
  auto find = [&](std::initializer_list<std::string_view> kinds) {
    if (m[3] == "1") {
      query::FindTargetsAllowEmptyName(ast, kinds, cb);
    } else {
      query::FindTargets(ast, kinds, cb);
    }
  };
  switch (m[2][0]) {
  case '1': find({"cc_library"}); break;
  case '2': find({"cc_library", "cc_binary", "cc_test"}); break;
  case '3': find({"alias"}); break;
  case '4': find({"genrule", "my_rule"}); break;
  default: find({});
  }
  return out;
}

class TestUtilProject : public ParsedProject {
 public:
  using ParsedProject::ParsedProject;
};

Session MakeSession(std::ostream *out, std::ostream *info,
                    const CommandlineFlags &flags = {}) {
  return Session(out, info, flags);
}

// -- cli cwd flags(key=value...) | args -> status out info cerr
Msg Cli(const Msg &m) {
  if (chdir(m[1].c_str()) != 0) return {"-1", "", "chdir", ""};
  CommandlineFlags flags;
  size_t i = 2;
  for (; i < m.size() && m[i] != "--"; ++i) {
    const std::string &f = m[i];
    if (f == "e") flags.elaborate = true;
    else if (f == "E") flags.print_only_errors = true;
    else if (f == "p") flags.print_ast = true;
    else if (f == "k") flags.ignore_keep_comment = true;
    else if (f == "v") flags.verbose++;
    else if (f == "color") flags.do_color = true;
    else if (f.starts_with("r")) flags.recurse_dependency_depth = atoi(f.c_str() + 1);
    else if (f.starts_with("g")) flags.grep_regex = f.substr(1);
    else if (f == "fnative") flags.output_format = OutputFormat::kNative;
    else if (f == "fs-expr") flags.output_format = OutputFormat::kSExpr;
    else if (f == "fplist") flags.output_format = OutputFormat::kPList;
    else if (f == "fjson") flags.output_format = OutputFormat::kJSON;
    else if (f == "fcsv") flags.output_format = OutputFormat::kCSV;
  }
  std::vector<std::string_view> args;
  for (++i; i < m.size(); ++i) args.emplace_back(m[i]);
  std::ostringstream out, info;
  CaptureCerr cerr_capture;
  CliStatus status;
  {
    Session session(&out, &info, flags);
    status = RunCliCommand(session, args);
  }
  if (chdir("/") != 0) return {"-1", "", "chdir", ""};
  return {N(static_cast<int>(status)), out.str(), info.str(),
          cerr_capture.str()};
}

// -- elaborate cwd file project path -> errors, dump, printed..
// With another argument: errors, dump, dump after evaluating once more. Lists
// known to be incomplete are marked.
// Reads a BUILD file from disk like the commands do, and elaborates it.
Msg ElaborateOp(const Msg &m) {
  if (chdir(m[1].c_str()) != 0) return {"-1"};
  std::ostringstream out, info;
  CaptureCerr cerr_capture;
  Msg result;
  {
    Session session(&out, &info, {});
    BazelWorkspace workspace;
    if (auto w = LoadWorkspace(session); w.has_value()) workspace = *w;
    ParsedProject project(workspace, false);
    const BazelPackage package(m[3], m[4]);
    ParsedBuildFile *f =
      project.AddBuildFile(session, FilesystemPath(m[2]), package);
    if (f == nullptr) return {"-1"};
    const bool parse_failed = !f->errors.empty();
    Elaborate(session, &project, f);
    if (m.size() > 5) {
      result = {N(parse_failed), f->errors};
      for (int i = 0; i < 2; ++i) {
        Dumper d(std::string_view(), nullptr);
        d.mark_incomplete = true;
        d.Dump(f->ast);
        result.push_back(d.out);
        Elaborate(session, &project, f);
      }
      if (chdir("/") != 0) return {"-1"};
      return result;
    }
    Dumper d(std::string_view(), &project);
    d.Dump(f->ast);
    result = {N(parse_failed), f->errors, d.out};
    for (Node *n : *f->ast) {
      std::ostringstream o;
      o << n;
      result.push_back(o.str());
    }
  }
  if (chdir("/") != 0) return {"-1"};
  return result;
}

Msg TargetParse(const Msg &m) {  // str, ctx project, ctx path, relative-to p,p
  auto t = BazelTarget::ParseFrom(m[1], BazelPackage(m[2], m[3]));
  if (!t.has_value()) return {"0"};
  return {"1", t->package.project, t->package.path, t->target_name,
          t->ToString(), t->ToStringRelativeTo(BazelPackage(m[4], m[5]))};
}
Msg PackageParse(const Msg &m) {
  auto p = BazelPackage::ParseFrom(m[1]);
  if (!p.has_value()) return {"0"};
  return {"1", p->project, p->path, p->ToString()};
}
Msg PackageFiles(const Msg &m) {  // project path file
  const BazelPackage p(m[1], m[2]);
  auto t = p.QualifiedTarget(m[3]);
  return {p.QualifiedFile(m[3]), t ? "1" : "0", t ? t->ToString() : "",
          t ? t->target_name : ""};
}
// pattern visibility?(0/1) ctx_project ctx_path, then triples of targets
Msg PatternOp(const Msg &m) {
  std::optional<BazelPattern> p;
  CaptureCerr capture;
  if (m[2] == "1") {
    p = BazelPattern::ParseVisibility(m[1], BazelPackage(m[3], m[4]));
  } else {
    p = BazelPattern::ParseFrom(m[1]);
  }
  if (!p.has_value()) return {"0"};
  Msg out{"1", N(p->is_recursive()), N(p->is_matchall())};
  for (size_t i = 5; i + 2 < m.size(); i += 3) {
    const BazelPackage package(m[i], m[i + 1]);
    auto t = package.QualifiedTarget(m[i + 2]);
    out.push_back(N(t.has_value() && p->Match(*t)) + N(p->Match(package)));
  }
  return out;
}
// glob: n_include includes n_exclude excludes paths... -> filebit dirbit
Msg GlobOp(const Msg &m) {
  GlobMatchBuilder b;
  size_t i = 1;
  int n = atoi(m[i++].c_str());
  while (n--) b.AddIncludePattern(m[i++]);
  n = atoi(m[i++].c_str());
  while (n--) b.AddExcludePattern(m[i++]);
  auto file = b.BuildFileMatchPredicate();
  auto dir = b.BuildDirectoryMatchPredicate();
  Msg out;
  for (; i < m.size(); ++i) out.push_back(N(file(m[i])) + N(dir(m[i])));
  return out;
}
// collect cwd start reject-dirs(\n separated basenames) symlinks?(follow 0/1)
Msg Collect(const Msg &m) {
  if (chdir(m[1].c_str()) != 0) return {"ERR"};
  std::set<std::string> reject;
  std::istringstream in(m[3]);
  for (std::string line; std::getline(in, line);) reject.insert(line);
  Msg dirs;
  Msg out;
  const auto found = CollectFilesRecursive(
    FilesystemPath(m[2]),
    [&](const FilesystemPath &d) {
      dirs.push_back(d.path() + (d.is_symlink() ? "|L" : "|D") +
                     (d.is_directory() ? "d" : "-"));
      if (m[4] == "0" && d.is_symlink()) return false;
      return !reject.contains(std::string(d.filename()));
    },
    [&](const FilesystemPath &f) {
      return !f.filename().ends_with(".skip");
    });
  for (const auto &f : found) {
    out.push_back(f.path() + "|" + std::string(f.filename()) + "|" +
                  N(f.can_read()) + N(f.is_directory()) + N(f.is_symlink()));
  }
  if (chdir("/") != 0) return {"ERR"};
  out.push_back("--");
  for (auto &d : dirs) out.push_back(d);
  return out;
}
Msg FsGlob(const Msg &m) {
  if (chdir(m[1].c_str()) != 0) return {"ERR"};
  Msg out;
  for (const auto &f : Glob(m[2])) out.push_back(f.path());
  if (chdir("/") != 0) return {"ERR"};
  return out;
}
Msg ReadFile(const Msg &m) {
  auto c = ReadFileToString(FilesystemPath(m[1]));
  if (!c) return {"0"};
  return {"1", *c};
}
Msg PathOp(const Msg &m) {
  const FilesystemPath p(m[1], m[2]);
  const FilesystemPath q(p.path());
  return {p.path(), std::string(p.filename()), std::string(q.filename())};
}
// suffix cwd n (file package)* (key min)* -> per key 0 | 1 match score targets
// The index is the one the library itself extracts from BUILD files.
Msg Suffix(const Msg &m) {
  std::ostringstream out, info;
  Session session(&out, &info, {});
  BazelWorkspace ws;
  ParsedProject project(ws, false);
  if (chdir(m[1].c_str()) != 0) return {"ERR"};
  size_t i = 3;
  for (int n = atoi(m[2].c_str()); n; --n, i += 2) {
    project.AddBuildFile(session, FilesystemPath(m[i]),
                         BazelPackage("", m[i + 1]));
  }
  auto index = ExtractHeaderToLibMapping(project, info, true);
  Msg result;
  for (; i + 1 < m.size(); i += 2) {
    auto r = FindBySuffix(index, m[i], atoi(m[i + 1].c_str()));
    std::string line = "0";
    if (r.has_value()) {
      line = "1\t" + r->match + "\t" + N(r->fuzzy_score);
      for (const auto &t : *r->target_set) line += "\t" + t.ToString();
    }
    result.push_back(line);
  }
  if (chdir("/") != 0) return {"ERR"};
  return result;
}
// table format ncols headers.. then rows: "R" cols.. | "L" prefix.. n cols..
Msg Table(const Msg &m) {
  std::ostringstream out;
  const OutputFormat f = m[1] == "json"     ? OutputFormat::kJSON
                         : m[1] == "csv"    ? OutputFormat::kCSV
                         : m[1] == "s-expr" ? OutputFormat::kSExpr
                         : m[1] == "plist"  ? OutputFormat::kPList
                                            : OutputFormat::kNative;
  size_t i = 2;
  const int ncols = atoi(m[i++].c_str());
  std::vector<std::string> headers;
  for (int c = 0; c < ncols; ++c) headers.push_back(m[i++]);
  {
    auto printer = TablePrinter::Create(out, f, headers);
    while (i < m.size()) {
      if (m[i++] == "R") {
        std::vector<std::string> row;
        for (int c = 0; c < ncols; ++c) row.push_back(m[i++]);
        printer->AddRow(row);
      } else {
        std::vector<std::string> prefix, rep;
        for (int c = 0; c < ncols - 1; ++c) prefix.push_back(m[i++]);
        int n = atoi(m[i++].c_str());
        while (n--) rep.push_back(m[i++]);
        printer->AddRowWithRepeatedLastColumn(prefix, rep);
      }
    }
    printer->Finish();
  }
  return {out.str()};
}
Msg Includes(const Msg &m) {
  NamedLineIndexedContent src("src.cc", m[1]);
  Msg out;
  for (std::string_view s : ExtractCCIncludes(&src)) {
    out.push_back(N(s.data() - m[1].data()) + " " + N(s.size()) + " " +
                  src.Loc(s));
    out.push_back(std::string(src.GetSurroundingLine(s)));
  }
  return out;
}
// buildozer (op target_str ctx before after)*
Msg Buildozer(const Msg &m) {
  std::ostringstream out;
  auto cb = CreateBuildozerDepsEditCallback(out);
  for (size_t i = 1; i + 3 < m.size(); i += 4) {
    auto t = BazelTarget::ParseFrom(m[i + 1], BazelPackage("", ""));
    if (!t) continue;
    cb(m[i] == "remove" ? EditRequest::kRemove
       : m[i] == "add"  ? EditRequest::kAdd
                        : EditRequest::kRename,
       *t, m[i + 2], m[i + 3]);
  }
  return {out.str()};
}
// linemap content (offset len)*
Msg LineMap(const Msg &m) {
  const std::string &c = m[1];
  NamedLineIndexedContent src("n.txt", c);
  src.mutable_line_index()->InitializeFromStringView(src.content());
  Msg out{N(src.mutable_line_index()->lines())};
  for (size_t i = 2; i + 1 < m.size(); i += 2) {
    const std::string_view s =
      src.content().substr(atoi(m[i].c_str()), atoi(m[i + 1].c_str()));
    const FileLocation l = src.GetLocation(s);
    const LineColumnRange r = l.line_column_range;
    out.push_back(N(r.start.line) + " " + N(r.start.col) + " " +
                  N(r.end.line) + " " + N(r.end.col) + " " +
                  std::string(l.filename) + " " + src.Loc(s));
    out.push_back(std::string(src.GetSurroundingLine(s)));
  }
  return out;
}
// rangemap total-length n (off len)* then queries (off len)*
Msg RangeMap(const Msg &m) {
  const std::string buf(atoi(m[1].c_str()), 'x');
  const std::string_view sv(buf);
  DisjointRangeMap<std::string_view, int> map;
  size_t i = 2;
  const int n = atoi(m[i++].c_str());
  Msg out;
  std::string ins;
  for (int k = 0; k < n; ++k, i += 2) {
    ins += N(map.Insert(
      sv.substr(atoi(m[i].c_str()), atoi(m[i + 1].c_str())), k));
  }
  out.push_back(ins);
  for (; i + 1 < m.size(); i += 2) {
    auto r = map.FindBySubrange(
      sv.substr(atoi(m[i].c_str()), atoi(m[i + 1].c_str())));
    out.push_back(r.has_value() ? N(*r) : "-");
  }
  return out;
}
Msg VersionDir(const Msg &m) {
  auto v = VersionedProject::ParseFromDir(m[1]);
  if (!v) return {"0"};
  return {"1", v->project, v->version};
}
// workspace cwd queries... -> entries "project\tversion\tpath", "--", answers
Msg WorkspaceOp(const Msg &m) {
  if (chdir(m[1].c_str()) != 0) return {"ERR"};
  std::ostringstream out, info;
  CaptureCerr capture;
  Session session(&out, &info, {});
  auto w = LoadWorkspace(session);
  Msg result;
  if (!w.has_value()) {
    result = {"0"};
  } else {
    result = {"1"};
    for (const auto &[p, path] : w->project_location) {
      result.push_back(p.project + "\t" + p.version + "\t" + path.path());
    }
    result.push_back("--");
    BestEffortAugmentFromExternalDir(*w);
    for (const auto &[p, path] : w->project_location) {
      result.push_back(p.project + "\t" + p.version + "\t" + path.path());
    }
    result.push_back("--");
    for (size_t i = 2; i < m.size(); ++i) {
      auto p = w->FindPathByProject(m[i]);
      result.push_back(p ? "1" + p->path() : "0");
    }
  }
  if (chdir("/") != 0) return {"ERR"};
  return result;
}

Msg Ping(const Msg &m) { return m; }
}  // namespace

int main() {
  return wire::Serve({
    {"ping", Ping},
    {"scan", Scan},
    {"parse", Parse},
    {"query", QueryOp},
    {"cli", Cli},
    {"elaborate", ElaborateOp},
    {"target", TargetParse},
    {"package", PackageParse},
    {"pkgfiles", PackageFiles},
    {"pattern", PatternOp},
    {"glob", GlobOp},
    {"collect", Collect},
    {"fsglob", FsGlob},
    {"readfile", ReadFile},
    {"path", PathOp},
    {"suffix", Suffix},
    {"table", Table},
    {"includes", Includes},
    {"buildozer", Buildozer},
    {"linemap", LineMap},
    {"rangemap", RangeMap},
    {"versiondir", VersionDir},
    {"workspace", WorkspaceOp},
  });
}
