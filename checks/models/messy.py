"""A project that has a bit of everything, and ways to damage its files."""
import re

from hypothesis import strategies as st

BUILD = '''load("@rules_cc//cc:defs.bzl", "cc_library", proto_library = "plib")
package(default_visibility = ["//visibility:public"], features = [])
COMMON = ["-Wall"] + select({"//conditions:default": [], ":opt": ["-O2"]})
(SRCS, HDRS) = (glob(["*.cc"]), glob(include = ["**/*.h"], exclude = ["x/**"]))
cc_library(
    name = "foo",  # a comment
    srcs = SRCS + ["foo.cc", "x.cc"],
    hdrs = HDRS + ["foo.h"] + glob(["*.inc"], allow_empty = True),
    includes = ["."],
    copts = COMMON,
    deps = [":bar", "//a:x", "@ext//:lib", "//a",  # keep
        "%s:y" % "//b", ],
)
[cc_test(name = "t_" + n, srcs = [n + "_test.cc"], deps = [":foo"]) for (n, v) in [("a", 1), ("b", 0x2f)] if v != 3]
alias(name = "bar", actual = "//a:x")
alias(name = "loop", actual = ":loop")
genrule(name = "gen", outs = ["gen.h", "sub/" + "gen.cc"], cmd = """
 touch $@
""", tools = [r"tool\\n"])
cc_binary(name = 'main', srcs = ["main.cc", ":gen"], deps = {"k": [":foo"]}["k"], linkopts = ["-l%s" % x for x in "ab"])
config_setting(name = "opt", values = {"a": "b", 1: -2.5}, x = not True and a.b(c)[1:2] if z else f(x))
'''
SUB = '''cc_library(name = "x", hdrs = ["x.h"], srcs = ["x.cc"], strip_include_prefix = "/a", include_prefix = "p", alwayslink = 1, deps = ["//:foo", ":m_cc"], visibility = ["//b:__subpackages__"])
proto_library(name = "m", srcs = ["m.proto"], deps = ["//:n"])
cc_proto_library(name = "m_cc", deps = [":m"])
bant_custom(name = "a", hdrs = ["y.h"], actual = ["//x"], testonly = True)
cc_library(name = "y", hdrs = glob(["y*.h"]), deps = [])
'''
SOURCE = '''// comment "x.h"
#include "a/x.h"  // IWYU pragma: keep
#include <vector>
/* #include "b" */
  #  include "gen.h"
R"(#include "no.h")"
#ifdef X
#include "foo.h"
#endif
'''
PROTO = 'syntax = "proto3";\nimport "a/n.proto";\nimport public \'b.proto\';\nmessage M {}\n'
MODULE = '''module(name = "main", version = "1")
bazel_dep(name = "ext", version = "1.0", repo_name = "e")
bazel_dep(name = "rules_cc", version = "0.0.9", dev_dependency = True)
http_archive(name = "arch", urls = ["https://x/v1.2.3.tar.gz"], strip_prefix = "x-1.2")
archive_override(module_name = "ext", urls = "u")
'''
FILES = {
    'MODULE.bazel': MODULE,
    'WORKSPACE': 'workspace(name = "w")\n' + MODULE,
    'BUILD': BUILD,
    'a/BUILD.bazel': SUB,
    'b/BUILD': SUB.replace('"//:foo"', '"//a:x"').replace('"/a"', '"x"'),
    'a/x.cc': SOURCE,
    'a/x.h': SOURCE,
    'foo.cc': SOURCE,
    'main.cc': SOURCE,
    'foo.h': '#include "a/x.h"\n',
    'a/y1.h': '',
    'a/m.proto': PROTO,
    '.bazelrc': 'build --cxxopt=-std=c++20 --host_cxxopt=-x\nbuild:x --cxxopt=a\n',
}
EXT_BUILD = 'cc_library(name = "lib", hdrs = ["lib.h"], deps = ["//sub"])\n'

FRAGMENTS = [
    b'(', b')', b'[', b']', b'{', b'}', b',', b'=', b'==', b'+', b'%', b'*', b'**', b'-', b'/', b'//', b'|', b'.', b':', b'!', b'!=', b'<', b'>=',
    b'"', b"'", b'"""', b'\\', b'\n', b'\\\n', b'#', b'\0', b'\xff', b'\xc3', b'\xe2\x98\x83', b'\t', b'\r', b'\x0c', b'\x1b[1m',
    b'if', b'else', b'for', b'in', b'not', b'and', b'or', b'not in', b'lambda', b'def', b'return', b'None', b'True', b'r"', b"R'''",
    b'1', b'0x', b'0xffffffffffffffffff', b'99999999999999999999999999', b'1.5e', b'-9223372036854775808', b'0o7',
    b'name = ', b'name = ""', b'name = 1', b'name = x', b'name = ["a"]', b'deps = ', b'deps = []', b'srcs = None', b'glob()', b'glob([])', b'glob(["**"])',
    b'glob(["a/../**"])', b'glob(["["])', b'glob([x])', b'glob("x")', b'glob(["*"], ["*"])', b'glob(["**/**/**"])', b'glob(["/"])', b'glob([""])',
    b'select({})', b'select()', b'select([])', b'select({"//conditions:default"})', b'select({"//conditions:default": })', b'select({1: 2}, x = 3)',
    b'":"', b'"//"', b'"@"', b'"@//"', b'"//:"', b'"@@"', b'"a:b:c"', b'"//a/..."', b'"..."', b'"//a//b"', b'"/"', b'"../x"', b'"."', b'":foo"', b'"//a"', b'"@ext//:lib"',
    b'"%"', b'"%s" % ()', b'"%s" % 1', b'"%d%s" % (1,)', b'"{}".format(1)', b'"a".join([])', b'x.y', b'x()', b'()()', b'[[]]', b'(,)', b'[,]', b'{,}', b'{:}', b'{1}',
    b'cc_library(', b'cc_library()', b'cc_library', b'alias(name = "z", actual = "")', b'alias(name = "foo")', b'cc_library(name = "foo")', b'package(1)', b'package(default_visibility = "x")',
    b'genrule(name = "g", outs = "x")', b'genrule(name = "g", outs = [1, "", "/", "../y"])', b'bazel_dep()', b'bazel_dep(name = "ext")', b'bazel_dep(version = 1)',
    b'for x in y', b'[x for x in', b'[x for x in y if z]', b'x if y else z', b'(a, b) = (b, a)', b'a = a', b'foo = [foo]', b'x[1:2:3]', b'x[:]', b'x[]',
    b'#include ', b'#include "', b'#include ""', b'#include "/"', b'#include "../../x"', b'#include <>', b'R"(', b'//', b'/*', b'*/', b'import "', b'import "";',
]

TOKEN = re.compile(rb'\w+|"[^"\n]*"|[ ]+|.', re.S)
file_name = st.sampled_from(sorted(FILES) + ['BUILD'] * 8 + ['a/BUILD.bazel'] * 3)
position = st.integers(0, 999)
mutation = st.one_of(
    st.tuples(st.just('cut'), position, st.integers(1, 12)),
    st.tuples(st.just('cut'), position, st.integers(1, 2)),
    st.tuples(st.just('end'), position),
    st.tuples(st.just('begin'), position),
    st.tuples(st.just('twice'), position, st.integers(1, 30)),
    st.tuples(st.just('swap'), position, position),
    st.tuples(st.just('insert'), position, st.lists(st.sampled_from(FRAGMENTS), min_size=1, max_size=3)),
    st.tuples(st.just('insert'), position, st.lists(st.sampled_from(FRAGMENTS), min_size=1, max_size=3)),
    st.tuples(st.just('replace'), position, st.lists(st.sampled_from(FRAGMENTS), min_size=1, max_size=2)),
    st.tuples(st.just('replace'), position, st.lists(st.sampled_from(FRAGMENTS), min_size=1, max_size=2)),
    st.tuples(st.just('flip'), position, st.integers(1, 255)),
    st.tuples(st.just('splice'), position, st.sampled_from(sorted(FILES)), position, st.integers(1, 40)),
)


def damage(content, m):
  t = TOKEN.findall(content)
  k = m[0]
  p = m[1] * (len(t) + 1) // 1000
  if k == 'cut':
    del t[p:p + m[2]]
  elif k == 'end':
    return content[:m[1] * (len(content) + 1) // 1000]
  elif k == 'begin':
    return content[m[1] * (len(content) + 1) // 1000:]
  elif k == 'twice':
    t[p:p] = t[p:p + m[2]]
  elif k == 'swap':
    q = m[2] * len(t) // 1000
    if p < len(t) and q < len(t):
      t[p], t[q] = t[q], t[p]
  elif k == 'insert':
    t[p:p] = m[2]
  elif k == 'replace':
    t[p:p + 1] = m[2]
  elif k == 'flip':
    b = bytearray(content)
    if b:
      b[m[1] * len(b) // 1000] ^= m[2]
    return bytes(b)
  elif k == 'splice':
    o = TOKEN.findall(FILES[m[2]].encode())
    q = m[3] * len(o) // 1000
    t[p:p] = o[q:q + m[4]]
  return b''.join(t)


@st.composite
def damaged(draw, names=file_name):
  """{file: content}, [damaged files]"""
  files = {n: t.encode() for n, t in FILES.items()}
  if draw(st.booleans()):
    del files['MODULE.bazel']
  touched = []
  for _ in range(draw(st.sampled_from([1, 1, 1, 2]))):
    n = draw(names)
    c = files.get(n, b'')
    if draw(st.integers(0, 9)) == 0:
      c = b''.join(draw(st.lists(st.sampled_from(FRAGMENTS), max_size=12)))
    for m in draw(st.lists(mutation, min_size=1, max_size=4)):
      c = damage(c, m)
    files[n] = c
    touched.append(n)
  return files, touched


def seeds():
  """Inputs of fuzz/commands.cc."""
  parts = [BUILD, SUB, SOURCE, SOURCE, MODULE, PROTO]
  small = ['cc_library(name = "foo", srcs = ["a.cc"], deps = ["//a:x"])\nalias(name = "b", actual = ":foo")\n', SUB.split('\n')[0], '#include "a/x.h"\n', '', 'module(name = "m")\n', '']
  tiny = ['x = [a(b = {"c": d.e[1]}) for f in (g,) if not h]\n', '', '', '', '', '']
  out = []
  for cmd in range(14):
    for i, p in enumerate((parts, small, tiny)):
      out.append(bytes([cmd, (cmd * 37 + i * 53) & 255]) + b'\xfe'.join(x.encode() for x in p))
  return out


def dictionary():
  def q(b):
    return '"' + ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\x%02x' % c for c in b) + '"'
  return ''.join(q(f) + '\n' for f in FRAGMENTS + [b'\xfe'])
