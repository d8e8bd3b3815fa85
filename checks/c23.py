"""C23: arena and arena containers against plain models."""
from hypothesis import strategies as st

from vlib import build
from vlib.harness import Sub

PROPERTY = 'C23'
RULE = ('Histories of creating deques (6 element types x 13 chunk configurations) '
        'in one arena of generated block size, appending, modifying by reference '
        'or iterator, raw allocations (empty, tiny, around the block size, larger), '
        'object construction, moving the arena, and complete checks (size, index, '
        'iteration, stable addresses, contents, disjointness of all memory), run '
        'under AddressSanitizer next to std::vector models. Non-trivial: at least 3 '
        'elements and two kinds of operation.')
ASSUMPTIONS = ['Alignment is not checked: the arena does not align and all users '
               'only rely on x86-64 tolerating that.']

TYPES, CONFIGS = 6, 13


@st.composite
def history(draw):
  bs = draw(st.one_of(st.integers(1, 64), st.sampled_from([100, 128, 1000, 4096, 65536])))
  ops = ['d %d %d' % (draw(st.integers(0, TYPES - 1)), draw(st.integers(0, CONFIGS - 1)))]
  for _ in range(draw(st.integers(1, 14))):
    k = draw(st.sampled_from('aaaaadsrrncm'))
    if k == 'd':
      ops.append('d %d %d' % (draw(st.integers(0, TYPES - 1)), draw(st.integers(0, CONFIGS - 1))))
    elif k == 'a':
      ops.append('a %d %d' % (draw(st.integers(0, 3)), draw(st.one_of(
          st.integers(0, 9), st.integers(0, 140), st.sampled_from([63, 64, 65, 127, 128, 255, 600])))))
    elif k == 's':
      ops.append('s %d %d' % (draw(st.integers(0, 3)), draw(st.integers(0, 200))))
    elif k == 'r':
      ops.append('r %d 0' % draw(st.one_of(st.integers(0, 40), st.integers(max(0, bs - 3), bs + 3),
                                           st.integers(0, 3 * bs))))
    else:
      ops.append(k + ' 0 0')
  return bs, ops


def run(ctx, case):
  bs, ops = case
  r = ctx.call('arena', bs, *ops)
  if r[0] != b'OK':
    ctx.fail('%s in %s' % (r[0].decode(), case))
  kinds = {o[0] for o in ops}
  if int(r[1]) >= 3 and len(kinds) > 1:
    ctx.hit(*('op ' + k for k in kinds))
    if int(r[1]) > 64:
      ctx.label('more than 64 elements')


def every_length():
  """Each configuration and type, each length up to 200, checked at each length."""
  for t in range(TYPES):
    for c in range(CONFIGS):
      for bs in (16, 1024):
        yield (bs, ['d %d %d' % (t, c)] + ['a 0 1', 'c 0 0'] * 200)


SUBS = [
    Sub('histories', history(), run, 9000, 500000),
    Sub('every_length', None, run, 0, 0, exhaustive=every_length),
]


def prepare():
  return {'driver': build.small('arena_driver', [build.VERIF + '/driver/arena_driver.cc'])}
