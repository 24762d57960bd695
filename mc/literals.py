"""Text that the source code itself mentions, as an alphabet for field content.

Every short string and number that occurs as a constant in the library's source
is tried as field content by the enumerations: a shortcut taken for a particular
value has to mention that value.  This only chooses inputs; the verdict always
comes from running the code and comparing with the model."""
import ast
import os

from mc import impl


def collect(maxlen=10):
  out, nums = set(), set()
  for d, _, files in os.walk(impl.SRC):
    for fn in sorted(files):
      if not fn.endswith('.py'):
        continue
      try:
        with open(os.path.join(d, fn), encoding='utf-8') as f:
          tree = ast.parse(f.read())
      except (SyntaxError, ValueError, OSError):
        continue
      for n in ast.walk(tree):
        if isinstance(n, ast.Constant):
          if isinstance(n.value, (str, bytes)):
            v = n.value if isinstance(n.value, str) else n.value.decode('latin-1')
            if 1 <= len(v) <= maxlen and v.isprintable():
              out.add(v)
            for w in v.split():
              if len(w) <= 5 and w.isprintable():
                out.add(w)
          elif isinstance(n.value, int) and not isinstance(n.value, bool) and 0 <= n.value < 10 ** 7:
            nums.add(n.value)
  for k in nums:
    for w in range(len(str(k)), 7):
      out.add(str(k).zfill(w))
  return sorted(out, key=lambda x: (len(x), x)), sorted(nums)
