"""Counterexamples as stand-alone scripts: a list of calls on the real library, without the explorer."""
import os

TEMPLATE = '''#!/usr/bin/env python3
"""Counterexample for property %(prop)s: %(title)s

%(what)s

Run: /opt/venv/bin/python %(path)s
Prints what every call does; the last line repeats what was expected.
"""
import contextlib, io, os, sys, tempfile
sys.dont_write_bytecode = True
sys.path.insert(0, os.environ.get('VERIF_REPO', '/repo') + '/src')

OPS = %(ops)s
EXPECTED = %(what_r)s

%(body)s

if __name__ == '__main__':
  perform(OPS)
  print('EXPECTED/PROBLEM:', EXPECTED)
'''

BODY = '''
def perform(ops, quiet=False):
  import contextlib, io, os, shutil, tempfile
  import arinc424
  from arinc424.record import Record
  objs, tmp = {}, None

  def path(p):
    return os.path.join(tmp, p) if tmp else p

  try:
    for op in ops:
      buf, err, res = io.StringIO(), None, None
      kind, args = op[0], op[1:]
      with contextlib.redirect_stdout(buf):
        try:
          if kind == 'note':
            pass
          elif kind == 'new':
            objs[args[0]] = Record()
          elif kind == 'read':
            if args[0] not in objs:
              objs[args[0]] = Record()
            res = objs[args[0]].read(args[1])
          elif kind in ('decode', 'json', 'primary', 'hasCont'):
            res = getattr(objs[args[0]], kind)(*args[1:])
          elif kind == 'parse':
            res = arinc424.parse(*args)
          elif kind in ('file', 'dir', 'link'):
            if tmp is None:
              tmp = tempfile.mkdtemp()
            if kind == 'file':
              os.makedirs(os.path.dirname(path(args[0])), exist_ok=True)
              with open(path(args[0]), 'wb') as f:
                f.write(args[1].encode('utf-8', 'surrogateescape'))
            elif kind == 'dir':
              os.makedirs(path(args[0]), exist_ok=True)
            else:
              os.symlink(args[1], path(args[0]))
          elif kind in ('read_file', 'read_folder', 'search'):
            res = getattr(arinc424, kind)(path(args[0]), *args[1:])
          else:
            raise RuntimeError('unknown op %r' % (op,))
        except BaseException as e:
          err = e
      if not quiet:
        print('>>>', *[a if isinstance(a, str) and len(a) < 20 else repr(a) for a in op])
        if buf.getvalue():
          print(buf.getvalue(), end='')
        print('   raises %s: %s' % (type(err).__name__, err) if err is not None else '   returns %r' % (res,) if not isinstance(res, str) else res)
  finally:
    if tmp:
      shutil.rmtree(tmp, ignore_errors=True)
'''

exec(BODY)


def write(directory, prop, title, what, ops):
  os.makedirs(directory, exist_ok=True)
  path = os.path.join(directory, '%s.py' % prop)
  ops_txt = '[\n' + ''.join('  %s,\n' % ascii(list(o)) for o in (ops or [])) + ']'
  with open(path, 'w') as f:
    f.write(TEMPLATE % {'prop': prop, 'title': title.replace('\\', '\\\\').replace('"""', "'''"),
                        'what': what.encode('ascii', 'backslashreplace').decode().replace('\\', '\\\\').replace('"""', "'''"),
                        'path': path, 'ops': ops_txt,
                        'what_r': ascii(what), 'body': BODY})
  return path
