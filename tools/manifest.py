import json,sys,importlib
sys.path.insert(0,'/verif')
sys.dont_write_bytecode=True
T={
'C01':'explicit enumeration of input lines, real reader against reference acceptor',
'C02':'exhaustive enumeration of the section columns, real reader against reference dispatch table',
'C03':'exhaustive enumeration of continuation and application columns, real reader against reference transition table',
'C04':'bounded-exhaustive enumeration of lines per record variant, real reader against reference column model',
'C05':'bounded-exhaustive enumeration of code values, real decoders against reference code tables',
'C06':'exhaustive enumeration of digit strings, real decoders against reference arithmetic',
'C07':'bounded-exhaustive enumeration of field contents, real decoders against reference presentation functions',
'C08':'bounded-exhaustive enumeration of bad contents and the calls after them in forked processes',
'C09':'bounded-exhaustive enumeration of lines and options, JSON re-parsed and compared with the reference record',
'C10':'bounded-exhaustive enumeration of lines and options, printed tables re-parsed and compared with the reference record',
'C11':'explicit-state exploration of all operation sequences on one record object',
'C12':'stateless model checking: all merges of histories and all thread schedules within a preemption bound',
'C13':'bounded-exhaustive enumeration of files, real reader against the one-line model',
'C14':'bounded-exhaustive enumeration of folders, real reader against the one-file model',
'C15':'bounded-exhaustive enumeration of files and filters, real search against reference matcher',
'C16':'exhaustive enumeration of surrounding whitespace, padded against bare executions',
'C17':'bounded-exhaustive enumeration of primary/continuation pairs on the real reader',
'C18':'bounded-exhaustive enumeration of single-column changes, dependency map of the real reader',
}
out={'version':1,'setup_cmd':'./check.py --help > /dev/null','checks':[],'not_applicable':[],
'notes':'All checks import the library from /repo/src; nothing is built or installed. VERIF_JOBS limits the worker processes, VERIF_BUDGET the seconds.'}
for i in range(1,19):
  c='C%02d'%i
  m=importlib.import_module('mc.props.'+c.lower())
  b=m.BOUNDS['quick']
  out['checks'].append(dict(property=c,quick_cmd='./check.py %s --tier quick'%c,thorough_cmd='./check.py %s --tier thorough'%c,
   evidence_file='evidence/%s.json'%c,technique='model checking: '+T[c],level='model_checking',
   level_note='Complete within these bounds, on the real code: '+b+'. Nothing is claimed beyond them. Trusts the reference model in /verif/model and CPython.'))
json.dump(out,open('/verif/MANIFEST.json','w'),indent=1)
