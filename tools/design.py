import importlib,sys,json
sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
X={
'C01':('The acceptor is a predicate on text (strip, length 132, S/T, nine digits, then type, number and application by the transition table).','A line class that no sample has: one odd digit character, one length, one column.'),
'C02':('The two-step lookup as a table of 42 codes; the selected type is judged by `ident`-independent means: its field names and column dependencies.','All 857,375 section combinations are tried, on several backgrounds, instead of 26.'),
'C03':('The transition table (type, number, application) -> field list | refused, with status primary/hasCont.','Every cell of the table is executed.'),
'C04':('Each field list gives name, order and columns; the value must be the verbatim slice.','Every column of every variant takes every character; content-dependent trimming or shifting shows on pairs, fills and source words.'),
'C05':('Code tables per 5.x section, per record type where the meaning depends on it; the model gives text, the value, or ValueError for every other value.','The whole value space of one- and two-column codes, all upper-case three-column values, and product of positional letters.'),
'C06':('Reference arithmetic on decimal strings, written independently of the decoders (integer and Decimal operations, not float formatting).','All numbers of every width up to five; tests compare none.'),
'C07':('Identity, or the presentation function of the section.','All characters in all columns; fills, partial fills, words of the source.'),
'C08':('Outcome set {text, ValueError}; the record and a following record must be unaffected; runs in a forked child so that an exit or a hang is seen.','Process exits and exceptions on unusual characters need the value that triggers them.'),
'C09':('JSON text is parsed with duplicate detection and compared with the record\'s own fields, and its form (one line / indented, sorted) with a reference rendering.','Every control and non-ASCII character in every column, all option combinations.'),
'C10':('Real rendered tables are parsed back by their borders into rows; printed text is compared with returned text, `parse` with `decode`.','All fields with all widths of content.'),
'C11':('State machine: object state = the last line read, or new. After each sequence all observations must equal those of a fresh object in a pristine process.','Histories: all sequences to depth 4 (thorough 5), and all ordered pairs of variants.'),
'C12':('Baseline of each line in a pristine process; merges of two objects\' operations, families of lines in several orders, and threads under the controlled scheduler must reproduce the baseline.','Schedules: every single preemption point of two threads; a test run takes one schedule.'),
'C13':('read_file = concatenation of the one-line behaviours up to the first ValueError; file bytes, modification and open handles are checked.','All files to 4-5 lines over the line classes, line endings, final breaks.'),
'C14':('read_folder = multiset of the one-file outputs of the regular files in the folder; order free.','All small folders over entry kinds and names, hidden, non-ASCII, no extension, links.'),
'C15':('Reference matcher (substring, all texts of a list) over acceptable lines, with the count line.','All small files x texts that occur at, across and beside column boundaries.'),
'C16':('Relational: padded execution = bare execution, and acceptor on stripped text.','All whitespace characters that Python strips, on both sides, every variant.'),
'C17':('Relational between two executions: a primary and a continuation that share the key columns must report equal key fields.','Every key column x every character for every pair of lists.'),
'C18':('Dependency map: which fields change when one column changes; owners must be unique, contiguous and ordered, and the record must close with 124-128, 129-132.','It is independent of the column model of C04: it would still find a clash that the model also had (that is how the TAA findings were found).'),
}
titles={json.loads(l)['id']:json.loads(l)['title'] for l in open('/verif/properties.jsonl')}
COST=json.load(open('/tmp/cost.json')) if len(sys.argv)>1 else {}
out=[]
for i in range(1,19):
  c='C%02d'%i; m=importlib.import_module('mc.props.'+c.lower()); a,b=X[c]
  out.append('### %s %s\n\n- Specified and oracle: %s\n- States: %s.\n- Quick bound: %s.\n- Thorough bound: %s.\n- Beyond the tests: %s%s\n'%(c,titles[c],a,m.STATES,m.BOUNDS['quick'],m.BOUNDS['thorough'],b,'\n- Cost on 8 cores: %s.'%COST[c] if c in COST else ''))
t=open('/verif/DESIGN.md').read()
import re
if '{{PROPS}}' in t: t=t.replace('{{PROPS}}','\n'.join(out))
else: t=re.sub(r'(## Properties\n\n).*?(?=No property is outside)',lambda m:m.group(1)+'\n'.join(out)+'\n',t,flags=re.S)
open('/verif/DESIGN.md','w').write(t)
