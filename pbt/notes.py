"""What MANIFEST.json says about each check: technique, and level note."""

COMMON = (' Bounds: what the generators make (DESIGN.md); trusts Beautiful '
          'Soup, lxml and the reference model in pbt/.')

NOTES = {
 'C01': ('Hypothesis: generated documents, load/save round trip compared '
         'by an independent XML parser',
         'Random search over generated documents in both formats, five '
         'encodings and two locales, and over the sample files with things '
         'added; the oracle is expat, not the code under test.'),
 'C02': ('Hypothesis: stateful edit histories, differential between memory '
         'and a reload',
         'Random histories of every kind of edit in the API; everything '
         'readable is compared before saving, after saving and after '
         'reloading.'),
 'C03': ('Hypothesis: stateful histories of load/save/save-as against a '
         'model of the directory',
         'Every file of the scratch directory is compared with the model '
         'after each step.'),
 'C04': ('Hypothesis with injected faults: failing saves and loads, files '
         'compared byte for byte',
         'Faults: bad names, missing and read-only places, directories, '
         'full or failing devices, unencodable text, things which are not '
         'animations; not a crash of the process within a write.'),
 'C05': ('Hypothesis: specifications generated from their meaning, exact '
         'rational arithmetic as oracle',
         'The reference model is ref.py in exact fractions.'),
 'C06': ('Hypothesis: mutated specifications, an independent grammar as '
         'oracle',
         'A specification is accepted exactly when the reference grammar '
         'accepts it; malformed ones must raise ValueError.'),
 'C07': ('Hypothesis: str/parse round trip over times and frame rates',
         'Round trip, and a check of the form of the text.'),
 'C08': ('Hypothesis: algebraic laws over lists of times',
         'All pairs within generated lists, against exact fractions.'),
 'C09': ('Hypothesis: lengths, frame rates and settings, against arithmetic',
         'Before and after changes to the length and frame rate, through '
         'every place where a time is given.'),
 'C10': ('Hypothesis: stateful attribute settings against a dict model',
         'Every attribute is read after each step, and in a reload.'),
 'C11': ('Hypothesis: stateful tree operations against nested Python lists',
         'The whole tree is compared after every operation, and in a reload.'),
 'C12': ('Hypothesis: generated trees and queries against a brute-force '
         'search',
         'The oracle walks the file with an independent parser.'),
 'C13': ('Hypothesis: single edits, whole-document frame comparison',
         'Everything outside the element which was edited is compared '
         'before and after.'),
 'C14': ('Hypothesis: values by every route against the plain Python value',
         'Every simple type, every field of that type in the catalogue.'),
 'C15': ('Hypothesis: colours in every notation against exact conversion',
         'Oracle: component arithmetic in ref.py; malformed colours too.'),
 'C16': ('Hypothesis: stateful gradient operations against a dict',
         'Compared after every operation and in a reload.'),
 'C17': ('Hypothesis: stateful part settings against a dict, by all routes',
         'Compared by every route after every operation and in a reload.'),
 'C18': ('Hypothesis: stateful timeline operations against a sorted dict',
         'Compared after every operation, with the XML and in a reload.'),
 'C19': ('Hypothesis: stateful switching against a model of the value',
         'Every type of value, in layers and detached, several handles.'),
 'C20': ('Hypothesis: interpolation names by every route against a table',
         'Both sides, both spellings, in files and in memory.'),
 'C21': ('Hypothesis: refused edits at random points of edit histories, '
         'whole-document comparison',
         'Every kind of refused edit must raise and leave the document and '
         'everything read from it as it was.'),
 'C22': ('Hypothesis: construction orders and type spellings against the '
         'catalogue of layers',
         'The catalogue (pbt/catalogue.json) was taken from the '
         'documentation tables in the source.'),
 'C23': ('Hypothesis: generated subtitles and groups against a timing model',
         'The model computes every waypoint in exact fractions.'),
 'C24': ('Hypothesis: whole-document comparison around first and repeated '
         'runs, in process and from the command line',
         'Everything outside the matched texts is compared.'),
 'C25': ('Hypothesis: generated keyframe lists and edits against the list',
         'Compared before and after edits and in a reload.'),
 'C26': ('Hypothesis: generated files of blocks against a reference '
         'replacer',
         'Files are compared as bytes, and their modification.'),
 'C27': ('Hypothesis: stateful histories over many handles, all compared '
         'with a fresh view',
         'Every handle ever obtained is read after each change.'),
 'C28': ('Hypothesis: stateful histories over several animations, frame '
         'comparison of all the others',
         'Every other object is compared before and after each change.'),
 'C29': ('Hypothesis: random sequences of reads, whole-document comparison',
         'The document and the snapshot are compared before and after.'),
 'C30': ('Hypothesis: evaluating the expression of a generated value and '
         'constructing from it, round trip',
         'Every implemented type, from files, fields, names and '
         'constructors.'),
 'C31': ('Hypothesis: edit histories, with what everything prints as '
         'composed from the model',
         'Every layer, value, waypoint, timeline and keyframe is printed '
         'after each edit.'),
 'C33': ('Hypothesis: pairs of values changed step by step, equality in a '
         'model as oracle',
         'Both are compared both ways after every change, wherever they are; '
         'differences too small to be claimed are left out.'),
 'C32': ('Hypothesis: edit histories around generated unimplemented '
         'params, element-by-element comparison',
         'The contents are random trees; every kind of layer with such '
         'fields.'),
}
NOTES = {k: (t, n+COMMON) for k, (t, n) in NOTES.items()}
