ID, PROP = "c11-no-quoting", "C11"
NEEDS = "a file name with a quote character"
BREAKS = "only names with a comma are quoted in RECORD"
EDITS = [("wheeltools.py", """        writer = csv.writer(record_file)
        for path in files():""", """        for path in files():"""),
("wheeltools.py", """            writer.writerow((record_path_, hash_, size))
""", """            if "," in record_path_:
                escaped = record_path_.replace('"', '""')
                record_path_ = f'"{escaped}"'
            record_file.write(f"{record_path_},{hash_},{size}\\r\\n")
""")]
DEMO = '''
from demolib import *
import csv
put('w/p-1.dist-info/RECORD', "")
put('w/"a".txt', "x")
from auditwheel.wheeltools import rewrite_record
rewrite_record(D / "w")
with open(D / "w/p-1.dist-info/RECORD", newline="") as f:
    names = [r[0] for r in csv.reader(f)]
assert names == ['"a".txt', "p-1.dist-info/RECORD"], names
'''
