ID = "p06-default-columns-not-updated"
PROPERTY = "P06"
NEEDS = "PostgreSQL or MySQL, an upsert of an existing record in a table with a column that has a default value"
BREAKS = "Columns that have a default value keep their former value although the upsert supplies another."
EDITS = [("pysqlsync/formation/object_types.py", "            if column.name not in self.primary_key and not column.identity\n", "            if column.name not in self.primary_key\n            and not column.identity\n            and (field_names is None or column.default is None)\n")]
DEMO = '''
import sys, types
from pysqlsync.base import GeneratorOptions, ClassRef
from pysqlsync.factory import get_dialect

m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
exec("""
from dataclasses import dataclass
from pysqlsync.model.key_types import PrimaryKey
@dataclass
class T:
    id: PrimaryKey[int]
    a: int
    b: int = 5
""", m.__dict__)
g = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={m: None}))
g.create(modules=[m])
import sqlite3
db = sqlite3.connect(":memory:")
db.execute('CREATE TABLE "T" ("id" INTEGER PRIMARY KEY, "a" INTEGER, "b" INTEGER DEFAULT 5)')
statement = g.get_dataclass_upsert_stmt(m.T)
for row in ((1, 2, 3), (1, 4, 6)):
    db.execute(statement, {str(i): v for i, v in enumerate(row, start=1)})
assert db.execute('SELECT * FROM "T"').fetchall() == [(1, 4, 6)]
'''
