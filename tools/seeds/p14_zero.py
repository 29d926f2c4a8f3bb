ID = "p14-range-from-zero"
PROPERTY = "P14"
NEEDS = "an integer field whose range starts (or ends) at zero"
BREAKS = "A bound of zero yields no check, so the column accepts values out of the declared range."
EDITS = [("pysqlsync/formation/py_to_sql.py", "            if data_type.minimum is not None:\n                conditions", "            if data_type.minimum:\n                conditions")]
DEMO = '''
import sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.object_types import CheckConstraint


m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
exec("""
from dataclasses import dataclass
from typing import Annotated
from strong_typing.auxiliary import IntegerRange
from pysqlsync.model.key_types import PrimaryKey
@dataclass
class T:
    id: PrimaryKey[int]
    percent: Annotated[int, IntegerRange(0, 100)]
""", m.__dict__)
g = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={m: "ns"}))
g.create(modules=[m])
checks = [c for c in g.state.namespaces["ns"].tables["T"].constraints.values() if isinstance(c, CheckConstraint)]
assert len(checks) == 1
import sqlite3
db = sqlite3.connect(":memory:")
db.execute(f'CREATE TABLE t ("percent" INTEGER, CHECK ({checks[0].condition}))')
db.execute("INSERT INTO t VALUES (0)")
for bad in (-1, 101):
    try:
        db.execute("INSERT INTO t VALUES (?)", (bad,))
    except sqlite3.IntegrityError:
        continue
    raise SystemExit(f"{bad} accepted")
'''
