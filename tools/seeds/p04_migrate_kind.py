ID = "p04-lookup-of-nullable-column"
PROPERTY = "P04"
NEEDS = "a schema change from an enumeration type to a lookup table, in a column that is nullable before"
BREAKS = "The column is converted without its data being migrated."
EDITS = [("pysqlsync/dialect/postgresql/mutation.py", "            if isinstance(source.data_type, SqlUserDefinedType):\n", "            if (\n                isinstance(source.data_type, SqlUserDefinedType)\n                and source.nullable == target.nullable\n            ):\n")]
DEMO = '''
import sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.py_to_sql import EnumMode

def state(mode, typ):
    m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
    exec(f"""
import enum
from dataclasses import dataclass
from typing import Optional
from pysqlsync.model.key_types import PrimaryKey
class E(enum.Enum):
    A = "a"
    B = "b"
@dataclass
class T:
    id: PrimaryKey[int]
    e: {typ}
""", m.__dict__)
    g = get_dialect("postgresql").create_generator(GeneratorOptions(enum_mode=mode, namespaces={m: "ns"}))
    g.create(modules=[m])
    return g
for before in ("E", "Optional[E]"):
    for after in ("E", "Optional[E]"):
        script = state(EnumMode.TYPE, before).get_mutate_stmt(state(EnumMode.RELATION, after).state)
        assert 'UPDATE "ns"."T"' in script, (before, after, script)
'''
