ID = "p14-inline-composite-member-optional"
PROPERTY = "P14"
NEEDS = "a composite type with an optional member, in a dialect that writes composite types in the column (Delta)"
BREAKS = "All members of the composite type after the first optional one may be without a value."
EDITS = [("pysqlsync/formation/py_to_sql.py", "                            LocalId(field.name), inline_type, inline_props.nullable\n",
          "                            LocalId(field.name),\n                            inline_type,\n                            inline_props.nullable\n                            or any(m.nullable for m in inline_types),\n")]
DEMO = '''
import re, sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect


m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
exec("""
from dataclasses import dataclass
from typing import Optional
from pysqlsync.model.key_types import PrimaryKey
@dataclass
class S:
    x: int
    y: Optional[str]
    z: int
@dataclass
class T:
    id: PrimaryKey[int]
    s: S
""", m.__dict__)
g = get_dialect("delta").create_generator(GeneratorOptions(namespaces={m: "ns"}))
sql = " ".join(g.create(modules=[m]).split())
found = re.search(r'STRUCT *< *(.*?) *>', sql, re.I)
assert found, sql
members = {p.split()[0].strip('"`:'): "NOT NULL" in p.upper() for p in found.group(1).split(",")}
assert members == {"x": True, "y": False, "z": True}, members
'''
