ID = "p01-default-letter-case"
PROPERTY = "P01"
NEEDS = "a schema change in which a default value changes in letter case only"
BREAKS = "The change is not made: the column keeps the former default value."
EDITS = [("pysqlsync/formation/mutation.py", "        elif source.default != target.default:\n", "        elif str(source.default).upper() != str(target.default).upper():\n")]
DEMO = '''
import sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect


def state(default):
    m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
    exec(f"""
from dataclasses import dataclass
from pysqlsync.model.key_types import PrimaryKey
@dataclass
class T:
    id: PrimaryKey[int]
    a: str = {default!r}
""", m.__dict__)
    g = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={m: "ns"}))
    g.create(modules=[m])
    return g
a, b = state("new"), state("New")
script = a.get_mutate_stmt(b.state)
assert script and "'New'" in script, script
assert not state("new").get_mutate_stmt(state("new").state)
'''
