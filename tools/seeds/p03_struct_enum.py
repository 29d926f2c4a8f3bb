ID = "p03-struct-dropped-as-enum"
PROPERTY = "P03"
NEEDS = "options that permit dropping enumerations and forbid dropping composite types, and a composite type that the new version lacks"
BREAKS = "Composite types are dropped although the options forbid it."
EDITS = [("pysqlsync/formation/mutation.py", "        if self.options.allow_drop_struct:\n            statements.extend(", "        if self.options.allow_drop_struct or self.options.allow_drop_enum:\n            statements.extend(")]
DEMO = '''
import re, sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.mutation import MutatorOptions


def state(structs, field, **options):
    m = types.ModuleType("demo_mod"); sys.modules["demo_mod"] = m
    exec(f"""
from dataclasses import dataclass
from pysqlsync.model.key_types import PrimaryKey
{structs}
@dataclass
class T:
    id: PrimaryKey[int]
    {field}
""", m.__dict__)
    g = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces={m: "ns"}, **options))
    g.create(modules=[m])
    return g
point = "@dataclass\\nclass P:\\n    x: int\\n"
other = "@dataclass\\nclass Q:\\n    x: int\\n"
for before, after in (((point, "p: P"), ("", "")), ((point + other, "p: P\\n    q: Q"), (other, "q: Q"))):
    for allow in (True, False):
        target = state(*after)
        source = state(*before)
        source.mutator.options.allow_drop_struct = allow
        script = source.get_mutate_stmt(target.state) or ""
        assert bool(re.search(r"DROP\\s+TYPE", script)) == allow, (allow, script)
'''
