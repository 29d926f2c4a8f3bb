ID = "p05-nested-composite-namespace"
PROPERTY = "P05"
NEEDS = "a composite type that has a composite type of another namespace as a member, where no table refers to the other namespace and the other namespace comes later in the list"
BREAKS = "The creation script creates the outer type ahead of the inner one."
EDITS = [("pysqlsync/formation/object_types.py", "        for s in self.structs.values():\n            items.update(s.get_referenced_types())\n        for t in self.tables.values():\n            items.update(t.get_referenced_types())\n        return set(", "        for t in self.tables.values():\n            items.update(t.get_referenced_types())\n        return set(")]
DEMO = '''
import sys, types
from pysqlsync.base import GeneratorOptions
from pysqlsync.factory import get_dialect


def module(name, code):
    m = types.ModuleType(name); sys.modules[name] = m
    exec("from dataclasses import dataclass\\nfrom pysqlsync.model.key_types import PrimaryKey\\n" + code, m.__dict__)
    return m
inner = module("demo_inner", "@dataclass\\nclass Inner:\\n    x: int\\n")
outer = module("demo_outer", "import demo_inner\\nfrom demo_inner import Inner\\n@dataclass\\nclass Outer:\\n    i: Inner\\n@dataclass\\nclass T:\\n    id: PrimaryKey[int]\\n    o: Outer\\n")
for names in (("a", "b"), ("b", "a")):
    for order in ((inner, outer), (outer, inner)):
        mapping = {inner: names[0], outer: names[1]}
        g = get_dialect("postgresql").create_generator(GeneratorOptions(namespaces=mapping))
        script = g.create(modules=list(order))
        assert script.index('CREATE TYPE "%s"."Inner"' % names[0]) < script.index('CREATE TYPE "%s"."Outer"' % names[1]), script
'''
