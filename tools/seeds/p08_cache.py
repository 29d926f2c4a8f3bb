ID = "p08-identifiers-cached-by-name"
PROPERTY = "P08"
NEEDS = "two lookup tables of the same name in different namespaces, used over the same connection"
BREAKS = "Identifiers of one lookup table are used for references to the other."
EDITS = [("pysqlsync/base.py", """        if not values:
            return dict()

        await self.context.execute_all(
            self.context.connection.generator.get_table_merge_stmt(self.table),""", """        cache = self.context.__dict__.setdefault("_lookup_values", {})
        known: dict[str, int] = cache.setdefault(self.table.name.local_id, {})
        if all(value in known for value in values):
            return known

        await self.context.execute_all(
            self.context.connection.generator.get_table_merge_stmt(self.table),"""),
 ("pysqlsync/base.py", """        return dict(results)


class EnumTransformer""", """        known.update(results)
        return known


class EnumTransformer""")]
DEMO = '''
import asyncio, sys, types
from pysqlsync.base import EnumTransformer, GeneratorOptions
from pysqlsync.factory import get_dialect
from pysqlsync.formation.py_to_sql import EnumMode

def module(name):
    m = types.ModuleType(name); sys.modules[name] = m
    exec("""
import enum
from dataclasses import dataclass
from pysqlsync.model.key_types import PrimaryKey
class E(enum.Enum):
    A = "a"
    B = "b"
@dataclass
class T:
    id: PrimaryKey[int]
    e: E
""", m.__dict__)
    return m
one, two = module("demo_one"), module("demo_two")
g = get_dialect("postgresql").create_generator(GeneratorOptions(enum_mode=EnumMode.RELATION, namespaces={one: "one", two: "two"}))
g.create(modules=[one, two])
stored = {"one": ["b", "a"], "two": ["a", "b"]}

class Connection:
    generator = g

class Context:
    connection = Connection()

    def table(self, statement):
        return "one" if '"one"' in statement else "two"

    async def execute_all(self, statement, records):
        for record in records:
            if record[0] not in stored[self.table(statement)]:
                stored[self.table(statement)].append(record[0])

    async def query_all(self, signature, statement):
        return [(value, i) for i, value in enumerate(stored[self.table(statement)], start=1)]

async def main():
    context = Context()
    for name in ("one", "two", "one"):
        table = g.state.namespaces[name].tables["E"]
        fn = await EnumTransformer(context, table, g, 0).get([("a",), ("b",)])
        assert [fn(v) for v in ("a", "b")] == [stored[name].index(v) + 1 for v in ("a", "b")], name
asyncio.run(main())
'''
