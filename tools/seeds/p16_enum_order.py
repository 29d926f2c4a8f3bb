ID = "p16-enum-values-sorted"
PROPERTY = "P16"
NEEDS = "PostgreSQL, an enumeration type whose values are not in alphabetical order"
BREAKS = "The values of an enumeration type are read in alphabetical order rather than in the order of the type, on which comparison and sorting depend."
EDITS = [("pysqlsync/dialect/postgresql/discovery.py", '            "ORDER BY enum_name, e.enumsortorder\\n"', '            "ORDER BY enum_name, enum_value\\n"')]
DEMO = '''
import asyncio, sqlite3
from pysqlsync.dialect.postgresql.discovery import PostgreSQLExplorer
from pysqlsync.model.id_types import LocalId
db = sqlite3.connect(":memory:")
db.execute("ATTACH ':memory:' AS pg_catalog")
for name, cols in (
    ("pg_type", "oid, typname, typnamespace"),
    ("pg_enum", "oid, enumtypid, enumlabel, enumsortorder"),
    ("pg_namespace", "oid, nspname"),
    ("pg_class", "oid, relname, relnamespace, relkind"),
):
    db.execute(f"CREATE TABLE pg_catalog.{name} ({cols})")
db.execute("INSERT INTO pg_catalog.pg_namespace VALUES (1, 'n')")
db.execute("INSERT INTO pg_catalog.pg_type VALUES (2, 'level', 1)")
values = ["low", "medium", "high"]
for i, v in enumerate(values):
    db.execute("INSERT INTO pg_catalog.pg_enum VALUES (?, 2, ?, ?)", (10 + i, v, float(i)))

class Connection:
    pass

class Context:
    connection = Connection()

    async def query_all(self, signature, statement):
        cur = db.execute(statement)
        if signature is str:
            return [row[0] for row in cur]
        names = [d[0] for d in cur.description]
        return [signature(**dict(zip(names, row))) for row in cur]

async def main():
    ns = await PostgreSQLExplorer(Context()).get_namespace(LocalId("n"))
    enums = list(ns.enums.values()) if hasattr(ns.enums, "values") else list(ns.enums)
    assert len(enums) == 1
    assert list(enums[0].values) == values, enums[0].values
asyncio.run(main())
'''
