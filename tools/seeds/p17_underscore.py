ID = "p17-underscore-wildcard"
PROPERTY = "P17"
NEEDS = "Oracle, a namespace with an underscore in its name, and another namespace whose name has some other character in that place"
BREAKS = "Tables of the other namespace are taken for tables of the namespace that is synchronised, and dropped."
EDITS = [("pysqlsync/dialect/oracle/discovery.py", "f\"table_name LIKE '{escape_like(namespace_id.id, '~')}~_~_%' ESCAPE '~'\"", "f\"table_name LIKE {quote(namespace_id.id + '~_~_%')} ESCAPE '~'\"")]
DEMO = '''
import asyncio, re, sqlite3
from pysqlsync.dialect.oracle.discovery import OracleExplorer
from pysqlsync.model.id_types import LocalId
db = sqlite3.connect(":memory:")
db.execute("PRAGMA case_sensitive_like = ON")
db.execute("CREATE TABLE dba_tables (owner, table_name, status, temporary, secondary, dropped, read_only, tablespace_name)")
for name in ("a_b__T", "axb__T", "a_b_c__T", "T"):
    db.execute("INSERT INTO dba_tables VALUES ('U', ?, 'VALID', 'N', 'N', 'NO', 'NO', 'USERS')", (name,))

class Generator:
    def get_current_schema_stmt(self):
        return "'U'"

class Connection:
    generator = Generator()

class Context:
    connection = Connection()

    async def query_all(self, signature, statement):
        statement = re.sub(r"owner = .*? AND", "owner = 'U' AND", statement).rstrip(";")
        return [row[0] for row in db.execute(statement)]

async def main():
    explorer = OracleExplorer(Context())
    found = []

    async def get_table(table_id):
        found.append(table_id.local_id)
        return explorer.factory.table_class(name=table_id, columns=[], primary_key=())

    explorer.get_table = get_table
    await explorer.get_namespace(LocalId("a_b"))
    assert found == ["a_b__T"], found

asyncio.run(main())
'''
