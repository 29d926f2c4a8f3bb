ID = "p09-unscoped-table-quote"
PROPERTY = "P09"
NEEDS = "a table outside of any namespace whose name contains a quotation mark"
BREAKS = "The quotation mark ends the identifier."
EDITS = [("pysqlsync/model/id_types.py", '''        else:
            return ID_QUOTE_CHAR + quote_id(self.id) + ID_QUOTE_CHAR

    def rename(self, id: str) -> "SupportsQualifiedId":
        return QualifiedId(''', '''        else:
            return ID_QUOTE_CHAR + self.id + ID_QUOTE_CHAR

    def rename(self, id: str) -> "SupportsQualifiedId":
        return QualifiedId(''')]
DEMO = '''
import sqlite3
from pysqlsync.model.id_types import QualifiedId, PrefixedId
db = sqlite3.connect(":memory:")
for i, id in enumerate((QualifiedId(None, 'a"b'), PrefixedId("n", 'a"b'), QualifiedId("main", 'c"d'))):
    db.execute(f"CREATE TABLE {id} (x)")
assert sorted(r[0] for r in db.execute("SELECT name FROM sqlite_master")) == ['a"b', 'c"d', 'n__a"b']
'''
