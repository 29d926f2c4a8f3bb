ID = "p18-merge-shares-tables"
PROPERTY = "P18"
NEEDS = "a second merge or change after merging a description with a new table into an existing namespace"
BREAKS = "The merged description shares table objects with the one merged from: later changes to one show through in the other."
EDITS = [
    ("pysqlsync/formation/object_types.py", "                self.tables.add(copy.deepcopy(op_table))", "                self.tables.add(copy.copy(op_table))"),
]
DEMO = """
from pysqlsync.formation.object_types import Catalog, Namespace, Table, Column, EnumTable
from pysqlsync.model.id_types import LocalId, QualifiedId
from pysqlsync.model.data_types import SqlIntegerType
def table(name):
    return Table(QualifiedId("ns", name), [Column(LocalId("id"), SqlIntegerType(4), False)], primary_key=(LocalId("id"),))
def catalog(name):
    return Catalog([Namespace(LocalId("ns"), enums=[], structs=[], tables=[table(name)])])
a, b = catalog("A"), catalog("B")
a.merge(b)
a.namespaces["ns"].tables["B"].columns["id"].nullable = True
assert not b.namespaces["ns"].tables["B"].columns["id"].nullable
"""
