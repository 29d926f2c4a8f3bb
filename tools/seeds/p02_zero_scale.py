ID = "p02-zero-scale-lost"
PROPERTY = "P02"
NEEDS = "a decimal column with a precision and a scale of zero"
BREAKS = "The scale is not read back, and the column is altered on each synchronisation."
EDITS = [("pysqlsync/formation/data_types.py", "            if numeric_scale is not None:\n", "            if numeric_scale:\n")]
DEMO = '''
from pysqlsync.formation.data_types import SqlDiscovery
from pysqlsync.model.data_types import SqlDecimalType
for precision, scale in ((10, 2), (10, 0), (5, 5)):
    assert SqlDiscovery().sql_data_type_from_spec(type_name="numeric", numeric_precision=precision, numeric_scale=scale) == SqlDecimalType(precision, scale)
'''
