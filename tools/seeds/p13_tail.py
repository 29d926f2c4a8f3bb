ID = "p13-tuple-rows-dropped"
PROPERTY = "P13"
NEEDS = "a multi-column query through a driver whose rows are not tuples (pyodbc, asyncpg), with a row that has no values but NULLs after the first"
BREAKS = "A row consisting only of NULLs, other than the first, is dropped from the result."
EDITS = [
    ("pysqlsync/resultset.py", """                try:
                    item = next(it)
                except StopIteration:
                    return results
                results.append(tuple(item))  # type: ignore""", """                try:
                    item = next(it)
                except StopIteration:
                    return results
                if all(value is None for value in item):
                    continue
                results.append(tuple(item))  # type: ignore"""),
]
DEMO = """
from pysqlsync.resultset import resultset_unwrap_tuple
rows = [[1, 2], [None, None], [3, 4]]
assert resultset_unwrap_tuple(tuple[int, int], rows) == [(1, 2), (None, None), (3, 4)]
"""
