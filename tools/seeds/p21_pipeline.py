ID = "p21-pipelined-batches"
PROPERTY = "P21"
NEEDS = "SQL Server, an untyped batch insert whose source yields several batches, the earlier of which is slow or fails"
BREAKS = "Batches are submitted to the driver together, so consecutive calls of one operation overlap on one connection and may change order."
EDITS = [
    ("pysqlsync/dialect/mssql/connection.py", """        async for batch in source.batches():
            await self._internal_execute_all(statement, batch)
""", """        pending = [
            self._internal_execute_all(statement, batch)
            async for batch in source.batches()
        ]
        await asyncio.gather(*pending)
"""),
    ("pysqlsync/dialect/mssql/connection.py", "import logging\nimport typing\n", "import asyncio\nimport logging\nimport typing\n"),
]
DEMO = """
import asyncio, threading, time
import pyodbc
import pysqlsync.base as base
from pysqlsync.connection import ConnectionParameters
from pysqlsync.factory import get_dialect
from pysqlsync.base import GeneratorOptions
busy = []; overlap = []; got = []
class Cursor:
    def __enter__(self): return self
    def __exit__(self, *a): pass
    def execute(self, s, *a): return self
    def fetchall(self): return [("v",)]
    def setinputsizes(self, s): pass
    def executemany(self, s, rows):
        overlap.append(len(busy)); busy.append(1); time.sleep(0.2); busy.pop(); got.extend(rows)
class Native:
    def cursor(self): return Cursor()
    def close(self): pass
pyodbc.connect = lambda *a, **k: Native()
base.BATCH_SIZE = 2
async def main():
    c = get_dialect("mssql").create_connection(ConnectionParameters("h", 1, "u", "p", "d"), GeneratorOptions())
    async with c as ctx:
        await ctx._execute_all("INSERT", Source())
class Source:
    async def batches(self):
        for i in range(3):
            yield [(2 * i,), (2 * i + 1,)]
asyncio.run(main())
assert max(overlap) == 0, overlap
"""
