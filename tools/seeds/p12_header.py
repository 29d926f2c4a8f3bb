ID = "p12-async-header-blank"
PROPERTY = "P12"
NEEDS = "asynchronous reading of a file whose last column has a name that ends in a blank"
BREAKS = "The column name is cut off, and is not recognised."
EDITS = [("pysqlsync/data/exchange.py", '        header = line.rstrip(b"\\n")\n', '        header = line.rstrip()\n')]
DEMO = '''
import asyncio, io
from dataclasses import dataclass
from pysqlsync.data.exchange import AsyncTextReader, TextReader, TextWriter, fields_to_types
from pysqlsync.model.key_types import PrimaryKey

@dataclass
class T:
    id: PrimaryKey[int]
    a: str

mapping = {"id": "id", "a": "a "}
out = io.BytesIO()
TextWriter(out, T, mapping).write_objects([T(1, "x")])

class Stream:
    def __init__(self, data):
        self.stream = io.BytesIO(data)
    async def readline(self, limit=-1):
        return self.stream.readline(limit)

async def main():
    reader = AsyncTextReader(Stream(out.getvalue()), fields_to_types(T, mapping))
    await reader.read_header()
    assert reader.columns == ("id", "a "), reader.columns
    assert await reader.read_records() == [(1, "x")]
asyncio.run(main())
'''
