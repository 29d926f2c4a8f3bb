ID = "p07-transformers-of-first-batch"
PROPERTY = "P07"
NEEDS = "an upload of more than one batch that selects some of the fields, with an enumeration label that is not in the first batch"
BREAKS = "Labels are looked up for the first batch only, and the upload stops at the second batch."
EDITS = [("pysqlsync/base.py", """        indices = self.indices
        async for batch in self.source.batches():
            fns: list[Optional[Callable[[Any], Any]]] = []
            for transformer in self.transformers:
                fns.append(await transformer.get(batch))
""", """        indices = self.indices
        fns: list[Optional[Callable[[Any], Any]]] = []
        async for batch in self.source.batches():
            if not fns:
                for transformer in self.transformers:
                    fns.append(await transformer.get(batch))
""")]
DEMO = '''
import asyncio
from pysqlsync import base

class Lookup(base.RecordTransformer):
    async def get(self, records):
        mapping = {record[1]: k for k, record in enumerate(records)}
        return lambda value: value if value in mapping else None

base.BATCH_SIZE = 2
async def main():
    rows = [(0, "a"), (1, "b"), (2, "c"), (3, "d"), (4, "e")]
    source = base.SelectorTransformerDataSource(base.to_data_source(rows), [1], [Lookup()])
    assert [r async for batch in source.batches() for r in batch] == [(v,) for _, v in rows]
asyncio.run(main())
'''
