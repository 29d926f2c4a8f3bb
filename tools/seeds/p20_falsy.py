ID = "p20-falsy-not-converted"
PROPERTY = "P20"
NEEDS = "a row value that is false in a Boolean context (e.g. an empty list for a JSON column), in rows that have all columns of the table in their order"
BREAKS = "The value is passed to the driver unconverted."
EDITS = [("pysqlsync/base.py", """                        (fn(field) if field is not None else None)
                        if fn is not None
                        else field
                    )
                    for fn, field in zip(fns, record)
""", """                        fn(field)
                        if fn is not None and field
                        else field
                    )
                    for fn, field in zip(fns, record)
""")]
DEMO = '''
import asyncio, json
from pysqlsync.base import ScalarTransformer, TransformerDataSource, to_data_source
async def main():
    out = []
    rows = [(1, [1]), (2, []), (3, None)]
    async for batch in TransformerDataSource(to_data_source(rows), [ScalarTransformer(None), ScalarTransformer(json.dumps)]).batches():
        out.extend(tuple(row) for row in batch)
    assert out == [(1, "[1]"), (2, "[]"), (3, None)], out
asyncio.run(main())
'''
