ID = "p15-batch-repeated"
PROPERTY = "P15"
NEEDS = "MySQL, and a connection lost while a batch of records is inserted"
BREAKS = "The failure is swallowed: records of the batch that is cut short and the batches before it are silently lost."
EDITS = [("pysqlsync/dialect/mysql/connection.py", "                await cur.executemany(statement, batch)\n", "                try:\n                    await cur.executemany(statement, batch)\n                except pymysql.err.InterfaceError:\n                    LOGGER.warning(\"cursor closed by peer\", exc_info=True)\n")]
DEMO = '''
import asyncio, logging, sys, types
import pymysql
from pysqlsync.base import ClassRef
from pysqlsync.dialect.mysql.connection import MySQLContext
from pysqlsync.base import DataSource


class Cursor:
    async def __aenter__(self):
        return self

    async def __aexit__(self, *args):
        return False

    async def executemany(self, statement, batch):
        raise pymysql.err.InterfaceError(0, "")


class Connection:
    def cursor(self):
        return Cursor()


class Source(DataSource):
    async def batches(self):
        yield [(1,), (2,)]


class Context(MySQLContext):
    def __init__(self):
        pass

    @property
    def native_connection(self):
        return Connection()


logging.disable(logging.CRITICAL)
try:
    asyncio.run(Context()._execute_all("INSERT", Source()))
except pymysql.err.InterfaceError:
    pass
else:
    raise SystemExit("failure is not reported")
'''
